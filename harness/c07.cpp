// C07: constructors and factories give exactly the jet they name.
#include "common.hpp"
#include <memory>
using namespace hv;

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        using Data = typename T::Data;
        const std::string tn = Y::name();
        const int N = R.n(Y::DYN ? 1200 : 500);
        if (R.begin(tn + "/statics/0"))
        {
            R.evals++;
            if (T::order() != Y::ORDER || T::is_dynamic() != Y::DYN || T::static_size() != Y::SIZE)
                R.violation("statics/" + tn, "order, is_dynamic or static_size");
        }
        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/make/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            const int len = int(Y::len(n));
            const S f = r.chance(0.15) ? S(r.pick({0.0, -0.0, 1.0, HUGE_VAL, double(NAN), -1.0})) : S(r.U(-50, 50));
            std::string what;
            std::vector<S> e;
            // values that repeat and special ones
            const bool special = r.chance(0.4);
            auto val = [&]() -> S
            { return special && r.chance(0.5) ? S(r.pick({0.0, -0.0, 1.0, 1.0, -1.0, 2.0, HUGE_VAL, -HUGE_VAL, double(NAN), 1e-38, 1e38})) : S(r.U(-9, 9)); };
            auto check = [&](const T &x, int size)
            {
                R.evals++;
                R.count("made_" + what);
                R.seen(jet_hash<Y>(x, hash_str(tn + what)));
                bool ok = x.size() == size && x.data_length() == Y::len(size) && Ix(x.data().size()) == Y::len(size) && Ix(e.size()) == Y::len(size);
                for (std::size_t i = 0; ok && i < e.size(); i++)
                    ok = same_bits(x.ptr()[i], e[i]) || (i > 0 && e[i] == 0 && x.ptr()[i] == 0);
                if (!ok)
                {
                    std::string t;
                    for (std::size_t i = 0; i < e.size() && i < 30; i++)
                        t += ss(e[i]) + " ";
                    R.violation(what + "/" + tn, "made " + show<Y>(x) + fmt("\n  expected size %d: ", size) + t);
                }
                if (n == 2)
                    R.sample(tn + " " + what + " " + show<Y>(x));
                // the new jet can be used at once
                const T y = x + x;
                if (y.size() != size || y.data_length() != Y::len(size))
                    R.violation(what + "_used/" + tn, "x + x " + show<Y>(y));
            };
            const int zs = Y::DYN ? 0 : Y::SIZE; // size of jets made without a size
            switch (r.below(15))
            {
            case 0:
                what = "scalar", e.assign(Y::len(zs), 0), e[0] = f;
                if (r.chance(0.5))
                    check(T(f), zs);
                else
                {
                    T x = f;
                    check(x, zs);
                }
                break;
            case 1:
            {
                what = "int", e.assign(Y::len(zs), 0), e[0] = 3;
                T x(3);
                check(x, zs);
                break;
            }
            case 2:
                what = "default";
                if (Y::DYN)
                {
                    e.assign(1, 0);
                    T x;
                    check(x, 0);
                    check(T(), 0);
                    std::vector<T> v(3);
                    check(v[1], 0);
                }
                else
                {
                    T x;
                    R.evals++;
                    if (x.size() != n || x.data_length() != len)
                        R.violation("default/" + tn, "size");
                }
                break;
            case 3:
                what = "zero", e.assign(Y::len(zs), 0);
                check(T::zero(), zs);
                break;
            case 4:
                what = "zero_n", e.assign(len, 0);
                check(T::zero(n), n);
                break;
            case 5:
                what = "constant", e.assign(Y::len(zs), 0), e[0] = f;
                check(T::constant(f), zs);
                break;
            case 6:
                what = "constant_n", e.assign(len, 0), e[0] = f;
                check(T::constant(f, n), n);
                break;
            case 7:
            {
                what = "variable_n";
                if (!n)
                    break;
                const int i = r.below(n);
                e.assign(len, 0), e[0] = f, e[1 + i] = 1;
                check(T::variable(i, f, n), n);
                if constexpr (!Y::DYN)
                    check(T::variable(i, f), n);
                break;
            }
            case 8:
            {
                what = "variables";
                std::vector<S> v(n);
                for (auto &x : v)
                    x = val();
                const auto a = T::variables(v);
                if (int(a.size()) != n)
                {
                    R.violation("variables/" + tn, fmt("%zu jets for %d values", a.size(), n));
                    break;
                }
                for (int i = 0; i < n; i++)
                {
                    e.assign(len, 0), e[0] = v[i], e[1 + i] = 1;
                    check(a[i], n);
                }
                break;
            }
            case 9:
            {
                what = "variables_array";
                constexpr int K = Y::DYN ? 5 : Y::SIZE;
                if constexpr (K > 0)
                {
                    std::array<S, K> v;
                    for (auto &x : v)
                        x = val();
                    const auto a = T::template variables<K>(v);
                    for (int i = 0; i < K; i++)
                    {
                        e.assign(Y::len(K), 0), e[0] = v[i], e[1 + i] = 1;
                        check(a[i], K);
                    }
                }
                break;
            }
            case 10:
            case 11:
            {
                what = "data";
                Data d{};
                if constexpr (Y::DYN)
                    d.resize(len);
                e.resize(len);
                for (int i = 0; i < len; i++)
                    e[i] = d[i] = val();
                const Data keep = d;
                check(T::create(d), n);
                if constexpr (Y::DYN)
                    check(T(d, n), n);
                else
                    check(T(d), n);
                T x = T::create(d);
                d[0] = S(1e3); // the jet has its own data
                check(x, n);
                x.ptr()[len - 1] = S(-5);
                if (d[0] != S(1e3) || (len > 1 && !same_bits(d[len - 1], keep[len - 1])))
                    R.violation("data_alias/" + tn, "writing to the jet changed the data it was made from");
                break;
            }
            case 12:
            {
                // literal lists of the valid lengths of small jets
                what = "list";
                if (Y::SIZE == 0 || Y::DYN)
                {
                    e = {f};
                    T x{f};
                    check(x, 0);
                }
                if constexpr (Y::ORDER == 1)
                {
                    if (Y::SIZE == 1 || Y::DYN)
                        e = {f, S(2)}, check(T{f, S(2)}, 1);
                    if (Y::SIZE == 2 || Y::DYN)
                        e = {f, S(2), S(-3)}, check(T{f, S(2), S(-3)}, 2);
                    if (Y::SIZE == 4 || Y::DYN)
                        e = {f, S(2), S(-3), 4, 5}, check(T({f, S(2), S(-3), S(4), S(5)}), 4);
                }
                else
                {
                    if (Y::SIZE == 1 || Y::DYN)
                        e = {f, S(2), S(-3)}, check(T{f, S(2), S(-3)}, 1);
                    if (Y::SIZE == 2 || Y::DYN)
                        e = {f, 2, 3, 4, 5, 6}, check(T{f, 2, 3, 4, 5, 6}, 2);
                    if (Y::SIZE == 3 || Y::DYN)
                    {
                        e = {f, 2, 3, 4, 5, 6, 7, 8, 9, 10};
                        T x = {f, 2, 3, 4, 5, 6, 7, 8, 9, 10};
                        check(x, 3);
                    }
                }
                break;
            }
            case 13:
            {
                what = "empty";
                const T x = T::empty(n);
                R.evals++;
                R.count("made_empty");
                if (x.size() != n || x.data_length() != len || Ix(x.data().size()) != len)
                    R.violation("empty/" + tn, fmt("empty(%d) has size %ld, length %ld", n, long(x.size()), long(x.data_length())));
                const T y = T::empty();
                if (y.size() != zs || y.data_length() != Y::len(zs))
                    R.violation("empty/" + tn, "empty()");
                break;
            }
            case 14:
            {
                // copies, moves, assignment, containers
                what = "copy";
                T a = make_jet<Y>(n, f, r, 5);
                e.assign(a.ptr(), a.ptr() + len);
                T b = a;
                T c = T::zero(n);
                c = a;
                std::vector<T> v{a, b};
                v.push_back(v[0]);
                auto heap = std::make_unique<T>(a);
                T &self = a;
                a = self;
                check(a, n), check(b, n), check(c, n), check(v[0], n), check(v[2], n), check(*heap, n);
                if constexpr (Y::DYN)
                {
                    T other = make_jet<Y>(Y::size(r), S(2), r, 5);
                    other = a; // also from another size
                    check(other, n);
                    a = make_jet<Y>(Y::size(r), S(7), r, 5);
                }
                else
                    a.set_zero(), a.set_f(S(3));
                check(b, n), check(c, n), check(v[2], n), check(*heap, n);
                T m = std::move(*heap);
                heap.reset();
                check(m, n);
                b += S(1);
                b *= S(2);
                check(c, n), check(m, n), check(v[0], n);
                std::swap(b, m);
                check(b, n);
                break;
            }
            }
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    return R.finish();
}
