// C10: incompatible sizes and invalid lengths are refused with an exception and
// leave the operands alone; compatible operands never throw.
#include "common.hpp"
#include <functional>
using namespace hv;

template <class Y>
struct Monitor
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    using Data = typename T::Data;
    std::string tn = Y::name();

    enum Outcome
    {
        RETURNED,
        THREW,
        FOREIGN
    };
    std::string msg;
    Outcome attempt(const std::function<void()> &f)
    {
        msg.clear();
        try
        {
            f();
            return RETURNED;
        }
        catch (const std::exception &e)
        {
            msg = e.what();
            return THREW;
        }
        catch (...)
        {
            return FOREIGN;
        }
    }
    // the call has to throw and to leave the jets as they are
    __attribute__((noinline)) void refuse(const std::string &what, const std::string &detail, std::vector<T *> jets, const std::function<void()> &f)
    {
        R.step(what + " " + detail);
        R.evals++;
        R.count("refused_" + what);
        R.seen(hash_str(tn + what + detail));
        std::vector<T> keep;
        std::vector<const S *> where;
        for (auto j : jets)
            keep.push_back(*j), where.push_back(j->ptr());
        const Outcome o = attempt(f);
        if (o != THREW)
            R.violation("accepted/" + what + "/" + tn, detail + (o == RETURNED ? " did not throw" : " threw something that is no std::exception"));
        for (std::size_t i = 0; i < jets.size(); i++)
            if (!same_jet<Y>(*jets[i], keep[i]))
                R.violation("operand_changed/" + what + "/" + tn, fmt("operand %zu of ", i) + detail + "\n  was " + show<Y>(keep[i]) + "\n  is  " + show<Y>(*jets[i]));
        R.sample(tn + " " + what + " " + detail + ": " + msg);
    }
    __attribute__((noinline)) void accept(const std::string &what, const std::string &detail, const std::function<void()> &f)
    {
        R.step(what + " " + detail);
        R.evals++;
        R.count("accepted_" + what);
        R.seen(hash_str(tn + what + detail));
        const Outcome o = attempt(f);
        if (o != RETURNED)
            R.violation("refused/" + what + "/" + tn, detail + " threw " + msg);
    }

    static S wild(Rng &r)
    {
        const int k = r.below(12);
        if (k == 0)
            return std::numeric_limits<S>::quiet_NaN();
        if (k == 1)
            return std::numeric_limits<S>::infinity();
        if (k == 2)
            return -std::numeric_limits<S>::infinity();
        if (k == 3)
            return 0;
        if (k == 4)
            return std::numeric_limits<S>::max();
        if (k == 5)
            return std::numeric_limits<S>::denorm_min();
        return S(r.U(-4, 4));
    }

    static int other(Rng &r, int n)
    {
        int m;
        do
        {
            m = r.chance(0.4) ? n + r.pick({-1, 1, 1, 2, -2}) : Y::size(r);
        } while (m == n || m < 0);
        return m;
    }

    void sizes(Rng &r)
    {
        int n = Y::size(r), m = other(r, n);
        if (r.chance(0.15))
            (r.chance(0.5) ? n : m) = 0;
        if (n == m)
            n = m + 1;
        const int style = r.chance(0.3) ? 6 : 0;
        T a = make_jet<Y>(n, wild(r), r, style), b = make_jet<Y>(m, wild(r), r, style);
        T c = make_jet<Y>(r.chance(0.5) ? n : m, wild(r), r, style);
        // the capacity of the storage must not matter
        if (r.chance(0.3))
            a.data().reserve(Y::len(n + m + 3)), b.data().reserve(Y::len(n + m + 3));
        const std::string d = fmt("sizes %d, %d", n, m);
        for (int op = 0; op < B_COUNT; op++)
        {
            const std::string on = B_NAME[op];
            refuse(on, d, {&a, &b}, [&] { (void)b_op(op, a, b); });
            if (op >= B_ATAN2)
                refuse(on + "_member", d, {&a, &b}, [&] { (void)b_op(op, a, b, true); });
        }
        refuse("iadd", d, {&a, &b}, [&] { a += b; });
        refuse("isub", d, {&a, &b}, [&] { a -= b; });
        refuse("imul", d, {&a, &b}, [&] { a *= b; });
        refuse("idiv", d, {&a, &b}, [&] { a /= b; });
        // hypot of three with each pattern of one or three sizes
        T a2 = make_jet<Y>(n, S(2), r, style);
        const std::string d3 = fmt("sizes from %d, %d", n, m);
        refuse("hypot3_first", d3, {&a, &a2, &b}, [&] { (void)hypot(b, a, a2); });
        refuse("hypot3_second", d3, {&a, &a2, &b}, [&] { (void)hypot(a, b, a2); });
        refuse("hypot3_third", d3, {&a, &a2, &b}, [&] { (void)hypot(a, a2, b); });
        refuse("hypot3_member", d3, {&a, &a2, &b}, [&] { (void)T::hypot(a, a2, b); });
        T e = make_jet<Y>(other(r, n), S(1), r, style);
        if (e.size() != m)
            refuse("hypot3_all", fmt("sizes %d, %d, %ld", n, m, long(e.size())), {&a, &b, &e}, [&] { (void)hypot(a, b, e); });
        // after all the refusals the operands still work
        accept("after_refusal", d, [&] { T s = a; s += a2; s = b * b; });
    }

    void compatible(Rng &r)
    {
        const int n = Y::size(r);
        const T a = make_jet<Y>(n, wild(r), r, 0), b = make_jet<Y>(n, wild(r), r, 0), c = make_jet<Y>(n, wild(r), r, 0);
        T x = a;
        const std::string d = fmt("size %d", n) + " values " + ss(a.f()) + ", " + ss(b.f());
        for (int op = 0; op < B_COUNT; op++)
            accept(B_NAME[op], d, [&] { (void)b_op(op, a, b); (void)b_op(op, a, b, true); (void)b_op(op, a, a); });
        accept("hypot3", d, [&] { (void)hypot(a, b, c); });
        accept("compound", d, [&] { x += b; x -= c; x *= b; x /= c; x += S(1); x *= S(2); x -= S(3); x /= S(0); });
        for (int op = 0; op < U_COUNT; op++)
            accept(U_NAME[op], d, [&] { (void)u_member(op, a, op == U_LOGB ? 2.0 : 1.5); });
        accept("others", d, [&] { (void)(-a); (void)a.abs(); (void)(a < b); (void)(a == b); (void)(1 / a); (void)T(a).to_string(); });
        accept("factories", d, [&] { (void)T::zero(n); (void)T::constant(S(2), n); (void)T::empty(n); (void)T::create(a.data()); if (n) (void)T::variable(n - 1, S(1), n); });
#ifndef HV_NO_EIGEN
        accept("eval", d, [&] {
            if constexpr (Y::DYN)
                (void)a.eval(std::vector<S>(n, S(1)));
            else
            {
                std::array<S, Y::SIZE> v;
                v.fill(S(1));
                (void)a.eval(v);
            } });
        if constexpr (Y::ORDER == 2 && Y::SIZE != 0)
            if (n)
                accept("matrices", d, [&] { typename T::Matrix m = a.hm("full"); x.set_hm(m); m = a.hm("zeros"); x.hm("full", m); });
#endif
        if constexpr (Y::DYN)
        {
            accept("pad", d, [&] { (void)a.pad_left(n); (void)a.pad_right(n); (void)a.pad_left(n + 3); (void)a.pad_right(n + 1); });
            accept("resize", d, [&] { x.resize(n + 2); x.resize(0); x.resize(n); });
        }
    }

    // lengths for which no size exists, or of another size than that of a static jet
    bool valid_length(Ix k) const
    {
        if (Y::SIZE >= 0)
            return k == Y::len(Y::SIZE);
        if (k < 1)
            return false;
        if (Y::ORDER == 1)
            return true;
        for (Ix s = 0; Y::len(s) <= k; s++)
            if (Y::len(s) == k)
                return true;
        return false;
    }

    template <int... I>
    static T literal(std::integer_sequence<int, I...>)
    {
        return T{S(I + 1)...};
    }
    template <int K>
    void lists()
    {
        const std::string d = fmt("%d elements", K);
        if (valid_length(K))
            accept("list", d, [&] { (void)literal(std::make_integer_sequence<int, K>()); });
        else
            refuse("list", d, {}, [&] { (void)literal(std::make_integer_sequence<int, K>()); });
        if constexpr (K > 1)
            lists<K - 1>();
    }

    void lengths(Rng &r)
    {
        if constexpr (Y::DYN)
        {
            for (int t = 0; t < 12; t++)
            {
                const Ix k = r.chance(0.1) ? 0 : r.chance(0.5) ? r.below(40)
                                                               : r.below(3000);
                const std::string d = fmt("%ld values", long(k));
                Data data(k, S(1));
                if (valid_length(k))
                {
                    accept("create", d, [&] {
                        if (T::create(data).data_length() != k)
                            throw std::logic_error("wrong length"); });
                    accept("size_from_length", d, [&] {
                        if (Y::len(T::size_from_data_length(k)) != k)
                            throw std::logic_error("wrong size"); });
                }
                else
                {
                    refuse("create", d, {}, [&] { (void)T::create(data); });
                    refuse("size_from_length", d, {}, [&] { (void)T::size_from_data_length(k); });
                }
                const int n = Y::size(r);
                if (Y::len(n) != k)
                    refuse("data_size", d + fmt(" for size %d", n), {}, [&] { (void)T(data, n); });
                else
                    accept("data_size", d + fmt(" for size %d", n), [&] { (void)T(data, n); });
            }
            // lengths around every valid one, also large ones (no data needed)
            for (int t = 0; t < 40; t++)
            {
                const Ix s = r.chance(0.5) ? r.below(50) : Ix(r.logU(50, 3e7));
                for (Ix k : {Y::len(s) - 1, Y::len(s), Y::len(s) + 1})
                {
                    const bool ok = Y::ORDER == 1 ? k >= 1 : (k == Y::len(s) || k == 1 || k == 3);
                    const std::string d = fmt("length %ld", long(k));
                    if (ok)
                        accept("size_from_length", d, [&] {
                            if (Y::len(T::size_from_data_length(k)) != k)
                                throw std::logic_error("wrong size"); });
                    else
                        refuse("size_from_length", d, {}, [&] { (void)T::size_from_data_length(k); });
                }
            }
            for (Ix k : {Ix(-1), Ix(-2), Ix(-3), Ix(-100)})
                refuse("size_from_length", fmt("length %ld", long(k)), {}, [&] { (void)T::size_from_data_length(k); });
        }
        lists<20>();
#ifndef HV_NO_EIGEN
        const int n = Y::size(r);
        T a = make_jet<Y>(n, S(1), r, 0);
        if constexpr (Y::DYN)
        {
            for (int t = 0; t < 6; t++)
            {
                const int k = r.chance(0.5) ? other(r, n) : n + r.pick({-1, 1});
                if (k < 0)
                    continue;
                refuse("eval", fmt("%d displacements for size %d", k, n), {&a}, [&] { (void)a.eval(std::vector<S>(k, S(1))); });
                const Ix dk = Y::len(n) + r.pick({-1, 1, 2, 5});
                if (dk > 0)
                {
                    typename T::DataVector v = T::DataVector::Ones(dk);
                    refuse("set_adata", fmt("%ld values for size %d", long(dk), n), {&a}, [&] { a.set_adata(v); });
                }
            }
            if constexpr (Y::ORDER == 2)
            {
                using M = typename T::Matrix;
                for (int t = 0; t < 8; t++)
                {
                    int p = n, q = n;
                    const int k = r.below(4);
                    if (k == 0)
                        p = other(r, n);
                    else if (k == 1)
                        q = other(r, n);
                    else if (k == 2)
                        p = q = other(r, n);
                    else
                        p = other(r, n), q = r.below(6);
                    if (p == n && q == n)
                        continue;
                    const M m = M::Ones(p, q);
                    const std::string d = fmt("%d x %d for size %d", p, q, n);
                    refuse("set_hm", d, {&a}, [&] { a.set_hm(m); });
                    M out = M::Constant(p, q, S(7));
                    refuse("hm_into", d, {&a}, [&] { a.hm("full", out); });
                    refuse("hm_into", d, {&a}, [&] { a.hm("zeros", out); });
                    if (!(out.array() == S(7)).all())
                        R.violation("operand_changed/hm_into/" + tn, d + ": the refused matrix was written to");
                    const typename T::Vector g = T::Vector::Ones(n);
                    refuse("from_arrays", d, {}, [&] { (void)T::from_arrays(S(1), g, m); });
                }
            }
        }
        if constexpr (Y::ORDER == 2 && Y::SIZE != 0)
            if (n)
                for (const char *mode : {"", "Full", "full ", "zero", "upper", "z", "fullzeros", "FULL"})
                {
                    typename T::Matrix out = T::Matrix::Zero(n, n);
                    refuse("mode", std::string("'") + mode + "'", {&a}, [&] { (void)a.hm(mode); });
                    refuse("mode_into", std::string("'") + mode + "'", {&a}, [&] { a.hm(mode, out); });
                }
#endif
    }

    void size_arguments(Rng &r)
    {
        T a = make_jet<Y>(Y::size(r), S(1), r, 0);
        const int n = int(a.size());
        std::vector<Ix> bad;
        if (Y::DYN)
            bad = {-1, -2, -3, -7, -1000, std::numeric_limits<Ix>::min(), Ix(1) << 31, Ix(1) << 32, (Ix(1) << 32) + 5, Ix(1) << 40, (Ix(1) << 62) + 1, std::numeric_limits<Ix>::max()};
        else
        {
            bad = {-1, -2, Y::SIZE + 1, Y::SIZE + 16, Ix(1) << 32, (Ix(1) << 32) + Y::SIZE, -Y::SIZE - 1};
            for (Ix k = 0; k < Y::SIZE; k++)
                bad.push_back(k);
        }
        for (Ix k : bad)
        {
            const std::string d = fmt("size %ld", long(k));
            refuse("zero", d, {}, [&] { (void)T::zero(k); });
            refuse("empty", d, {}, [&] { (void)T::empty(k); });
            refuse("constant", d, {}, [&] { (void)T::constant(S(1), k); });
            refuse("variable", d, {}, [&] { (void)T::variable(0, S(1), k); });
            if constexpr (Y::DYN)
            {
                refuse("resize", d, {&a}, [&] { a.resize(k); });
                refuse("data_size", d, {}, [&] { (void)T(a.data(), k); });
                refuse("pad_left", d, {&a}, [&] { (void)a.pad_left(k); });
                refuse("pad_right", d, {&a}, [&] { (void)a.pad_right(k); });
            }
        }
        if constexpr (Y::DYN)
        {
            for (int k = 0; k < n; k++)
            {
                const std::string d = fmt("%d to %d", n, k);
                refuse("pad_left", d, {&a}, [&] { (void)a.pad_left(k); });
                refuse("pad_right", d, {&a}, [&] { (void)a.pad_right(k); });
            }
            for (Ix k : {Ix(n), Ix(n) + 1, Ix(n) + 100, Ix(-1), std::numeric_limits<Ix>::max()})
                if (k < 0 || k >= n)
                    refuse("variable_index", fmt("index %ld of %d", long(k), n), {}, [&] { (void)T::variable(k, S(1), n); });
        }
        else
            for (Ix k : {Ix(Y::SIZE), Ix(Y::SIZE) + 1, Ix(-1), std::numeric_limits<Ix>::max(), std::numeric_limits<Ix>::min()})
                refuse("variable_index", fmt("index %ld", long(k)), {}, [&] { (void)T::variable(k, S(1)); (void)T::variable(k, S(1), Y::SIZE); });
    }
};

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        Monitor<Y> m;
        const std::string tn = Y::name();
        for (int k = 0; k < R.n(Y::DYN ? 250 : 40); k++)
        {
            if constexpr (Y::DYN)
                if (R.begin(tn + "/sizes/" + std::to_string(k)))
                    m.sizes(R.rng);
            if (R.begin(tn + "/compatible/" + std::to_string(k)))
                m.compatible(R.rng);
            if (R.begin(tn + "/lengths/" + std::to_string(k)))
                m.lengths(R.rng);
            if (k < 60 && R.begin(tn + "/size_arguments/" + std::to_string(k)))
                m.size_arguments(R.rng);
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    return R.finish();
}
