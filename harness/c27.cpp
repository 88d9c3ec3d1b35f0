// C27: jets are regular values in the containers and algorithms of the standard
// library. A container of jets and a shadow of it (images of the jets that share
// nothing with them) go through the same history.
#include "common.hpp"
#include "sparse.hpp"
#include <algorithm>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <numeric>
#include <optional>
#include <tuple>
#include <utility>
#include <variant>
using namespace hv;

template <class Y>
struct Dense
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    struct Img
    {
        Ix n = 0;
        std::vector<S> d;
    };
    static std::string name() { return Y::name(); }
    static T make(S f, Rng &r, Img &i)
    {
        T x = make_jet<Y>(Y::size(r), f, r);
        i = image(x);
        return x;
    }
    static Img image(const T &x)
    {
        Img i;
        i.n = x.size();
        i.d.assign(x.ptr(), x.ptr() + Y::len(i.n));
        return i;
    }
    static bool same(const T &x, const Img &i)
    {
        if (x.size() != i.n || x.data_length() != Ix(i.d.size()) || Ix(x.data().size()) != Ix(i.d.size()))
            return false;
        for (std::size_t k = 0; k < i.d.size(); k++)
            if (!same_bits(x.ptr()[k], i.d[k]))
                return false;
        return true;
    }
    static S f(const Img &i) { return i.d[0]; }
    static void change(T &x, Img &i, Rng &r)
    {
        const int k = r.below(int(i.d.size()));
        const S v = S(r.U(-9, 9));
        x.ptr()[k] = v;
        i.d[k] = v;
    }
    static void negate(Img &i)
    {
        for (auto &v : i.d)
            v = -v;
    }
    static std::string show(const T &x) { return hv::show<Y>(x); }
    static std::string show(const Img &i)
    {
        std::string s = fmt("size %ld:", long(i.n));
        for (std::size_t k = 0; k < i.d.size() && k < 24; k++)
            s += " " + ss(i.d[k]);
        return s;
    }
    static u64 hash(const Img &i, u64 h)
    {
        for (auto v : i.d)
        {
            const double w = double(v);
            h = hash_bytes(&w, sizeof w, h);
        }
        return h;
    }
};

template <class SY>
struct Sparse
{
    using S = typename SY::Scalar;
    using T = typename SY::T;
    struct Img
    {
        S f = 0;
        std::map<std::string, S> d;
    };
    static std::string name() { return SY::name(); }
    static T make(S f, Rng &r, Img &i)
    {
        SJ q;
        T x = make_sparse<S>(f, r, q);
        i = Img();
        i.f = f;
        for (auto &e : q.d)
            i.d[e.first] = S(e.second.first);
        return x;
    }
    static bool same(const T &x, const Img &i)
    {
        if (x.size() != Ix(i.d.size()) || !same_bits(x.f(), i.f))
            return false;
        for (auto &e : i.d)
            if (!same_bits(x.d(e.first), e.second))
                return false;
        return true;
    }
    static S f(const Img &i) { return i.f; }
    static void change(T &x, Img &i, Rng &r)
    {
        const S c = r.pick({S(2), S(-1), S(0.5)});
        x *= c;
        i.f *= c;
        for (auto &e : i.d)
            e.second *= c;
    }
    static void negate(Img &i)
    {
        i.f = -i.f;
        for (auto &e : i.d)
            e.second = -e.second;
    }
    static std::string show(const T &x)
    {
        return fmt("size %ld: ", long(x.size())) + ss(x.f());
    }
    static std::string show(const Img &i)
    {
        std::string s = fmt("size %zu: ", i.d.size()) + ss(i.f);
        return s;
    }
    static u64 hash(const Img &i, u64 h)
    {
        double v = double(i.f);
        h = hash_bytes(&v, sizeof v, h);
        for (auto &e : i.d)
            v = double(e.second), h = hash_bytes(&v, sizeof v, hash_str(e.first, h));
        return h;
    }
};

template <class K>
struct History
{
    using T = typename K::T;
    using S = typename K::S;
    using Img = typename K::Img;
    struct Holder // a class with a jet and implicitly defined special members
    {
        int tag = 0;
        T x;
        Holder(const T &v) : x(v) {}
    };

    std::vector<T> v;
    std::vector<Img> s;
    std::string what;
    bool good = true;

    void check(const T &x, const Img &i, const char *which)
    {
        R.evals++;
        if (!good || K::same(x, i))
            return;
        good = false;
        R.violation(what + "/" + K::name(), std::string(which) + " is " + K::show(x) + "\n  expected " + K::show(i));
    }
    void verify()
    {
        if (v.size() != s.size())
        {
            good = false;
            R.violation(what + "/count/" + K::name(), "number of elements");
            return;
        }
        for (std::size_t k = 0; good && k < v.size(); k++)
            check(v[k], s[k], fmt("element %zu", k).c_str());
    }
    T fresh(Img &i)
    {
        Rng &r = R.rng;
        return K::make(r.chance(0.3) ? S(r.below(7) - 3) : S(r.sgn() * r.logU(0.01, 100)), r, i);
    }

    void run(int steps)
    {
        Rng &r = R.rng;
        Img i0;
        for (int k = 0; k < 3; k++)
        {
            T x = fresh(i0);
            v.push_back(x), s.push_back(i0);
        }
        for (int step = 0; good && step < steps; step++)
        {
            while (v.size() < 2)
            {
                v.push_back(fresh(i0));
                s.push_back(i0);
            }
            if (v.size() > 24)
            {
                v.erase(v.begin() + 6, v.end());
                s.erase(s.begin() + 6, s.end());
            }
            const int m = int(v.size());
            const int i = r.below(m), j = r.chance(0.2) ? i : r.below(m);
            switch (r.below(24))
            {
            case 0:
                what = "push_back_own";
                v.push_back(v[i]);
                s.push_back(Img(s[i]));
                break;
            case 1:
            {
                what = "push_back_moved";
                T x = fresh(i0);
                v.push_back(std::move(x));
                s.push_back(i0);
                if (r.chance(0.5))
                {
                    x = v[i]; // assigned after it was moved from
                    check(x, s[i], "reassigned");
                }
                break;
            }
            case 2:
                what = "insert_own";
                if (r.chance(0.5))
                {
                    v.insert(v.begin() + i, v[j]);
                    s.insert(s.begin() + i, Img(s[j]));
                }
                else
                {
                    const int c = r.below(4);
                    v.insert(v.begin() + i, c, v[j]);
                    s.insert(s.begin() + i, c, Img(s[j]));
                }
                break;
            case 3:
                what = "erase";
                v.erase(v.begin() + i);
                s.erase(s.begin() + i);
                break;
            case 4:
            {
                what = i == j ? "assign_self" : "assign";
                T &t = v[i] = v[j];
                if (&t != &v[i])
                {
                    good = false;
                    R.violation("assign_returns/" + K::name(), "assignment does not return its target");
                }
                s[i] = Img(s[j]);
                break;
            }
            case 5:
                what = "assign_fresh";
                v[i] = fresh(i0);
                s[i] = i0;
                break;
            case 6:
                what = i == j ? "swap_self" : "swap";
                using std::swap;
                swap(v[i], v[j]);
                swap(s[i], s[j]);
                break;
            case 7:
            {
                what = "move_out_and_back";
                T x(std::move(v[i]));
                check(x, s[i], "the moved jet");
                if (r.chance(0.5))
                    v[i] = std::move(x);
                else
                {
                    v[i] = v[j == i ? (i + 1) % m : j];
                    s[i] = Img(s[j == i ? (i + 1) % m : j]);
                }
                break;
            }
            case 8:
            {
                what = "move_assign";
                if (i == j)
                    break;
                v[i] = std::move(v[j]);
                s[i] = s[j];
                v[j] = fresh(i0);
                s[j] = i0;
                break;
            }
            case 9:
            {
                what = "sort";
                std::vector<int> p(m);
                std::iota(p.begin(), p.end(), 0);
                if (r.chance(0.5))
                {
                    std::stable_sort(v.begin(), v.end());
                    std::stable_sort(p.begin(), p.end(), [&](int a, int b) { return K::f(s[a]) < K::f(s[b]); });
                }
                else
                {
                    std::stable_sort(v.begin(), v.end(), std::greater<T>());
                    std::stable_sort(p.begin(), p.end(), [&](int a, int b) { return K::f(s[a]) > K::f(s[b]); });
                }
                std::vector<Img> t;
                for (int q : p)
                    t.push_back(s[q]);
                s = t;
                break;
            }
            case 10:
                what = "rotate";
                if (r.chance(0.5))
                {
                    std::rotate(v.begin(), v.begin() + i, v.end());
                    std::rotate(s.begin(), s.begin() + i, s.end());
                }
                else
                {
                    std::reverse(v.begin(), v.end());
                    std::reverse(s.begin(), s.end());
                }
                break;
            case 11:
            {
                what = "unique";
                v.erase(std::unique(v.begin(), v.end()), v.end());
                s.erase(std::unique(s.begin(), s.end(), [](const Img &a, const Img &b) { return K::f(a) == K::f(b); }), s.end());
                break;
            }
            case 12:
            {
                what = "find";
                R.evals++;
                const auto a = std::find(v.begin(), v.end(), v[i]) - v.begin();
                const auto b = std::find_if(s.begin(), s.end(), [&](const Img &q) { return K::f(q) == K::f(s[i]); }) - s.begin();
                const auto c = std::min_element(v.begin(), v.end()) - v.begin();
                const auto d = std::min_element(s.begin(), s.end(), [](const Img &p, const Img &q) { return K::f(p) < K::f(q); }) - s.begin();
                if (a != b || c != d)
                {
                    good = false;
                    R.violation("find/" + K::name(), fmt("found at %ld, expected %ld; minimum at %ld, expected %ld", long(a), long(b), long(c), long(d)));
                }
                break;
            }
            case 13:
            {
                what = "copy_of_all";
                std::vector<T> w = v;
                K::change(w[i], i0 = s[i], r);
                check(w[i], i0, "the changed copy");
                if (r.chance(0.3))
                {
                    v = w;
                    s[i] = i0;
                }
                else if (r.chance(0.3))
                {
                    v.swap(w);
                    Img old = j == i ? Img() : s[j];
                    s[i] = i0;
                    if (j != i)
                        K::change(w[j], old, r);
                }
                break;
            }
            case 14:
            {
                what = "deque_list";
                std::deque<T> a(v.begin(), v.end());
                std::list<T> b(a.rbegin(), a.rend());
                a.push_front(a.back());
                a.pop_back();
                K::change(a[i], i0 = i ? s[i - 1] : s[m - 1], r);
                check(a[i], i0, "the changed element");
                b.sort([](const T &x, const T &y) { return x < y; });
                b.splice(b.begin(), b, std::prev(b.end()));
                // back, in the order of the list: stable from the reversed order
                std::vector<Img> t(s.rbegin(), s.rend());
                std::stable_sort(t.begin(), t.end(), [](const Img &x, const Img &y) { return K::f(x) < K::f(y); });
                std::rotate(t.begin(), t.end() - 1, t.end());
                v.assign(b.begin(), b.end());
                s = t;
                break;
            }
            case 15:
            {
                what = "maps";
                std::map<int, T> a;
                std::unordered_map<std::string, T> b;
                for (int k = 0; k < m; k++)
                {
                    a[(k * 7) % 31 + 100 * k] = v[k];
                    b.emplace("k" + std::to_string(k), v[k]);
                }
                b.at("k" + std::to_string(i)) = b.at("k" + std::to_string(j));
                a.erase(a.begin());
                int k = 1;
                for (auto &e : a)
                    check(e.second, s[k], "the mapped jet"), k++;
                for (k = 0; k < m; k++)
                    check(b.at("k" + std::to_string(k)), s[k == i ? j : k], "the hashed jet");
                break;
            }
            case 16:
            {
                what = "wrappers";
                std::optional<T> o;
                o = v[i];
                std::variant<int, T> a(1);
                a = *o;
                std::pair<T, T> p(v[i], v[j]);
                std::tuple<T, int, T> t(v[j], 3, v[i]);
                std::swap(p.first, p.second);
                std::get<0>(t) = p.second;
                std::unique_ptr<T[]> u(new T[2]{v[i], v[j]});
                std::shared_ptr<T> h = std::make_shared<T>(v[j]);
                K::change(*h, i0 = s[j], r);
                check(*o, s[i], "the optional");
                check(std::get<T>(a), s[i], "the variant");
                check(p.first, s[j], "the pair");
                check(p.second, s[i], "the pair");
                check(std::get<0>(t), s[i], "the tuple");
                check(u[0], s[i], "the array"), check(u[1], s[j], "the array");
                check(*h, i0, "the shared jet");
                o.reset();
                a = 2;
                break;
            }
            case 17:
            {
                what = "functions";
                const std::function<T(T)> f = [](T x) { return x; };
                const std::function<const T &(const T &)> g = [](const T &x) -> const T & { return x; };
                const T c = v[j];
                const std::function<T()> h = [c] { return c; };
                v[i] = f(g(v[j]));
                s[i] = Img(s[j]);
                check(h(), s[j], "the captured jet");
                v.push_back(h());
                s.push_back(Img(s[j]));
                break;
            }
            case 18:
            {
                what = "holder";
                Holder a(v[i]), b(v[j]);
                std::vector<Holder> w{a, b, a};
                w[0] = w[1];
                std::swap(w[1], w[2]);
                a = std::move(b);
                b = w[2];
                check(w[0].x, s[j], "the member"), check(w[1].x, s[i], "the member"), check(w[2].x, s[j], "the member");
                check(a.x, s[j], "the member"), check(b.x, s[j], "the member");
                break;
            }
            case 19:
                what = "negated";
                v[i] = -v[i];
                K::negate(s[i]);
                break;
            case 20:
                what = "exchange";
                {
                    const T old = std::exchange(v[i], T(v[j]));
                    check(old, s[i], "the old jet");
                    s[i] = Img(s[j]);
                }
                break;
            case 21:
                what = "assign_list";
                if (r.chance(0.3))
                {
                    v.assign({v[i], v[j], v[i]});
                    std::vector<Img> t{s[i], s[j], s[i]};
                    s = t;
                }
                else
                {
                    v.reserve(v.size() + r.below(9));
                    v.shrink_to_fit();
                }
                break;
            case 22:
            {
                what = "in_place";
                alignas(T) unsigned char raw[sizeof(T)];
                std::memset(raw, 0xa5, sizeof raw);
                T *p = new (raw) T(v[i]);
                check(*p, s[i], "the jet in raw storage");
                *p = v[j];
                check(*p, s[j], "the jet in raw storage");
                v[i] = *p;
                s[i] = Img(s[j]);
                p->~T();
                break;
            }
            default:
                what = "change";
                K::change(v[i], s[i], r);
            }
            R.count("op_" + what);
            verify();
        }
        u64 h = hash_str(K::name());
        for (auto &i : s)
            h = K::hash(i, h);
        R.seen(h);
        if (s.size() && good)
            R.sample(K::name() + " after the last step " + what + ": " + K::show(v[0]));
    }
};

template <class K>
void histories(int N)
{
    for (int k = 0; k < N; k++)
        if (R.begin(K::name() + "/history/" + std::to_string(k)))
        {
            History<K> h;
            h.run(60);
        }
}

struct Test
{
    template <class Y>
    void operator()(Y) { histories<Dense<Y>>(R.n(Y::DYN ? 60 : 25)); }
};
struct SpTest
{
    template <class Y>
    void operator()(Y) { histories<Sparse<Y>>(R.n(60)); }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 80
    for_sparse(SpTest());
#else
    for_types(Test());
#endif
    return R.finish();
}
