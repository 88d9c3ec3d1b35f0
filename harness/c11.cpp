// C11: random sequences of API calls under the sanitizers (or valgrind), in
// several configurations; every result is checked to be initialised and feeds a
// digest that has to be the same whatever uninitialised memory contains.
#include "sparse.hpp"
#include <memory>
#include <sstream>
#ifdef HV_VALGRIND
#include <valgrind/memcheck.h>
#endif
using namespace hv;

static u64 g_digest;
static std::map<std::string, u64> g_digests;

template <class S>
static void feed(S v)
{
#ifdef HV_VALGRIND
    if (VALGRIND_CHECK_VALUE_IS_DEFINED(v))
        R.violation("uninitialised/" + R.cur.substr(0, R.cur.find('/')), "an uninitialised component after " + std::string(R.casebuf));
#endif
    if (v != v)
    {
        g_digest = mix(g_digest + 77);
        return;
    }
    const double hi = double(v), lo = std::is_same_v<S, long double> && std::isfinite(hi) ? double(v - S(hi)) : 0.0;
    g_digest = hash_bytes(&hi, sizeof hi, g_digest);
    g_digest = hash_bytes(&lo, sizeof lo, g_digest);
}
static void feed_int(Ix v) { g_digest = hash_bytes(&v, sizeof v, g_digest); }

// HV_VALID: only calls with valid arguments (used by C24)
#ifdef HV_VALID
static constexpr bool VALID = true;
#else
static constexpr bool VALID = false;
#endif

template <class Y>
struct Seq
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    using Data = typename T::Data;
    std::vector<T> pool;
    Rng &r;
    explicit Seq(Rng &rr) : r(rr) {}

    int size() { return Y::DYN && r.chance(0.6) ? 3 : Y::size(r); }
    S value()
    {
        const int k = r.below(30);
        if (k == 0)
            return std::numeric_limits<S>::quiet_NaN();
        if (k == 1)
            return std::numeric_limits<S>::infinity();
        if (k == 2)
            return -std::numeric_limits<S>::infinity();
        if (k == 3)
            return std::numeric_limits<S>::max();
        if (k == 4)
            return std::numeric_limits<S>::denorm_min();
        if (k == 5)
            return 0;
        if (k < 12)
            return S(r.U(-0.9, 0.9));
        return S(r.U(-5, 5));
    }
    T &pick() { return pool[r.below(int(pool.size()))]; }
    T &mate(const T &a)
    {
        if (!VALID)
            return pick();
        std::vector<T *> v;
        for (auto &x : pool)
            if (x.size() == a.size())
                v.push_back(&x);
        return *v[r.below(int(v.size()))];
    }
    T fresh()
    {
        const int n = size();
        return make_jet<Y>(n, value(), r);
    }

    void look(const T &x)
    {
        feed_int(x.size());
        feed_int(x.data_length());
        if (x.data_length() != Y::len(x.size()) || Ix(x.data().size()) != x.data_length())
            R.violation("malformed/" + Y::name(), "after " + std::string(R.casebuf) + ": " + show<Y>(x));
        for (Ix i = 0; i < x.data_length(); i++)
            feed(x.ptr()[i]);
        R.count("results_checked");
    }
    void keep(T x)
    {
        look(x);
        if (pool.size() < 6)
            pool.push_back(std::move(x));
        else
            pool[r.below(6)] = x;
    }

    void step()
    {
        const int op = r.below(26);
        T &a = pick();
        T &b = mate(a);
        const int n = int(a.size());
        auto mark = [&](const char *w)
        {
            R.step(w);
            R.count(std::string("op_") + w);
            g_digest = mix(g_digest + u64(op));
        };
        switch (op)
        {
        case 0:
        case 1:
        {
            mark("unary");
            const int u = r.below(U_COUNT);
            const double p = u == U_LOGB ? 3.0 : gen_exponent(r);
            keep(r.chance(0.5) && has_free(u) ? u_free(u, a, p) : u_member(u, a, p));
            break;
        }
        case 2:
        case 3:
            mark("binary");
            keep(b_op(r.below(B_COUNT), a, b, r.chance(0.5)));
            break;
        case 4:
            mark("ternary");
            keep(r.chance(0.5) ? hypot(a, b, mate(a)) : T::hypot(a, mate(a), b));
            break;
        case 5:
            mark("scalar");
            keep(s_op(r.below(4), r.below(2), a, value()));
            break;
        case 6:
        case 7:
        {
            mark("compound");
            const int k = r.below(4);
            T &t = k == 0 ? a += b : k == 1 ? a -= b
                                   : k == 2 ? a *= b
                                            : a /= b;
            look(t);
            break;
        }
        case 8:
        {
            mark("compound_scalar");
            const int k = r.below(4);
            S own = value();
            S &v = r.chance(0.3) ? a.ptr()[r.below(int(a.data_length()))] : own;
            T &t = k == 0 ? a += v : k == 1 ? a -= v
                                   : k == 2 ? a *= v
                                            : a /= v;
            look(t);
            break;
        }
        case 9:
            mark("negate");
            keep(-a);
            keep(r.chance(0.5) ? a.abs() : abs(a));
            break;
        case 10:
        {
            mark("compare");
            const S v = value();
            feed_int((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b));
            feed_int((a == v) + 2 * (v != b) + 4 * (a < v) + 8 * (v > b) + 16 * (a <= v) + 32 * (v >= b));
            break;
        }
        case 11:
        {
            mark("text");
            std::ostringstream o;
            o << a;
            // the sign of a NaN is not determined, its text may be nan or -nan
            const std::string t = a.to_string();
            feed_int(a.f() == a.f() ? Ix(o.str().size() + t.size()) : 0);
            break;
        }
        case 12:
        {
            mark("elements");
            a.f() = value();
            a.set_f(value());
            const T &c = a;
            feed(c.f());
            if (n)
            {
                const int i = r.below(n);
                a.g(i) = value();
                a.set_g(n - 1, value());
                feed(c.g(i)), feed(c.g(0));
                if constexpr (Y::ORDER == 2)
                {
                    const int j = r.below(n), m = n * (n + 1) / 2;
                    a.h(i, j) = value();
                    a.set_h(j, i, value());
                    a.set_h(n - 1, n - 1, value());
                    a.h(m - 1) = value();
                    a.set_h(r.below(m), value());
                    feed(c.h(j, i)), feed(c.h(m - 1)), feed(c.h(0, n - 1)), feed(c.h(0));
                }
            }
            look(a);
            break;
        }
        case 13:
        {
            mark("factories");
            const int k = r.below(8), m = r.chance(0.1) && !VALID ? -1 : size();
            const S v = value();
            switch (k)
            {
            case 0:
                keep(T(v));
                break;
            case 1:
                keep(T::zero(m));
                break;
            case 2:
                keep(T::constant(v, m));
                break;
            case 3:
                keep(T::constant(v));
                break;
            case 4:
                if (!VALID || m)
                    keep(T::variable(r.below(m + !VALID), v, m));
                break;
            case 5:
                if constexpr (!Y::DYN)
                {
                    if (!VALID || Y::SIZE)
                        keep(T::variable(r.below(Y::SIZE + !VALID), v));
                }
                else
                {
                    keep(T());
                    keep(T::empty());
                }
                break;
            case 6:
            {
                std::vector<S> vs(Y::DYN ? std::max(0, m) : Y::SIZE, v);
                for (auto &x : T::variables(vs))
                    keep(x);
                break;
            }
            case 7:
            {
                T x = T::empty(m);
                for (Ix i = 0; i < x.data_length(); i++)
                    x.ptr()[i] = v;
                keep(x);
                break;
            }
            }
            break;
        }
        case 14:
        {
            mark("data");
            const Ix len = VALID || r.chance(0.8) ? a.data_length() : Ix(r.below(12));
            if constexpr (Y::DYN)
            {
                Data d(len, value());
                keep(T::create(d));
                keep(T(d, a.size()));
                feed_int(T::size_from_data_length(len));
            }
            else
            {
                Data d = a.data();
                d[0] = value();
                keep(T::create(d));
                keep(T(d));
                feed_int(T::size_from_data_length(len));
            }
            break;
        }
        case 15:
        {
            mark("list");
            const S v = value();
            static const int lengths[] = {1, 2, 3, 6, 10};
            const int which = r.below(5);
            if (VALID)
            {
                bool ok = false;
                for (int k = 0; k < 12; k++)
                    ok |= (Y::DYN || k == Y::SIZE) && Y::len(k) == lengths[which];
                if (!ok)
                    break;
            }
            switch (which)
            {
            case 0:
                keep(T{v});
                break;
            case 1:
                keep(T{v, v});
                break;
            case 2:
                keep(T{v, 1, 2});
                break;
            case 3:
                keep(T{v, 1, 2, 3, 4, 5});
                break;
            default:
                keep(T{v, 1, 2, 3, 4, 5, 6, 7, 8, 9});
                break;
            }
            break;
        }
        case 16:
        {
            mark("copies");
            T c = b;
            std::vector<T> v{c, a};
            v.push_back(v[0]);
            v.insert(v.begin(), v[1]);
            v.erase(v.begin() + 1);
            auto h = std::make_unique<T>(std::move(v[0]));
            v[0] = *h;
            std::swap(v[0], c);
            T &self = a;
            a = self;
            keep(*h), keep(c), keep(v.back());
            break;
        }
        case 17:
            mark("pad");
            if constexpr (Y::DYN)
            {
                const int m = n + r.below(4) - (r.chance(0.2) && !VALID ? 2 : 0);
                keep(r.chance(0.5) ? a.pad_left(m) : a.pad_right(m));
            }
            break;
        case 18:
            mark("resize");
            if constexpr (Y::DYN)
            {
                a.resize(r.chance(0.1) && !VALID ? -1 : size());
                look(a);
            }
            break;
        case 19:
            mark("assign");
            a = b;
            look(a);
            a = fresh();
            look(a);
            break;
        case 20:
            mark("zero");
            a.set_zero();
            look(a);
            break;
        case 21:
            mark("raw");
            for (auto &x : a.data())
                x = value();
            a.ptr()[a.data_length() - 1] = value();
            look(a);
            break;
#ifndef HV_NO_EIGEN
        case 22:
        {
            mark("eval");
            if constexpr (Y::DYN)
                feed(a.eval(std::vector<S>(VALID || r.chance(0.9) ? n : n + 1, value())));
            else
            {
                std::array<S, Y::SIZE> d;
                d.fill(value());
                feed(a.eval(d));
            }
            break;
        }
        case 23:
            mark("matrices");
            if constexpr (Y::ORDER == 2 && Y::SIZE != 0)
            {
                using M = typename T::Matrix;
                M m = a.hm(r.pick({"full", "zeros", "full", "zeros", VALID ? "full" : "none"}));
                for (Ix i = 0; i < m.size(); i++)
                    feed(m.data()[i]);
                m *= S(2);
                b.set_hm(m);
                look(b);
                a.hm("zeros", m);
                Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> big = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>::Constant(n + 3, n + 4, S(1));
                if constexpr (Y::DYN)
                    a.hm("full", big.block(1, 2, n, n));
                a.set_hm(big.block(1, 2, n, n));
                look(a);
            }
            break;
        case 24:
            mark("vectors");
            if constexpr (Y::SIZE != 0)
            {
                typename T::Vector v = a.ag();
                for (Ix i = 0; i < v.size(); i++)
                    feed(v(i));
                v *= S(2);
                if (b.size() == n)
                    b.ag() = v;
                look(b);
                const T &c = a;
                if (n)
                    feed(c.ag()(n - 1));
                typename T::DataVector d = a.adata();
                if (d.size())
                    d(0) = value();
                b.set_adata(d);
                look(b);
            }
            break;
        case 25:
            mark("from_arrays");
            if constexpr (Y::SIZE != 0)
            {
                const typename T::Vector g = a.ag();
                if constexpr (Y::ORDER == 1)
                    keep(T::from_gradient(value(), g));
                else
                {
                    const typename T::Matrix m = b.hm("full");
                    keep(T::from_arrays(value(), g, m));
                }
            }
            break;
#endif
        }
    }

    void run(int steps)
    {
        pool.clear();
        pool.reserve(8); // references to elements are held across push_back
        for (int i = 0; i < 4; i++)
            pool.push_back(fresh());
        for (int i = 0; i < steps; i++)
        {
            R.evals++;
            try
            {
                step();
            }
            catch (const std::exception &)
            {
                R.count("caught");
                if (VALID)
                    R.violation("threw/" + Y::name(), "a valid call threw: " + std::string(R.casebuf));
                g_digest = mix(g_digest + 1);
            }
            R.seen(g_digest);
        }
        for (auto &x : pool)
            look(x);
    }
};

template <class Y>
struct SSeq
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    std::vector<T> pool;
    Rng &r;
    explicit SSeq(Rng &rr) : r(rr) {}
    T &pick() { return pool[r.below(int(pool.size()))]; }
    S value()
    {
        const int k = r.below(20);
        if (k == 0)
            return std::numeric_limits<S>::quiet_NaN();
        if (k == 1)
            return std::numeric_limits<S>::infinity();
        if (k == 2)
            return 0;
        return S(r.U(-3, 3));
    }
    T fresh()
    {
        SJ q;
        return make_sparse<S>(value(), r, q);
    }
    void look(const T &x)
    {
        feed(x.f());
        feed_int(x.size());
        Ix c = 0;
        for (auto &n : name_pool())
        {
            const S d = x.d(n);
            feed(d);
            c += d != 0;
        }
        if (c > x.size())
            R.violation("malformed/" + Y::name(), "more partials than names");
        R.count("results_checked");
    }
    void keep(T x)
    {
        look(x);
        if (pool.size() < 6)
            pool.push_back(std::move(x));
        else
            pool[r.below(6)] = x;
    }
    void step()
    {
        const int op = r.below(14);
        T &a = pick(), &b = pick();
        auto mark = [&](const char *w)
        {
            R.step(w);
            R.count(std::string("op_sparse_") + w);
            g_digest = mix(g_digest + u64(op));
        };
        switch (op)
        {
        case 0:
        case 1:
        {
            mark("unary");
            const int u = r.below(U_COUNT);
            const double p = u == U_LOGB ? 3.0 : gen_exponent(r);
            keep(r.chance(0.5) && has_free(u) ? u_free(u, a, p) : u_member(u, a, p));
            break;
        }
        case 2:
        case 3:
            mark("binary");
            keep(b_op(r.below(B_COUNT), a, b, r.chance(0.5)));
            break;
        case 4:
            mark("ternary");
            keep(r.chance(0.5) ? hypot(a, b, pick()) : T::hypot(a, pick(), b));
            break;
        case 5:
            mark("scalar");
            keep(s_op(r.below(4), r.below(2), a, value()));
            break;
        case 6:
        case 7:
        {
            mark("compound");
            const int k = r.below(4);
            look(k == 0 ? a += b : k == 1 ? a -= b
                               : k == 2   ? a *= b
                                          : a /= b);
            break;
        }
        case 8:
        {
            mark("compound_scalar");
            const int k = r.below(4);
            S v = value();
            look(k == 0 ? a += v : k == 1 ? a -= v
                               : k == 2   ? a *= v
                                          : a /= v);
            break;
        }
        case 9:
            mark("negate");
            keep(-a);
            keep(r.chance(0.5) ? a.abs() : abs(a));
            break;
        case 10:
        {
            mark("compare");
            const S v = value();
            feed_int((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b));
            feed_int((a == v) + 2 * (v != b) + 4 * (a < v) + 8 * (v > b) + 16 * (a <= v) + 32 * (v >= b));
            break;
        }
        case 11:
        {
            mark("text");
            std::ostringstream o;
            o << a;
            bool any_nan = a.f() != a.f();
            for (auto &n : name_pool())
                any_nan |= a.d(n) != a.d(n);
            feed_int(any_nan ? 0 : Ix(o.str().size()));
            break;
        }
        case 12:
        {
            mark("factories");
            keep(T(value()));
            keep(T::constant(value()));
            keep(T::variable(name_pool()[r.below(int(name_pool().size()))], value()));
            keep(fresh());
            break;
        }
        case 13:
        {
            mark("copies_eval");
            T c = b;
            std::vector<T> v{c, a};
            v.push_back(v[0]);
            v.erase(v.begin());
            auto h = std::make_unique<T>(std::move(v[0]));
            T &self = a;
            a = self;
            keep(*h), keep(v[1]);
            std::unordered_map<std::string, S> d;
            for (auto &n : gen_names(r))
                d[n] = value();
            feed(a.eval(d));
            feed(c.eval(d));
            break;
        }
        }
    }
    void run(int steps)
    {
        pool.clear();
        pool.reserve(8); // references to elements are held across push_back
        for (int i = 0; i < 4; i++)
            pool.push_back(fresh());
        for (int i = 0; i < steps; i++)
        {
            R.evals++;
            try
            {
                step();
            }
            catch (const std::exception &)
            {
                R.count("caught");
            }
            R.seen(g_digest);
        }
    }
};

template <class Q_, class Y>
static void drive(Y)
{
    const int N = R.n(60);
    for (int k = 0; k < N; k++)
    {
        const std::string id = Y::name() + "/sequence/" + std::to_string(k);
        if (!R.begin(id))
            continue;
        g_digest = 1;
        Q_ s(R.rng);
        s.run(40 + R.rng.below(80));
        g_digests[id] = g_digest;
        if (k < 2)
            R.sample(id + fmt(" digest %016llx", (unsigned long long)g_digest));
    }
}
struct Dense
{
    template <class Y>
    void operator()(Y y) { drive<Seq<Y>>(y); }
};
struct Sparse
{
    template <class Y>
    void operator()(Y y)
    {
#ifdef HV_VALGRIND
        if (!std::is_same_v<typename Y::Scalar, long double>)
#endif
            drive<SSeq<Y>>(y);
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 80
    for_sparse(Sparse());
#else
    for_types(Dense());
#endif
    for (auto &d : g_digests)
        R.digests[d.first] = fmt("%016llx", (unsigned long long)d.second);
    return R.finish();
}
