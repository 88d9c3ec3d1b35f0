// C16: purity. Const operations on shared jets from several threads (under the
// thread sanitizer) and in different histories give bit for bit the same results.
#include "sparse.hpp"
#include <atomic>
#include <sstream>
#include <thread>
using namespace hv;

// results as bytes that can be compared; NaN sign and long double padding ignored
struct Bits
{
    std::vector<u64> v;
    template <class S>
    void add(S x)
    {
        if (x != x)
        {
            v.push_back(0x7ff8dead);
            return;
        }
        const double hi = double(x), lo = std::isfinite(hi) ? double(x - S(hi)) : 0.0;
        u64 a, b;
        std::memcpy(&a, &hi, 8), std::memcpy(&b, &lo, 8);
        v.push_back(a);
        if (std::is_same_v<S, long double>)
            v.push_back(b);
    }
    void add_int(Ix x) { v.push_back(u64(x)); }
    void add_str(const std::string &s) { v.push_back(hash_str(s)); }
    bool operator==(const Bits &o) const { return v == o.v; }
};

struct Op
{
    int kind, fn, a, b, c;
    double p;
    std::string text() const { return fmt("kind %d fn %d operands %d %d %d param %g", kind, fn, a, b, c, p); }
};
enum
{
    K_UNARY,
    K_UNARY2,
    K_BINARY,
    K_BINARY2,
    K_TERNARY,
    K_SCALAR,
    K_NEG,
    K_COMPARE,
    K_TEXT,
    K_EVAL,
    K_PARTS,
    K_PAD,
    K_FACTORY,
    K_THROW,
    K_COMPOUND,
    K_COUNT
};
static const char *const K_NAME[] = {"unary", "unary", "binary", "binary", "ternary", "scalar", "neg_abs", "compare", "text", "eval", "parts", "pad", "factory", "throwing", "compound"};

static Op gen_op(Rng &r, int pool)
{
    Op o;
    o.kind = r.below(K_COUNT);
    o.fn = o.kind <= K_UNARY2 ? r.below(U_COUNT) : r.below(B_COUNT);
    o.a = r.below(pool), o.b = r.below(pool), o.c = r.below(pool);
    o.p = gen_exponent(r);
    if (o.kind <= K_UNARY2 && o.fn == U_LOGB)
        o.p = gen_base<double>(r);
    return o;
}

template <class Y>
struct DenseLib
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    using Pool = std::vector<T>;
    static std::string name() { return Y::name(); }
    static Pool make(Rng &r)
    {
        Pool p;
        const int n = Y::size(r);
        // few values, so that different jets share them
        const S v[3] = {S(r.U(0.2, 0.9)), S(r.U(0.2, 0.9)), S(r.U(1.1, 3))};
        for (int i = 0; i < 6; i++)
            p.push_back(make_jet<Y>(n, v[r.below(3)], r));
        if constexpr (Y::DYN)
            p.push_back(make_jet<Y>(n + 1, v[0], r)); // mixing it with the others throws
        return p;
    }
    static void put(Bits &b, const T &x)
    {
        b.add_int(x.size());
        for (Ix i = 0; i < x.data_length(); i++)
            b.add(x.ptr()[i]);
    }
    static Bits state(const Pool &p)
    {
        Bits b;
        for (auto &x : p)
            put(b, x);
        return b;
    }
    // the same components in jets that nothing ever happened to
    static Pool rebuild(const Pool &p)
    {
        Pool q;
        for (auto &x : p)
        {
            const Ix len = x.data_length();
            typename T::Data d{};
            if constexpr (Y::DYN)
                d.resize(len);
            for (Ix i = 0; i < len; i++)
                d[i] = x.ptr()[i];
            q.push_back(T::create(d));
        }
        return q;
    }
    // to_string is not const
    static Bits own_text(Pool &p, const Op &o)
    {
        Bits b;
        b.add_str(p[o.a].to_string());
        return b;
    }
    static void touch(Pool &p, Rng &r) { (void)p[r.below(int(p.size()))].to_string(); }
    static std::string mutate(Pool &p, Rng &r)
    {
        const int m = int(p.size()) - (Y::DYN ? 1 : 0); // the last one has another size
        T &x = p[r.below(m)];
        const T &y = p[r.below(m)];
        const S v = S(r.U(0.2, 0.9));
        const int n = int(x.size());
        const int i = r.below(n), j = r.below(n);
        switch (r.below(22))
        {
        case 0: x += y; return "+= jet";
        case 1: x -= y; return "-= jet";
        case 2: x *= y; return "*= jet";
        case 3: x /= y; return "/= jet";
        case 4: x += v; return "+= number";
        case 5: x -= v; return "-= number";
        case 6: x *= v; return "*= number";
        case 7: x /= v; return "/= number";
        case 8: x.set_f(v); return "set_f";
        case 9: x.f() = v; return "f()";
        case 10: if (n) x.set_g(i, v); return "set_g";
        case 11: if (n) x.g(i) = v; return "g()";
        case 12: x.ptr()[x.data_length() - 1] = v; return "ptr()";
        case 13: x.data()[x.data_length() - 1] = v; return "data()";
        case 14: if constexpr (Y::ORDER == 2) if (n) x.set_h(i, j, v); return "set_h";
        case 15: if constexpr (Y::ORDER == 2) if (n) x.h(i, j) = v; return "h()";
        case 16: if (n) x.ag()(i) = v; return "ag()";
        case 17: x.adata()(x.data_length() - 1) = v; return "adata()";
        case 18:
            if constexpr (Y::ORDER == 2)
            {
                typename T::Matrix a(n, n);
                a.setConstant(v);
                x.set_hm(a);
            }
            return "set_hm";
        case 19: if (r.chance(0.3)) x.set_zero(), x.set_f(v); return "set_zero";
        case 20: x = y; return "assignment";
        default:
        {
            T z = y;
            std::swap(x, z);
            return "swap";
        }
        }
    }
    static Bits eval(const Pool &p, const Op &o)
    {
        Bits b;
        const T &x = p[o.a], &y = p[o.b], &z = p[o.c];
        try
        {
            switch (o.kind)
            {
            case K_UNARY:
                put(b, u_member(o.fn, x, o.p));
                break;
            case K_UNARY2:
                put(b, has_free(o.fn) ? u_free(o.fn, x, o.p) : u_member(o.fn, x, o.p));
                break;
            case K_BINARY:
            case K_BINARY2:
                put(b, b_op(o.fn, x, y, o.kind == K_BINARY));
                break;
            case K_TERNARY:
                put(b, o.fn % 2 ? hypot(x, y, z) : T::hypot(x, y, z));
                break;
            case K_SCALAR:
                put(b, s_op(o.fn % 4, o.b % 2, x, S(o.p)));
                break;
            case K_NEG:
                put(b, -x);
                put(b, x.abs());
                put(b, abs(-x));
                break;
            case K_COMPARE:
                b.add_int((x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x > y) + 16 * (x <= y) + 32 * (x >= y));
                b.add_int((x == S(o.p)) + 4 * (x < S(o.p)) + 8 * (S(o.p) > y));
                break;
            case K_TEXT:
            {
                std::ostringstream s;
                s << x;
                b.add_str(s.str());
                T own = x; // to_string is not const
                b.add_str(own.to_string());
                b.add_str(own.to_string());
                break;
            }
            case K_EVAL:
                if constexpr (Y::DYN)
                    b.add(x.eval(std::vector<S>(p[0].size(), S(o.p))));
                else
                {
                    std::array<S, Y::SIZE> d;
                    d.fill(S(o.p));
                    b.add(x.eval(d));
                }
                break;
            case K_PARTS:
                b.add(x.f());
                for (Ix i = 0; i < x.size(); i++)
                    b.add(x.g(i));
                if constexpr (Y::SIZE != 0)
                {
                    for (Ix i = 0; i < x.size(); i++)
                        b.add(x.ag()(i));
                    if constexpr (Y::ORDER == 2)
                    {
                        const auto m = x.hm(o.fn % 2 ? "full" : "zeros");
                        for (Ix i = 0; i < m.size(); i++)
                            b.add(m.data()[i]);
                        for (Ix i = 0; i < x.size(); i++)
                            b.add(x.h(i, x.size() - 1));
                        if (o.fn == 0)
                            (void)x.hm("other");
                    }
                }
                break;
            case K_PAD:
                if constexpr (Y::DYN)
                {
                    put(b, x.pad_left(x.size() + o.b));
                    put(b, x.pad_right(x.size() + o.b));
                }
                break;
            case K_FACTORY:
            {
                put(b, T::constant(S(o.p), x.size()));
                put(b, T::create(x.data()));
                put(b, T::zero(x.size()));
                put(b, T::variable(o.fn, S(o.p), x.size())); // throws for too small sizes
                break;
            }
            case K_THROW:
                if constexpr (Y::DYN)
                {
                    if (o.fn % 2)
                        put(b, p[0] * p.back());
                    else
                        put(b, x.pad_left(-1));
                }
                else
                    put(b, T::zero(Y::SIZE + 1));
                break;
            case K_COMPOUND:
            {
                T t = x;
                t *= y, t += z, t -= S(o.p), t /= y, t *= t;
                put(b, t);
                break;
            }
            }
        }
        catch (const std::exception &e)
        {
            b.add_str(e.what());
            b.add_int(-1);
        }
        return b;
    }
};

template <class Y>
struct SparseLib
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    using Pool = std::vector<T>;
    static std::string name() { return Y::name(); }
    static const std::vector<std::string> &names()
    {
        static const std::vector<std::string> v{"x", "y", "z", "xx", "x1", "a_rather_long_variable_name_beyond_small_string_optimisation", "w"};
        return v;
    }
    static Pool make(Rng &r)
    {
        Pool p;
        const S v[3] = {S(r.U(0.2, 0.9)), S(r.U(0.2, 0.9)), S(r.U(1.1, 3))};
        for (int i = 0; i < 6; i++)
        {
            SJ q;
            std::vector<std::string> ns;
            for (auto &n : names())
                if (r.chance(0.5))
                    ns.push_back(n);
            p.push_back(make_sparse<S>(v[r.below(3)], r, q, &ns));
        }
        return p;
    }
    static void put(Bits &b, const T &x)
    {
        b.add_int(x.size());
        b.add(x.f());
        for (auto &n : names())
            b.add(x.d(n));
    }
    static Bits state(const Pool &p)
    {
        Bits b;
        for (auto &x : p)
            put(b, x);
        return b;
    }
    static Pool rebuild(const Pool &p)
    {
        Pool q;
        for (auto &x : p)
        {
            typename T::Data d;
            const std::string t = text(x);
            for (auto &n : names())
                if (t.find("*d" + n + " ") != t.npos)
                    d[n] = x.d(n);
            q.push_back(T(x.f(), d));
        }
        return q;
    }
    // the terms in an order of their own, with a space after each
    static std::string text(const T &x)
    {
        std::ostringstream o;
        o << x;
        return sorted(o.str());
    }
    static std::string sorted(const std::string &t)
    {
        std::istringstream s(t);
        std::multiset<std::string> w;
        for (std::string u; s >> u;)
            w.insert(u);
        std::string q;
        for (auto &u : w)
            q += u + " ";
        return q;
    }
    static Bits own_text(Pool &p, const Op &o)
    {
        Bits b;
        b.add_str(sorted(p[o.a].to_string()));
        return b;
    }
    static void touch(Pool &p, Rng &r)
    {
        for (int i = 0; i < 3; i++)
            (void)p[r.below(int(p.size()))].to_string();
    }
    static std::string mutate(Pool &p, Rng &r)
    {
        T &x = p[r.below(int(p.size()))];
        const T &y = p[r.below(int(p.size()))];
        const S v = S(r.U(0.2, 0.9));
        switch (r.below(10))
        {
        case 0: x += y; return "+= jet";
        case 1: x -= y; return "-= jet";
        case 2: x *= y; return "*= jet";
        case 3: x /= y; return "/= jet";
        case 4: x += v; return "+= number";
        case 5: x -= v; return "-= number";
        case 6: x *= v; return "*= number";
        case 7: x /= v; return "/= number";
        case 8: x = y; return "assignment";
        default:
        {
            T z = y;
            std::swap(x, z);
            return "swap";
        }
        }
    }
    static Bits eval(const Pool &p, const Op &o)
    {
        Bits b;
        const T &x = p[o.a], &y = p[o.b], &z = p[o.c];
        switch (o.kind)
        {
        case K_UNARY:
            put(b, u_member(o.fn, x, o.p));
            break;
        case K_UNARY2:
            put(b, has_free(o.fn) ? u_free(o.fn, x, o.p) : u_member(o.fn, x, o.p));
            break;
        case K_BINARY:
        case K_BINARY2:
            put(b, b_op(o.fn, x, y, o.kind == K_BINARY));
            break;
        case K_TERNARY:
            put(b, o.fn % 2 ? hypot(x, y, z) : T::hypot(x, y, z));
            break;
        case K_SCALAR:
            put(b, s_op(o.fn % 4, o.b % 2, x, S(o.p)));
            break;
        case K_NEG:
            put(b, -x);
            put(b, x.abs());
            put(b, abs(-x));
            break;
        case K_COMPARE:
            b.add_int((x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x > y) + 16 * (x <= y) + 32 * (x >= y));
            break;
        case K_TEXT:
        {
            b.add_str(text(x));
            T own = x;
            b.add_str(sorted(own.to_string()));
            b.add_str(sorted(own.to_string()));
            break;
        }
        case K_EVAL:
            b.add(x.eval({{"x", S(o.p)}, {"w", S(2)}, {"q", S(3)}}));
            break;
        case K_PARTS:
            put(b, x);
            b.add(x.d("not there"));
            break;
        case K_FACTORY:
            put(b, T::constant(S(o.p)));
            put(b, T::variable(names()[o.fn], S(o.p)));
            break;
        case K_COMPOUND:
        {
            T t = x;
            t *= y, t += z, t -= S(o.p), t /= y, t *= t;
            put(b, t);
            break;
        }
        default:
            break;
        }
        return b;
    }
};

template <class L>
static void drive()
{
    const std::string tn = L::name();
    for (int k = 0; k < R.n(20); k++)
    {
        if (!R.begin(tn + "/purity/" + std::to_string(k)))
            continue;
        Rng &r = R.rng;
        const typename L::Pool pool = L::make(r);
        const Bits before = L::state(pool);
        std::vector<Op> ops;
        for (int i = 0; i < 60; i++)
            ops.push_back(gen_op(r, int(pool.size())));
        // the single-threaded evaluation, before or after the threads: whatever is
        // set up by the first use of an operation must not race either
        std::vector<Bits> ref;
        auto reference = [&]
        {
            for (auto &o : ops)
            {
                R.step(o.text());
                ref.push_back(L::eval(pool, o));
                R.count(std::string("op_") + K_NAME[o.kind]);
                if (!ref.back().v.empty() && ref.back().v.back() == ~0ull)
                    R.count("threw");
                R.seen(hash_bytes(ref.back().v.data(), ref.back().v.size() * 8, hash_str(o.text())));
            }
        };
        const bool threads_first = k % 2 == 0;
        if (!threads_first)
            reference();
        auto wrong = [&](const char *what, const Op &o)
        { R.violation(std::string(what) + "/" + K_NAME[o.kind] + "/" + tn, std::string("the result of ") + o.text() + " differs from the first evaluation"); };

        // threads sharing the operands
        const int NT = 6;
        std::atomic<int> ready{0};
        std::vector<std::vector<std::pair<int, Bits>>> got(NT);
        std::vector<std::thread> th;
        R.step("threads");
        for (int t = 0; t < NT; t++)
        {
            const u64 s = r.next();
            th.emplace_back([&, s, t]
                            {
                Rng q;
                q.s = s;
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < NT)
                    std::this_thread::yield();
                for (int i = 0; i < 60; i++)
                {
                    // half of the time all threads walk through the same sequence
                    const int j = i % 2 ? i : q.below(int(ops.size()));
                    got[t].emplace_back(j, L::eval(pool, ops[j]));
                    if (q.below(8) == 0)
                        std::this_thread::yield();
                } });
        }
        for (auto &t : th)
            t.join();
        R.count("threads", NT);
        if (threads_first)
            reference();
        for (auto &g : got)
            for (auto &e : g)
            {
                R.evals++;
                R.count("threaded_evaluations");
                if (!(e.second == ref[e.first]))
                    wrong("threads", ops[e.first]);
            }

        // other histories: shuffled, repeated, with other jets and failing calls in between
        const typename L::Pool other = L::make(r);
        for (int h = 0; h < 3; h++)
            for (int i = 0; i < 80; i++)
            {
                const int j = r.below(int(ops.size()));
                if (r.chance(0.3))
                    (void)L::eval(other, gen_op(r, int(other.size())));
                R.step("history " + ops[j].text());
                R.evals++;
                R.count("repeated");
                if (!(L::eval(pool, ops[j]) == ref[j]))
                    wrong("history", ops[j]);
            }

        // jets that change after they were used: what they do depends on what they hold now
        typename L::Pool changing = pool;
        for (int h = 0; h < 8; h++)
        {
            for (int i = 0; i < 4; i++)
                (void)L::eval(changing, gen_op(r, int(pool.size())));
            L::touch(changing, r);
            const std::string how = L::mutate(changing, r);
            typename L::Pool fresh = L::rebuild(changing);
            for (int i = 0; i < 6; i++)
            {
                const Op o = gen_op(r, int(pool.size()));
                R.step("changed by " + how + " " + o.text());
                R.evals++;
                R.count("after_change");
                const bool own = r.chance(0.3);
                if (own ? !(L::own_text(changing, o) == L::own_text(fresh, o)) : !(L::eval(changing, o) == L::eval(fresh, o)))
                    R.violation(std::string("changed/") + (own ? "text" : K_NAME[o.kind]) + "/" + tn, "after " + how + " the result of " + o.text() + " is not that of equal jets");
            }
        }

        const Bits after = L::state(pool);
        if (!(after == before))
            R.violation("operand/" + tn, "a const operand changed");
        if (k < 2)
            R.sample(tn + " operands " + std::to_string(pool.size()) + " " + ops[0].text() + "; " + ops[1].text());
    }
}
struct Dense
{
    template <class Y>
    void operator()(Y) { drive<DenseLib<Y>>(); }
};
struct Sparse
{
    template <class Y>
    void operator()(Y) { drive<SparseLib<Y>>(); }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 80
    for_sparse(Sparse());
#else
    for_types(Dense());
#endif
    return R.finish();
}
