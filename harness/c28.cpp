// C28: the value of a result is what plain arithmetic gives for the values, for
// all values (also where there is no derivative) and whatever the derivatives are.
#include "sparse.hpp"
#include <functional>
using namespace hv;

template <class S>
using L = std::numeric_limits<S>;

template <class S>
static S special(Rng &r)
{
    const S v[] = {0, -S(0), 1, -1, L<S>::infinity(), -L<S>::infinity(), L<S>::quiet_NaN(), L<S>::min(), -L<S>::min(), L<S>::denorm_min(), -L<S>::denorm_min(), L<S>::max(), L<S>::lowest(),
                   S(1) + L<S>::epsilon(), S(1) - L<S>::epsilon(), -S(1) - L<S>::epsilon(), S(0.5), 2, -3, S(1e4), S(-1e4), S(710), S(-745), S(89), S(3.14159265358979323846L), S(1.57079632679489661923L), 10, 8, 27, -8};
    return v[r.below(int(sizeof v / sizeof *v))];
}
template <class S>
static S value(Rng &r)
{
    switch (r.below(6))
    {
    case 0:
    case 1:
        return special<S>(r);
    case 2:
        return S(r.U(-1.5, 1.5));
    case 3:
        return S(r.U(-20, 20));
    case 4:
        return S(r.below(41) - 20);
    default:
        return S(r.sgn()) * gen_wide<S>(r, L<S>::min(), L<S>::max());
    }
}

// equal up to rounding, of the same kind (NaN, infinity with sign, finite)
template <class S>
static bool agrees(S got, S e)
{
    if (e != e)
        return got != got;
    if (got == e)
        return true;
    const S lim = L<S>::max() / 8;
    if (std::isinf(e) || std::isinf(got))
        return got == got && std::fabs(e) > lim && std::fabs(got) > lim && (e > 0) == (got > 0);
    return std::fabs(got - e) <= 1024 * L<S>::epsilon() * std::fabs(e) + 1024 * L<S>::denorm_min();
}

// a single rounding: nothing else is right
template <class S>
static bool same_value(S got, S e)
{
    return e != e ? got != got : got == e;
}

template <class S>
static bool regular_divisor(S b)
{
    return b != b || b == 0 || std::isinf(b) || (std::fabs(b) > 8 / L<S>::max() && std::fabs(b) < 1 / (8 * L<S>::min()));
}

template <class S, class T>
struct Ops
{
    struct Un
    {
        const char *name;
        std::function<T(const T &)> jet, member;
        std::function<S(S)> plain;
    };
    std::vector<Un> un;
    Ops()
    {
#define U1(fn) un.push_back({#fn, [](const T &x) { using std::fn; return fn(x); }, [](const T &x) { return x.fn(); }, [](S x) { return std::fn(x); }});
        U1(sqrt) U1(cbrt) U1(cos) U1(sin) U1(tan) U1(acos) U1(asin) U1(atan) U1(cosh) U1(sinh) U1(tanh) U1(acosh) U1(asinh) U1(atanh) U1(exp) U1(log) U1(log2) U1(log10)
#undef U1
        un.push_back({"reciprocal", [](const T &x) { return x.reciprocal(); }, [](const T &x) { return T(x).reciprocal(); }, [](S x) { return S(1) / x; }});
        un.push_back({"neg", [](const T &x) { return -x; }, [](const T &x) { return -T(x); }, [](S x) { return -x; }});
        un.push_back({"abs", [](const T &x) { using std::abs; return abs(x); }, [](const T &x) { return x.abs(); }, [](S x) { return std::fabs(x); }});
    }
};

template <class S, class T, class Make>
static void go(const std::string &tn, int N, Make make)
{
    static const Ops<S, T> ops;
    for (int k = 0; k < N; k++)
    {
        if (!R.begin(tn + "/value/" + std::to_string(k)))
            continue;
        Rng &r = R.rng;
        const S x = value<S>(r);
        S y = value<S>(r);
        S z = value<S>(r);
        if (r.chance(0.15))
            y = x;
        if (r.chance(0.1))
            z = y;
        std::vector<T> j;
        make(j, x, y, z);
        const T &a = j[0], &b = j[1], &c = j[2];
        auto one = [&](const std::string &op, const std::function<T()> &f, S e)
        {
            R.evals++;
            R.count("op_" + op);
            R.count(e != e ? "nan_results" : std::isinf(e) ? "infinite_results"
                                                           : "finite_results");
            try
            {
                const T t = f();
                const bool single = op == "add" || op == "sub" || op == "mul" || op == "iadd" || op == "isub" || op == "imul" || op == "neg" || op == "abs" || op == "square";
                if (single)
                    R.count("correctly_rounded");
                if (!(single ? same_value<S>(t.f(), e) : agrees<S>(t.f(), e)))
                    R.violation(op + "/" + tn, "values " + ss(x) + ", " + ss(y) + ", " + ss(z) + ": " + op + " has the value " + ss(t.f()) + ", plain " + ss(e));
            }
            catch (const std::exception &ex)
            {
                R.violation(op + "_threw/" + tn, "values " + ss(x) + ", " + ss(y) + ", " + ss(z) + ": threw " + ex.what());
            }
        };
        const auto &u = ops.un[r.below(int(ops.un.size()))];
        one(u.name, [&] { return u.jet(a); }, u.plain(x));
        one(u.name, [&] { return u.member(a); }, u.plain(x));
        one("add", [&] { return a + b; }, x + y);
        one("sub", [&] { return a - b; }, x - y);
        one("mul", [&] { return a * b; }, x * y);
        one("add", [&] { return a + y; }, x + y);
        one("sub", [&] { return a - y; }, x - y);
        one("mul", [&] { return a * y; }, x * y);
        one("add", [&] { return x + b; }, x + y);
        one("sub", [&] { return x - b; }, x - y);
        one("mul", [&] { return x * b; }, x * y);
        one("iadd", [&] { T t = a; t += b; return t; }, x + y);
        one("isub", [&] { T t = a; t -= b; return t; }, x - y);
        one("imul", [&] { T t = a; t *= b; return t; }, x * y);
        one("iadd", [&] { T t = a; t += y; return t; }, x + y);
        one("isub", [&] { T t = a; t -= y; return t; }, x - y);
        one("imul", [&] { T t = a; t *= y; return t; }, x * y);
        if (regular_divisor(y))
        {
            one("div", [&] { return a / b; }, x / y);
            one("div", [&] { return a / y; }, x / y);
            one("div", [&] { return x / b; }, x / y);
            one("idiv", [&] { T t = a; t /= b; return t; }, x / y);
            one("idiv", [&] { T t = a; t /= y; return t; }, x / y);
        }
        one("square", [&] { T t = a; t *= t; return t; }, x * x);
        if (regular_divisor(x))
            one("ratio", [&] { T t = a; t /= t; return t; }, x / x);
        one("doubled", [&] { T t = a; t += t; return t; }, x + x);
        one("difference", [&] { T t = a; t -= t; return t; }, x - x);
        one("atan2", [&] { using std::atan2; return atan2(a, b); }, std::atan2(x, y));
        one("atan2", [&] { return a.atan2(b); }, std::atan2(x, y));
        one("hypot", [&] { using std::hypot; return hypot(a, b); }, std::hypot(x, y));
        // std::hypot of three values is only as good as the standard library's
        const S big = std::sqrt(L<S>::max()) / 8, small = std::sqrt(L<S>::min()) * 8;
        auto mild = [&](S v) { return v == 0 || (std::fabs(v) < big && std::fabs(v) > small); };
        if (mild(x) && mild(y) && mild(z))
            one("hypot3", [&] { using std::hypot; return hypot(a, b, c); }, std::hypot(x, y, z));
        const S p = r.pick({S(0), S(1), S(2), S(3), S(-1), S(-2), S(0.5), S(-0.5), S(1.5), S(4), S(7), S(0.25), L<S>::infinity(), -L<S>::infinity(), L<S>::quiet_NaN()});
        one("pow", [&] { return a.pow(p); }, std::pow(x, p));
        const int ip = r.below(12) - 4;
        one("pow_index", [&] { using std::pow; return pow(a, hyperjet::index(ip)); }, S(std::pow((long double)x, (long double)ip)));
        const S base = r.pick({S(2), S(10), S(0.5), S(3), S(1.25)});
        one("log_base", [&] { return a.log(base); }, std::log(x) / std::log(base));
        // results that are exact
        auto exact = [&](const std::string &op, S v, S w, const std::function<T(const T &, const T &)> &f, S plain, S e)
        {
            if (plain != e)
                return; // not even with plain numbers
            std::vector<T> q;
            make(q, v, w, v);
            R.evals++;
            R.count("exact_" + op);
            const T t = f(q[0], q[1]);
            if (t.f() != e)
                R.violation("exact_" + op + "/" + tn, "values " + ss(v) + ", " + ss(w) + ": " + op + " has the value " + ss(t.f()) + ", exactly " + ss(e));
        };
        {
            const int e2 = r.below(100) - 50, e10 = r.below(11), m = r.below(1000);
            const S p2 = std::ldexp(S(1), e2), p10 = S(std::pow(10.0L, (long double)e10));
            exact("log2", p2, 1, [](const T &x, const T &) { return x.log2(); }, std::log2(p2), S(e2));
            exact("log10", p10, 1, [](const T &x, const T &) { return x.log10(); }, std::log10(p10), S(e10));
            exact("sqrt", S(m * m), 1, [](const T &x, const T &) { return x.sqrt(); }, std::sqrt(S(m * m)), S(m));
            exact("hypot", S(3 * m), S(-4 * m), [](const T &x, const T &y) { using std::hypot; return hypot(x, y); }, std::hypot(S(3 * m), S(4 * m)), S(5 * m));
        }
        u64 h = hash_str(tn);
        for (S v : {x, y, z})
        {
            const double w = double(v);
            h = hash_bytes(&w, sizeof w, h);
        }
        R.seen(h);
        if (k < 3)
            R.sample(tn + " values " + ss(x) + ", " + ss(y) + ", " + ss(z));
    }
}

struct Dense
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        go<S, T>(Y::name(), R.n(Y::DYN ? 4000 : 1500), [](std::vector<T> &v, S x, S y, S z)
                 {
                     Rng &r = R.rng;
                     const int n = Y::size(r);
                     for (S s : {x, y, z})
                     {
                         T t = make_jet<Y>(n, s, r);
                         const int style = r.below(4);
                         for (Ix i = 1; i < t.data_length(); i++)
                             if (style == 0 ? r.chance(0.3) : style == 1)
                                 t.ptr()[i] = value<S>(r);
                         v.push_back(t);
                     }
                 });
    }
};
struct SpTest
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        go<S, T>(Y::name(), R.n(4000), [](std::vector<T> &v, S x, S y, S z)
                 {
                     Rng &r = R.rng;
                     for (S s : {x, y, z})
                     {
                         SJ q;
                         T t = make_sparse<S>(s, r, q);
                         if (r.chance(0.3) && q.d.size())
                         {
                             typename T::Data d;
                             for (auto &e : q.d)
                                 d[e.first] = value<S>(r);
                             t = T(s, d);
                         }
                         v.push_back(t);
                     }
                 });
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 80
    for_sparse(SpTest());
#else
    for_types(Dense());
#endif
    return R.finish();
}
