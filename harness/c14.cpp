// C14: comparisons look at values only; abs keeps value and derivatives together.
#include "sparse.hpp"
using namespace hv;

enum
{
    EQ,
    NE,
    LT,
    GT,
    LE,
    GE
};
static const char *const C_NAME[] = {"==", "!=", "<", ">", "<=", ">="};
template <class A, class B>
static bool cmp(int op, const A &a, const B &b)
{
    switch (op)
    {
    case EQ:
        return a == b;
    case NE:
        return a != b;
    case LT:
        return a < b;
    case GT:
        return a > b;
    case LE:
        return a <= b;
    default:
        return a >= b;
    }
}

template <class S>
static S special(Rng &r)
{
    using L = std::numeric_limits<S>;
    const S v[] = {0, -S(0), 1, -1, L::infinity(), -L::infinity(), L::quiet_NaN(), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), S(1) + L::epsilon(), S(1) - L::epsilon(), S(0.5), 2, -3};
    return r.chance(0.5) ? v[r.below(int(sizeof v / sizeof *v))] : S(r.U(-2, 2));
}
template <class S>
static void pair(Rng &r, S &x, S &y)
{
    x = special<S>(r), y = special<S>(r);
    const int k = r.below(6);
    if (k == 0)
        y = x;
    if (k == 1)
        y = std::nextafter(x, std::numeric_limits<S>::infinity());
    if (k == 2)
        y = std::nextafter(x, -std::numeric_limits<S>::infinity());
    if (k == 3)
        y = -x;
}

template <class S, class T, class Show>
static void compare(const std::string &tn, const T &a, const T &b, S x, S y, Show show)
{
    R.count(x != x || y != y ? "nan_pairs" : x == y ? "equal_pairs"
                                         : x < y    ? "less_pairs"
                                                    : "greater_pairs");
    for (int op = 0; op < 6; op++)
    {
        static_assert(std::is_same_v<decltype(a == b), bool> && std::is_same_v<decltype(a < y), bool> && std::is_same_v<decltype(x >= b), bool>);
        const bool e = cmp(op, x, y);
        const bool got[3] = {cmp(op, a, b), cmp(op, a, y), cmp(op, x, b)};
        const bool self = cmp(op, a, a), eself = cmp(op, x, x);
        static const char *const form[] = {"jet_jet", "jet_scalar", "scalar_jet"};
        for (int f = 0; f < 3; f++)
        {
            R.evals++;
            R.count(std::string(form[f]) + C_NAME[op]);
            if (got[f] != e)
                R.violation(std::string("compare/") + form[f] + C_NAME[op] + "/" + tn, ss(x) + " " + C_NAME[op] + " " + ss(y) + (got[f] ? " is true" : " is false") + "\n  " + show());
        }
        if (self != eself)
            R.violation(std::string("compare/self") + C_NAME[op] + "/" + tn, ss(x) + " " + C_NAME[op] + " itself");
    }
}

struct Dense
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        for (int k = 0; k < R.n(Y::DYN ? 2500 : 800); k++)
        {
            if (!R.begin(tn + "/compare/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            S x, y;
            pair(r, x, y);
            const T a = make_jet<Y>(n, x, r);
            T b = make_jet<Y>(n, y, r);
            if (r.chance(0.3)) // equal derivatives, or wild ones
                b = a, b.ptr()[0] = y;
            else if (r.chance(0.3))
                for (Ix i = 1; i < b.data_length(); i++)
                    b.ptr()[i] = special<S>(r);
            const T ka = a, kb = b;
            R.seen(jet_hash<Y>(b, jet_hash<Y>(a, hash_str(tn))));
            compare<S>(tn, a, b, x, y, [&]
                       { return "a " + show<Y>(a) + "\n  b " + show<Y>(b); });
            if (!same_jet<Y>(a, ka) || !same_jet<Y>(b, kb))
                R.violation("operand/" + tn, "a comparison changed an operand");
            if (n == 1)
                R.sample(tn + " " + ss(x) + " with " + ss(y));
            // plain int literals
            R.evals++;
            if ((a == 1) != (x == 1) || (a < 0) != (x < 0) || (2 > a) != (2 > x) || (-1 <= a) != (-1 <= x))
                R.violation("compare/int/" + tn, show<Y>(a));
        }
        for (int k = 0; k < R.n(Y::DYN ? 2500 : 800); k++)
        {
            if (!R.begin(tn + "/abs/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            S x = special<S>(r);
            if (r.chance(0.05))
                x = S(0) * S(r.sgn());
            if (x != x)
                x = -S(r.logU(1e-30, 1e30));
            const T a = make_jet<Y>(n, x, r), ka = a;
            T e = a;
            if (x < 0)
                for (Ix i = 0; i < e.data_length(); i++)
                    e.ptr()[i] = -e.ptr()[i];
            R.seen(jet_hash<Y>(a, hash_str(tn + "abs")));
            R.count(x < 0 ? "abs_negative" : x > 0 ? "abs_positive" : "abs_zero");
            auto check = [&](const T &got, const char *what)
            {
                R.evals++;
                bool ok = got.size() == n && got.data_length() == e.data_length();
                const auto is = [&](const S sign)
                {
                    for (Ix i = 0; i < e.data_length(); i++)
                        if (!(got.ptr()[i] == sign * e.ptr()[i]))
                            return false;
                    return true;
                };
                ok = ok && (is(1) || (x == 0 && is(-1))); // at zero one of the two branches, whole
                if (!ok)
                    R.violation(std::string("abs/") + what + "/" + tn, "of " + show<Y>(a) + "\n  is " + show<Y>(got));
            };
            check(a.abs(), "member");
            check(abs(a), "free");
            if (!same_jet<Y>(a, ka))
                R.violation("operand/" + tn, "abs changed its operand");
        }
        // ordering algorithms
        for (int k = 0; k < R.n(60); k++)
        {
            if (!R.begin(tn + "/sort/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r), m = 1 + r.below(20);
            std::vector<T> v;
            std::vector<S> w;
            for (int i = 0; i < m; i++)
            {
                w.push_back(S(r.below(9) - 4));
                v.push_back(make_jet<Y>(n, w.back(), r));
            }
            std::sort(v.begin(), v.end(), [](const T &a, const T &b)
                      { return a < b; });
            std::sort(w.begin(), w.end());
            R.evals++;
            R.count("sorted");
            for (int i = 0; i < m; i++)
                if (v[i].f() != w[i])
                    R.violation("sort/" + tn, fmt("element %d", i));
            if (std::max(v[0], v[m - 1]).f() != w[m - 1] || std::min(v[0], v[m - 1]).f() != w[0])
                R.violation("minmax/" + tn, "");
        }
    }
};

struct Sparse
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        for (int k = 0; k < R.n(3000); k++)
        {
            if (!R.begin(tn + "/compare/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            S x, y;
            pair(r, x, y);
            SJ qa, qb;
            const T a = make_sparse<S>(x, r, qa), b = make_sparse<S>(y, r, qb);
            R.seen(sj_hash(qb, sj_hash(qa, hash_str(tn))));
            compare<S>(tn, a, b, x, y, [&]
                       { return "a " + shows(a, qa) + "\n  b " + shows(b, qb); });
            R.count("sparse_compared");
            if (x != x)
                continue;
            const S sg = x < 0 ? -1 : 1;
            for (int f = 0; f < 2; f++)
            {
                const T c = f ? abs(a) : a.abs();
                R.evals++;
                R.count(x == 0 ? "sparse_abs_zero" : "sparse_abs");
                bool ok = c.f() == sg * x && c.size() == Ix(qa.d.size());
                const auto is = [&](const S sign)
                {
                    for (auto &d : qa.d)
                        if (!(c.d(d.first) == sign * a.d(d.first)))
                            return false;
                    return true;
                };
                ok = ok && (is(sg) || (x == 0 && is(-sg)));
                if (!ok)
                    R.violation("abs/" + std::string(f ? "free/" : "member/") + tn, "of " + shows(a, qa) + "\n  is " + shows(c, qa));
            }
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 80
    for_sparse(Sparse());
#else
    for_types(Dense());
#endif
    return R.finish();
}
