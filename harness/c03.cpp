// C03: compound assignment against the binary operation in quad precision, under every aliasing.
#include "common.hpp"
#include "sparse.hpp"
using namespace hv;

// what the expression refers to: x itself, or something else
template <class T, class F>
T &referred(T &x, F f)
{
    using Q = decltype(f());
    static T other;
    if constexpr (std::is_void_v<Q>)
    {
        f();
        return other;
    }
    else if constexpr (std::is_lvalue_reference_v<Q>)
        return f();
    else
    {
        other = f();
        return other;
    }
}
template <class T, class V>
T &compound(int op, T &x, V &&y)
{
    switch (op)
    {
    case B_ADD:
        return referred(x, [&]() -> decltype(auto) { return x += y; });
    case B_SUB:
        return referred(x, [&]() -> decltype(auto) { return x -= y; });
    case B_MUL:
        return referred(x, [&]() -> decltype(auto) { return x *= y; });
    default:
        return referred(x, [&]() -> decltype(auto) { return x /= y; });
    }
}

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        const int N = R.n(Y::DYN ? 1500 : 600);
        enum
        {
            JET,
            SELF,
            SCALAR,
            OWN,
            KINDS
        };
        const char *kn[] = {"jet", "self", "scalar", "own_component"};
        for (int op = 0; op <= B_DIV; op++)
            for (int kind = 0; kind < KINDS; kind++)
                for (int k = 0; k < N / (kind == JET ? 1 : 2); k++)
                {
                    if (!R.begin(tn + "/" + B_NAME[op] + "_" + kn[kind] + "/" + std::to_string(k)))
                        continue;
                    Rng &r = R.rng;
                    const int n = Y::size(r);
                    S fx, fy;
                    gen_point2<S>(op, fx, fy, r);
                    if (op == B_DIV && fx == 0 && kind != JET && kind != SCALAR)
                        fx = 2;
                    T x = make_jet<Y>(n, fx, r);
                    T y = make_jet<Y>(n, fy, r);
                    const T x0 = x, y0 = y;
                    const QJ qx = to_q<Y>(x, n), qy = to_q<Y>(y, n);
                    QJ s(n);
                    QJ e(0);
                    T *ret = nullptr;
                    std::string what;
                    if (kind == JET)
                    {
                        e = chaink({&qx, &qy}, psi(op, qx.f, qy.f));
                        ret = &compound(op, x, static_cast<const T &>(y));
                    }
                    else if (kind == SELF)
                    {
                        e = chaink({&qx, &qx}, psi(op, qx.f, qx.f));
                        ret = &compound(op, x, static_cast<const T &>(x));
                    }
                    else if (kind == SCALAR)
                    {
                        s.f = fy;
                        e = chaink({&qx, &s}, psi(op, qx.f, s.f));
                        const S v = fy;
                        ret = &compound(op, x, v);
                    }
                    else
                    {
                        // a component of x itself, by reference
                        const int c = r.chance(0.3) ? 0 : r.below(int(Y::len(n)));
                        S &ref = c == 0 ? x.f() : c <= n ? x.g(c - 1)
                                                         : x.ptr()[c];
                        if (op == B_DIV && ref == 0)
                            continue;
                        what = fmt("component %d", c);
                        s.f = ref;
                        e = chaink({&qx, &s}, psi(op, qx.f, s.f));
                        ret = &compound(op, x, ref);
                    }
                    R.seen(jet_hash<Y>(y0, jet_hash<Y>(x0, hash_str(tn + B_NAME[op] + kn[kind] + what))));
                    R.count(fmt("op_%s_%s", B_NAME[op], kn[kind]));
                    const std::string key = fmt("%s_%s/", B_NAME[op], kn[kind]) + tn;
                    auto det = [&]
                    { return "x " + show<Y>(x0) + "\n  y " + show<Y>(y0) + " " + what; };
                    check_jet<Y>(x, e, key, det);
                    if (ret != &x)
                        R.violation(key + "/ref", "the expression does not refer to its left operand\n  " + det());
                    if (!same_jet<Y>(y, y0))
                        R.violation(key + "/operand", "right operand modified\n  " + det());
                    if (n == 2 && k < 20)
                        R.sample(key + " x " + show<Y>(x0) + " y " + show<Y>(y0) + " -> " + show<Y>(x));
                }
        // chains of compound assignments on one target, judged after every step
        for (int k = 0; k < N / 2; k++)
        {
            if (!R.begin(tn + "/chain/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            T x = make_jet<Y>(n, S(r.U(0.5, 2)), r, 5);
            T y = make_jet<Y>(n, S(r.U(0.5, 2)), r, 5);
            std::string log;
            for (int st = 0; st < 6; st++)
            {
                const int op = r.below(4), kind = r.below(4);
                if (!(std::abs(x.f()) > S(0.05)) || std::abs(x.f()) > S(20) || !(std::abs(y.f()) > S(0.05)))
                    break;
                const S sc = S(r.U(0.5, 2));
                const T x0 = x, y0 = y;
                const QJ qx = to_q<Y>(x, n), qy = to_q<Y>(y, n);
                QJ s(n);
                s.f = sc;
                log += fmt(" %s_%d", B_NAME[op], kind);
                QJ e(0);
                if (kind == 0)
                    compound(op, x, y), e = chaink({&qx, &qy}, psi(op, qx.f, qy.f));
                else if (kind == 1)
                    compound(op, x, x), e = chaink({&qx, &qx}, psi(op, qx.f, qx.f));
                else if (kind == 2)
                    compound(op, x, sc), e = chaink({&qx, &s}, psi(op, qx.f, s.f));
                else
                {
                    // assignment through the returned reference: (x op= y) op2= y happens on x itself
                    compound(op, y, x), e = chaink({&qy, &qx}, psi(op, qy.f, qx.f));
                    R.count("chain_steps");
                    auto det = [&]
                    { return "y " + show<Y>(y0) + "\n  x " + show<Y>(x0) + "\n  steps" + log; };
                    if (!check_jet<Y>(y, e, "chain/" + tn, det))
                        break;
                    if (!same_jet<Y>(x, x0))
                        R.violation("chain/" + tn + "/operand", "right operand modified\n  " + det());
                    continue;
                }
                R.count("chain_steps");
                auto det = [&]
                { return "x " + show<Y>(x0) + "\n  y " + show<Y>(y0) + "\n  steps" + log; };
                if (!check_jet<Y>(x, e, "chain/" + tn, det))
                    break;
            }
        }
    }
};

struct STest
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        const int N = R.n(1500);
        const char *kn[] = {"jet", "self", "scalar", "own_value"};
        for (int op = 0; op <= B_DIV; op++)
            for (int kind = 0; kind < 4; kind++)
                for (int k = 0; k < N; k++)
                {
                    if (!R.begin(tn + "/" + B_NAME[op] + "_" + kn[kind] + "/" + std::to_string(k)))
                        continue;
                    Rng &r = R.rng;
                    S fx, fy;
                    gen_point2<S>(op, fx, fy, r);
                    if (op == B_DIV && fx == 0 && kind % 2 == 1)
                        fx = 2;
                    SJ qx, qy, s, e;
                    T x = make_sparse<S>(fx, r, qx), y = make_sparse<S>(fy, r, qy);
                    const T x0 = x, y0 = y;
                    T *ret = nullptr;
                    if (kind == 0)
                        e = schain({&qx, &qy}, psi(op, qx.f, qy.f)), ret = &compound(op, x, static_cast<const T &>(y));
                    else if (kind == 1)
                        e = schain({&qx, &qx}, psi(op, qx.f, qx.f)), ret = &compound(op, x, static_cast<const T &>(x));
                    else
                    {
                        const S v = kind == 2 ? fy : x.f();
                        s.f = v;
                        e = schain({&qx, &s}, psi(op, qx.f, s.f));
                        ret = &compound(op, x, v);
                    }
                    R.seen(sj_hash(qy, sj_hash(qx, hash_str(tn + B_NAME[op] + kn[kind]))));
                    R.count(fmt("op_sparse_%s_%s", B_NAME[op], kn[kind]));
                    const std::string key = fmt("%s_%s/", B_NAME[op], kn[kind]) + tn;
                    auto det = [&]
                    { return "x " + showsj(qx) + "\n  y " + showsj(qy); };
                    check_sparse<S>(x, e, key, det);
                    if (ret != &x)
                        R.violation(key + "/ref", "the expression does not refer to its left operand\n  " + det());
                    if (!same_sparse(y, y0, qy))
                        R.violation(key + "/operand", "right operand modified\n  " + det());
                    if (!same_sparse(x0, x0, qx) || judge<S>(x0.f(), qx.f, qx.fm) == BAD)
                        R.violation(key + "/copy", "a copy made before the assignment changed\n  " + det());
                }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    if (SHARD == 6)
        for_sparse(STest());
    return R.finish();
}
