// C02: operators, atan2 and hypot of dense jets against the chain rule in quad precision.
#include "common.hpp"
using namespace hv;

template <class S>
struct Lit
{
    S v;
    int i;
    bool is_int;
};

template <class T>
T int_op(int op, int variant, const T &a, int s)
{
    // plain int literals on either side, as in user formulas
    if (variant == 0)
        switch (op)
        {
        case B_ADD:
            return a + s;
        case B_SUB:
            return a - s;
        case B_MUL:
            return a * s;
        default:
            return a / s;
        }
    switch (op)
    {
    case B_ADD:
        return s + a;
    case B_SUB:
        return s - a;
    case B_MUL:
        return s * a;
    default:
        return s / a;
    }
}

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        const int N = R.n(Y::DYN ? 700 : 240);

        // two jets
        for (int op = 0; op < B_COUNT; op++)
            for (int k = 0; k < N; k++)
            {
                if (!R.begin(tn + "/" + B_NAME[op] + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const int n = Y::size(r);
                S x, y;
                gen_point2<S>(op, x, y, r);
                const bool same = r.chance(0.15) && !(op == B_DIV && x == 0) && !(op >= B_ATAN2 && x == 0);
                const T a = make_jet<Y>(n, x, r);
                T b0 = same ? T(a) : make_jet<Y>(n, y, r);
                if (r.chance(0.1)) // same derivatives, other value
                    b0 = a, b0.ptr()[0] = same ? x : y;
                const T b1 = b0;
                const T &b = same ? a : b1;
                const T ka = a, kb = b;
                if (op >= B_ATAN2 && a.ptr()[0] == 0 && b.ptr()[0] == 0)
                    continue;
                if (op == B_ATAN2 && a.ptr()[0] == 0 && b.ptr()[0] < 0)
                    continue;
                const bool member = r.chance(0.5);
                const T res = b_op(op, a, b, member);
                const QJ qa = to_q<Y>(a, n), qb = to_q<Y>(b, n);
                const QJ e = chaink({&qa, &qb}, psi(op, qa.f, qb.f));
                R.seen(jet_hash<Y>(b, jet_hash<Y>(a, hash_str(tn + B_NAME[op]))));
                R.count(std::string("op_") + B_NAME[op]);
                if (same)
                    R.count("same_object");
                const std::string key = std::string(B_NAME[op]) + "/" + tn;
                auto det = [&]
                { return "a " + show<Y>(a) + "\n  b " + show<Y>(b) + (same ? " (same object)" : "") + (member ? " member" : ""); };
                check_jet<Y>(res, e, key, det);
                if (op >= B_ATAN2)
                {
                    const T res2 = b_op(op, a, b, !member);
                    if (!same_jet<Y>(res, res2))
                        check_jet<Y>(res2, e, key + "/free_member", det);
                }
                if (!same_jet<Y>(a, ka) || !same_jet<Y>(b, kb))
                    R.violation(key + "/operand", "operand modified\n  " + det());
                if (n == 2 && k < 40)
                    R.sample(tn + " " + B_NAME[op] + " a " + show<Y>(a) + " b " + show<Y>(b) + " -> " + show<Y>(res));
            }

        // far out, as long as the terms of the second derivatives are in range: everything
        for (int op = 0; op < B_COUNT; op++)
            for (int variant = 0; variant < (op <= B_DIV ? 3 : 1); variant++)
                for (int k = 0; k < N / 3; k++)
                {
                    if (!R.begin(tn + "/far" + std::to_string(variant) + "_" + B_NAME[op] + "/" + std::to_string(k)))
                        continue;
                    Rng &r = R.rng;
                    const int n = Y::size(r);
                    const double e = is_float<S> ? 30 : 280;
                    double ex, ey;
                    bool ok = false;
                    for (int t = 0; t < 50 && !ok; t++)
                    {
                        const double h = op == B_ATAN2 ? e / 4 : op == B_HYPOT ? e / 3 : op == B_MUL ? e / 2 : op == B_DIV ? e / 3 : e;
                        ex = r.U(op == B_DIV ? -e : -h, op == B_DIV ? e : h);
                        ey = r.U(-h, h);
                        if (r.chance(0.3) && std::fabs(ey) < h)
                            ex = ey;
                        ok = op != B_DIV || (std::fabs(ex - ey) < e && std::fabs(ex - 2 * ey) < e && std::fabs(ex - 3 * ey) < e);
                    }
                    if (!ok)
                        continue;
                    const S x = S(r.sgn() * r.U(1, 9)) * S(std::pow(10.0, ex)), y = S(r.sgn() * r.U(1, 9)) * S(std::pow(10.0, ey));
                    const T a = make_linear<Y>(n, x, r), b = make_linear<Y>(n, y, r);
                    QJ qa = to_q<Y>(a, n), qb = to_q<Y>(b, n);
                    if (variant == 1)
                        qb = QJ(n), qb.f = y;
                    if (variant == 2)
                        qa = QJ(n), qa.f = x;
                    const T res = variant == 0 ? b_op(op, a, b, r.chance(0.5)) : variant == 1 ? s_op(op, 0, a, y) : s_op(op, 1, b, x);
                    R.seen(jet_hash<Y>(b, jet_hash<Y>(a, hash_str(tn + B_NAME[op]))) + u64(variant));
                    R.count("far_points");
                    check_jet<Y>(res, chaink({&qa, &qb}, psi(op, qa.f, qb.f)), std::string(B_NAME[op]) + "/far/" + tn, [&]
                                 { return fmt("variant %d a ", variant) + show<Y>(a) + "\n  b " + show<Y>(b); });
                }

        // all magnitudes of the scalar type: value and gradient, where the
        // first derivatives do not need the square of a value out of range
        for (int op = 0; op < B_COUNT; op++)
            for (int k = 0; k < N / 6; k++)
            {
                if (!R.begin(tn + "/extreme_" + B_NAME[op] + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const int n = Y::size(r);
                const double e = is_float<S> ? 35 : 300, h = op == B_DIV || op == B_ATAN2 ? e / 2 - 3 : e;
                S x = S(r.sgn()) * S(std::pow(10.0, r.U(-h, h)));
                S y = S(r.sgn()) * S(std::pow(10.0, r.U(-h, h)));
                if (r.chance(0.5)) // of one magnitude
                    y = S(x * S(r.sgn() * r.U(0.01, 100)));
                const T a = make_jet<Y>(n, x, r, r.pick({0, 6})), b = make_jet<Y>(n, y, r, r.pick({0, 6}));
                const QJ qa = to_q<Y>(a, n), qb = to_q<Y>(b, n);
                const DK ps = psi(op, qa.f, qb.f);
                const Q big = std::max(std::max(ps.dm[0], ps.dm[1]), ps.fm), lim = Lim<S>::maxv * Q(1e-6);
                const T res = b_op(op, a, b, r.chance(0.5));
                R.seen(jet_hash<Y>(b, jet_hash<Y>(a, hash_str(tn + B_NAME[op]))));
                R.count("extreme_points");
                check_jet<Y>(res, chaink({&qa, &qb}, ps), std::string(B_NAME[op]) + "/extreme/" + tn, [&]
                             { return "a " + show<Y>(a) + "\n  b " + show<Y>(b); }, big < lim ? 1 : 0);
            }
        for (int k = 0; k < N / 6; k++)
        {
            if (!R.begin(tn + "/extreme_hypot3/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            const double h = is_float<S> ? 35 : 300;
            const S base = S(std::pow(10.0, r.U(-h, h)));
            T j[3];
            for (T &t : j)
                t = make_jet<Y>(n, r.chance(0.6) ? S(base * S(r.sgn() * r.U(0.01, 100))) : S(std::pow(10.0, r.U(-h, h))), r, r.pick({0, 6}));
            const QJ qa = to_q<Y>(j[0], n), qb = to_q<Y>(j[1], n), qc = to_q<Y>(j[2], n);
            R.seen(jet_hash<Y>(j[2], jet_hash<Y>(j[1], jet_hash<Y>(j[0], hash_str(tn + "xhypot3")))));
            R.count("extreme_points");
            check_jet<Y>(hypot(j[0], j[1], j[2]), chaink({&qa, &qb, &qc}, psi3(qa.f, qb.f, qc.f)), "hypot3/extreme/" + tn, [&]
                         { return "a " + show<Y>(j[0]) + "\n  b " + show<Y>(j[1]) + "\n  c " + show<Y>(j[2]); }, 1);
        }

        // jet and scalar
        for (int op = 0; op <= B_DIV; op++)
            for (int variant = 0; variant < 2; variant++)
                for (int k = 0; k < N / 2; k++)
                {
                    if (!R.begin(tn + "/scalar" + std::to_string(variant) + B_NAME[op] + "/" + std::to_string(k)))
                        continue;
                    Rng &r = R.rng;
                    const int n = Y::size(r);
                    S x, s;
                    gen_point2<S>(op, x, s, r);
                    if (op == B_DIV && variant == 1)
                        std::swap(x, s);
                    const bool integer = r.chance(0.2);
                    if (integer)
                    {
                        s = S(r.below(9) - 4);
                        if (op == B_DIV && variant == 0 && s == 0)
                            s = 3;
                    }
                    const T a = make_jet<Y>(n, x, r);
                    const T ka = a;
                    const T res = integer ? int_op(op, variant, a, int(s)) : s_op(op, variant, a, s);
                    const QJ qa = to_q<Y>(a, n);
                    QJ qs_(n);
                    qs_.f = s;
                    const QJ e = variant == 0 ? chaink({&qa, &qs_}, psi(op, qa.f, qs_.f)) : chaink({&qs_, &qa}, psi(op, qs_.f, qa.f));
                    R.seen(jet_hash<Y>(a, hash_str(tn + B_NAME[op] + std::to_string(variant)) ^ hash_bytes(&op, sizeof op)) ^ u64(double(s) * 1e6));
                    R.count(fmt("op_%s_%s", variant ? "scalar_jet" : "jet_scalar", B_NAME[op]));
                    const std::string key = fmt("%s_%s/", variant ? "scalar_jet" : "jet_scalar", B_NAME[op]) + tn;
                    check_jet<Y>(res, e, key, [&]
                                 { return "jet " + show<Y>(a) + " scalar " + ss(s) + (integer ? " (int)" : ""); });
                    if (!same_jet<Y>(a, ka))
                        R.violation(key + "/operand", "operand modified");
                }

        // negation
        for (int k = 0; k < N / 3; k++)
        {
            if (!R.begin(tn + "/neg/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            const T a = make_jet<Y>(n, S(r.sgn()) * gen_wide<S>(r, 1e-6, 1e6), r);
            const T ka = a;
            const T res = -a;
            QJ e = to_q<Y>(a, n);
            e.f = -e.f;
            for (auto &v : e.g)
                v = -v;
            for (auto &v : e.H)
                v = -v;
            R.seen(jet_hash<Y>(a, hash_str(tn + "neg")));
            R.count("op_neg");
            check_jet<Y>(res, e, "neg/" + tn, [&]
                         { return "jet " + show<Y>(a); });
            if (!same_jet<Y>(a, ka))
                R.violation("neg/" + tn + "/operand", "operand modified");
        }

        // hypot of three, with all ways of passing the same object
        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/hypot3/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            const double lo = is_float<S> ? 1e-5 : 1e-30, hi = is_float<S> ? 1e5 : 1e30;
            S v[3];
            const double base = r.logU(lo, hi);
            for (int i = 0; i < 3; i++)
                v[i] = r.chance(0.1) ? S(0) : r.chance(0.4) ? S(base * r.U(-3, 3))
                                                            : S(r.sgn()) * gen_wide<S>(r, lo, hi);
            const int al = r.below(8);
            T j[3];
            for (int i = 0; i < 3; i++)
                j[i] = make_jet<Y>(n, v[i], r);
            const int idx[8][3] = {{0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 0, 0}};
            const T &a = j[idx[al][0]], &b = j[idx[al][1]], &c = j[idx[al][2]];
            if (a.ptr()[0] == 0 && b.ptr()[0] == 0 && c.ptr()[0] == 0)
                continue;
            const QJ qa = to_q<Y>(a, n), qb = to_q<Y>(b, n), qc = to_q<Y>(c, n);
            const QJ e = chaink({&qa, &qb, &qc}, psi3(qa.f, qb.f, qc.f));
            const bool member = r.chance(0.5);
            const T ka = a, kb = b, kc = c;
            const T res = member ? T::hypot(a, b, c) : hypot(a, b, c);
            R.seen(jet_hash<Y>(c, jet_hash<Y>(b, jet_hash<Y>(a, hash_str(tn + "hypot3")))));
            R.count("op_hypot3");
            check_jet<Y>(res, e, "hypot3/" + tn, [&]
                         { return "a " + show<Y>(a) + "\n  b " + show<Y>(b) + "\n  c " + show<Y>(c) + fmt(" alias %d", al); });
            if (!same_jet<Y>(a, ka) || !same_jet<Y>(b, kb) || !same_jet<Y>(c, kc))
                R.violation("hypot3/" + tn + "/operand", "operand modified");
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    return R.finish();
}
