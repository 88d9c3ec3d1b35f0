// C01: unary functions of dense jets against closed forms in quad precision.
#include "common.hpp"
using namespace hv;

// The oracle itself: closed-form derivatives against central differences of the
// value function in quad precision, at the points the workload uses.
static void oracle_selftest()
{
    for (int op = 0; op < U_COUNT; op++)
        for (int k = 0; k < 40; k++)
        {
            if (!R.begin(fmt("oracle/%s/%d", U_NAME[op], k)))
                continue;
            double p;
            const Q x = gen_point<double>(op, p, R.rng);
            if (x == 0)
                continue;
            const D1 e = phi(op, x, p);
            Q room = qabs(x); // distance to the next singularity bounds the step
            if (op == U_ACOS || op == U_ASIN || op == U_ATANH)
                room = std::min(room, 1 - qabs(x));
            if (op == U_ACOSH)
                room = x - 1;
            if (room > 1)
                room = 1;
            const Q h = room * Q(1e-6);
            const Q a2 = phi0(op, x - 2 * h, p), a1 = phi0(op, x - h, p), b1 = phi0(op, x + h, p), b2 = phi0(op, x + 2 * h, p);
            const Q d = (a2 - 8 * a1 + 8 * b1 - b2) / (12 * h);
            const Q dd = (-a2 + 16 * a1 - 30 * e.f + 16 * b1 - b2) / (12 * h * h);
            const Q sd = e.dm + qabs(e.f) / room * Q(1e-14), sdd = e.ddm + e.dm / room * Q(1e-8) + qabs(e.f) / (room * room) * Q(1e-8);
            if (!finiteq(d) || !finiteq(dd))
                continue;
            if (qabs(d - e.d) > Q(1e-9) * sd || qabs(dd - e.dd) > Q(1e-4) * sdd)
            {
                std::fprintf(stderr, "ORACLE %s x=%s p=%g: d=%s fd=%s dd=%s fd=%s\n", U_NAME[op], qs(x).c_str(), p, qs(e.d).c_str(), qs(d).c_str(), qs(e.dd).c_str(), qs(dd).c_str());
                std::exit(4);
            }
            R.count("oracle_points");
        }
}

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        const std::string tn = Y::name();
        const int N = R.n(Y::DYN ? 160 : 40);
        for (int op = 0; op < U_COUNT; op++)
            for (int k = 0; k < N; k++)
            {
                if (!R.begin(tn + "/" + U_NAME[op] + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const int n = Y::size(r);
                double p = 0;
                const S x = gen_point<S>(op, p, r);
                const typename Y::T a = make_jet<Y>(n, x, r);
                const typename Y::T keep = a;
                const QJ qa = to_q<Y>(a, n);
                const bool fr = has_free(op) && r.chance(0.5);
                const typename Y::T res = fr ? u_free(op, a, p) : u_member(op, a, p);
                const QJ e = chain1(qa, phi(op, qa.f, Q(p)));
                R.seen(jet_hash<Y>(a, hash_str(tn + U_NAME[op])) ^ u64(p * 4096));
                R.count(std::string("op_") + U_NAME[op]);
                const std::string key = std::string(U_NAME[op]) + "/" + tn;
                auto det = [&]
                { return "argument " + show<Y>(a) + fmt(" param %.17g %s", p, fr ? "free" : "member"); };
                if (check_jet<Y>(res, e, key, det) && op == U_TAN && n <= 2 && n > 0)
                    R.sample(tn + " " + U_NAME[op] + " " + show<Y>(a) + " -> " + show<Y>(res));
                if (!same_jet<Y>(a, keep))
                    R.violation(key + "/operand", "operand modified: " + show<Y>(keep) + " became " + show<Y>(a));
                // free function, member and a repetition agree to the last bit
                if (has_free(op))
                {
                    const typename Y::T res2 = fr ? u_member(op, a, p) : u_free(op, a, p);
                    R.count("free_member_pairs");
                    if (!same_jet<Y>(res, res2))
                        check_jet<Y>(res2, e, key + "/free_member", det);
                }
            }

        // far out, as long as the terms of the second derivative are in range: everything
        static const struct
        {
            int op, lo, hi; // decimal exponents for double
        } FAR[] = {{U_SQRT, -180, 180}, {U_CBRT, -160, 160}, {U_RECIP, -95, 95}, {U_LOG, -140, 140}, {U_LOG2, -140, 140}, {U_LOG10, -140, 140}, {U_LOGB, -140, 140}, {U_ATAN, -70, 70}, {U_ASINH, -90, 90}, {U_ACOSH, 0, 90}, {U_EXP, -20, 2}, {U_SINH, -20, 2}, {U_COSH, -20, 2}, {U_POW, -280, 280}};
        for (const auto &far : FAR)
            for (int k = 0; k < N / 2; k++)
            {
                const int op = far.op;
                if (!R.begin(tn + "/far_" + U_NAME[op] + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const int n = Y::size(r);
                double p = 0, s = is_float<S> ? 35. / 300 : 1;
                (void)gen_point<S>(op, p, r); // p
                if (op == U_POW)
                    s /= std::fabs(p) + 3;
                const bool wide = op == U_EXP || op == U_SINH || op == U_COSH;
                S x = S(wide ? std::pow(10.0, r.U(-20, 2)) * (is_float<S> ? 0.7 : 6) : std::pow(10.0, r.U(far.lo * s, far.hi * s)));
                if (op == U_CBRT || op == U_RECIP || op == U_ATAN || op == U_ASINH || wide)
                    x = S(x * S(r.sgn()));
                if (op == U_ACOSH)
                    x = S(x + S(1));
                const typename Y::T a = make_linear<Y>(n, x, r);
                const QJ qa = to_q<Y>(a, n);
                const bool fr = has_free(op) && r.chance(0.5);
                const typename Y::T res = fr ? u_free(op, a, p) : u_member(op, a, p);
                R.seen(jet_hash<Y>(a, hash_str(tn + U_NAME[op])) ^ u64(p * 4096));
                R.count("far_points");
                check_jet<Y>(res, chain1(qa, phi(op, qa.f, Q(p))), std::string(U_NAME[op]) + "/far/" + tn, [&]
                             { return "argument " + show<Y>(a) + fmt(" param %.17g %s", p, fr ? "free" : "member"); });
            }

        // all magnitudes of the scalar type: value and gradient
        for (int op = 0; op < U_COUNT; op++)
            for (int k = 0; k < N / 4; k++)
            {
                if (!R.begin(tn + "/extreme_" + U_NAME[op] + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const int n = Y::size(r);
                double p = 0;
                const S x = gen_extreme<S>(op, p, r);
                const typename Y::T a = make_jet<Y>(n, x, r, r.pick({0, 6}));
                const QJ qa = to_q<Y>(a, n);
                const bool fr = has_free(op) && r.chance(0.5);
                const typename Y::T res = fr ? u_free(op, a, p) : u_member(op, a, p);
                const D1 ph = phi(op, qa.f, Q(p));
                const QJ e = chain1(qa, ph);
                R.seen(jet_hash<Y>(a, hash_str(tn + U_NAME[op])) ^ u64(p * 4096));
                R.count("extreme_points");
                check_jet<Y>(res, e, std::string(U_NAME[op]) + "/extreme/" + tn, [&]
                             { return "argument " + show<Y>(a) + fmt(" param %.17g %s", p, fr ? "free" : "member"); }, ph.dm < Lim<S>::maxv * Q(1e-6) ? 1 : 0);
            }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    if (R.only.empty())
        oracle_selftest();
    for_types(Test());
    return R.finish();
}
