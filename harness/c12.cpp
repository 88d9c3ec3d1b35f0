// C12: sparse jets against the chain rule per name in quad precision.
#include "sparse.hpp"
using namespace hv;

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        const int N = R.n(200);

        for (int op = 0; op < U_COUNT; op++)
            for (int k = 0; k < N; k++)
            {
                if (!R.begin(tn + "/" + U_NAME[op] + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                double p = 0;
                const S x = gen_point<S>(op, p, r);
                SJ q;
                const T a = make_sparse<S>(x, r, q);
                const T keep = a;
                p = double(S(p)); // the exponent is a Scalar
                if (op == U_POW && x == 0 && !(p == 0 || p >= 1))
                    continue;
                const bool fr = has_free(op) && r.chance(0.5);
                const T res = fr ? u_free(op, a, p) : u_member(op, a, p);
                const SJ e = schain({&q}, to_dk(phi(op, q.f, Q(p))));
                R.seen(sj_hash(q, hash_str(tn + U_NAME[op])) ^ u64(p * 4096));
                R.count(std::string("op_") + U_NAME[op]);
                const std::string key = std::string(U_NAME[op]) + "/" + tn;
                auto det = [&]
                { return "argument " + shows(a, q) + fmt(" param %.17g %s", p, fr ? "free" : "member"); };
                if (check_sparse<S>(res, e, key, det) && q.d.size() == 2)
                    R.sample(tn + " " + U_NAME[op] + " " + shows(a, q) + " -> " + shows(res, e));
                if (!same_sparse(a, keep, q))
                    R.violation(key + "/operand", "operand modified: " + det());
                if (has_free(op))
                {
                    const T res2 = fr ? u_member(op, a, p) : u_free(op, a, p);
                    R.count("free_member_pairs");
                    if (!same_sparse(res, res2, e))
                        check_sparse<S>(res2, e, key + "/free_member", det);
                }
            }

        // all magnitudes of the scalar type
        auto parts = [](const SJ &e, const DK &p)
        {
            // partials that are out of range make NaN of zeros, then only the value counts
            SJ v = e;
            if (std::max(p.dm[0], std::max(p.dm[1], p.dm[2])) >= Lim<S>::maxv * Q(1e-6))
                for (auto &d : v.d)
                    d.second.second = Q(__builtin_inf());
            return v;
        };
        for (int op = 0; op < U_COUNT; op++)
            for (int k = 0; k < N / 4; k++)
            {
                if (!R.begin(tn + "/extreme_" + U_NAME[op] + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                double p = 0;
                const S x = gen_extreme<S>(op, p, r);
                p = double(S(p));
                SJ q;
                const T a = make_sparse<S>(x, r, q, nullptr, r.pick({0, 2}));
                const DK ph = to_dk(phi(op, q.f, Q(p)));
                const bool fr = has_free(op) && r.chance(0.5);
                R.count("extreme_points");
                R.seen(sj_hash(q, hash_str(tn + "x" + U_NAME[op])) ^ u64(p * 4096));
                check_sparse<S>(fr ? u_free(op, a, p) : u_member(op, a, p), parts(schain({&q}, ph), ph), std::string(U_NAME[op]) + "/extreme/" + tn, [&]
                                { return "argument " + shows(a, q) + fmt(" param %.17g %s", p, fr ? "free" : "member"); });
            }
        for (int op = 0; op <= B_COUNT; op++) // B_COUNT: hypot of three
            for (int k = 0; k < N / 2; k++)
            {
                if (!R.begin(tn + "/extreme2/" + std::to_string(op) + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const double e = is_float<S> ? 35 : 300, h = op == B_DIV || op == B_ATAN2 ? e / 2 - 3 : e;
                S v[3];
                for (S &x : v)
                    x = S(r.sgn()) * S(std::pow(10.0, r.U(-h, h)));
                if (r.chance(0.6)) // of one magnitude
                    v[1] = S(v[0] * S(r.sgn() * r.U(0.01, 100))), v[2] = S(v[0] * S(r.sgn() * r.U(0.01, 100)));
                SJ qa, qb, qc;
                const T a = make_sparse<S>(v[0], r, qa, nullptr, r.pick({0, 2})), b = make_sparse<S>(v[1], r, qb, nullptr, r.pick({0, 2})), c = make_sparse<S>(v[2], r, qc, nullptr, 0);
                const bool three = op == B_COUNT;
                const DK ps = three ? psi3(qa.f, qb.f, qc.f) : psi(op, qa.f, qb.f);
                const SJ ex = parts(three ? schain({&qa, &qb, &qc}, ps) : schain({&qa, &qb}, ps), ps);
                R.count("extreme_points");
                R.seen(sj_hash(qb, sj_hash(qa, hash_str(tn + "x2" + std::to_string(op)))));
                check_sparse<S>(three ? hypot(a, b, c) : b_op(op, a, b, r.chance(0.5)), ex, std::string(three ? "hypot3" : B_NAME[op]) + "/extreme/" + tn, [&]
                                { return "a " + shows(a, qa) + "\n  b " + shows(b, qb) + "\n  c " + shows(c, qc); });
            }

        for (int op = 0; op < B_COUNT; op++)
            for (int k = 0; k < 3 * N; k++)
            {
                if (!R.begin(tn + "/" + B_NAME[op] + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                S x, y;
                gen_point2<S>(op, x, y, r);
                const bool same = r.chance(0.15) && x != 0;
                SJ qa, qb;
                const T a = make_sparse<S>(x, r, qa);
                std::vector<std::string> names;
                for (auto &d : qa.d)
                    names.push_back(d.first);
                const T b1 = r.chance(0.3) ? make_sparse<S>(y, r, qb, &names) : make_sparse<S>(y, r, qb); // same names
                const T &b = same ? a : b1;
                if (same)
                    qb = qa;
                const T ka = a, kb = b;
                if (op >= B_ATAN2 && a.f() == 0 && b.f() == 0)
                    continue;
                if (op == B_ATAN2 && a.f() == 0 && b.f() < 0)
                    continue;
                const bool member = r.chance(0.5);
                const T res = b_op(op, a, b, member);
                const SJ e = schain({&qa, &qb}, psi(op, qa.f, qb.f));
                R.seen(sj_hash(qb, sj_hash(qa, hash_str(tn + B_NAME[op]))));
                R.count(std::string("op_") + B_NAME[op]);
                if (same)
                    R.count("same_object");
                const std::string key = std::string(B_NAME[op]) + "/" + tn;
                auto det = [&]
                { return "a " + shows(a, qa) + "\n  b " + shows(b, qb) + (same ? " (same object)" : "") + (member ? " member" : ""); };
                check_sparse<S>(res, e, key, det);
                if (op >= B_ATAN2)
                {
                    const T res2 = b_op(op, a, b, !member);
                    if (!same_sparse(res, res2, e))
                        check_sparse<S>(res2, e, key + "/free_member", det);
                }
                if (!same_sparse(a, ka, qa) || !same_sparse(b, kb, qb))
                    R.violation(key + "/operand", "operand modified\n  " + det());
                if (qa.d.size() == 1 && k < 60)
                    R.sample(tn + " " + B_NAME[op] + " " + det());
            }

        for (int op = 0; op <= B_DIV; op++)
            for (int variant = 0; variant < 2; variant++)
                for (int k = 0; k < N; k++)
                {
                    if (!R.begin(tn + "/scalar" + std::to_string(variant) + B_NAME[op] + "/" + std::to_string(k)))
                        continue;
                    Rng &r = R.rng;
                    S x, s;
                    gen_point2<S>(op, x, s, r);
                    if (op == B_DIV && variant == 1)
                        std::swap(x, s);
                    SJ q, qs_;
                    const T a = make_sparse<S>(x, r, q);
                    const T ka = a;
                    const T res = s_op(op, variant, a, s);
                    qs_.f = s;
                    const SJ e = variant == 0 ? schain({&q, &qs_}, psi(op, q.f, qs_.f)) : schain({&qs_, &q}, psi(op, qs_.f, q.f));
                    R.seen(sj_hash(q, hash_str(tn + B_NAME[op] + std::to_string(variant))) ^ u64(double(s) * 1e6));
                    R.count(fmt("op_%s_%s", variant ? "scalar_jet" : "jet_scalar", B_NAME[op]));
                    const std::string key = fmt("%s_%s/", variant ? "scalar_jet" : "jet_scalar", B_NAME[op]) + tn;
                    check_sparse<S>(res, e, key, [&]
                                    { return "jet " + shows(a, q) + " scalar " + ss(s); });
                    if (!same_sparse(a, ka, q))
                        R.violation(key + "/operand", "operand modified");
                }

        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/neg/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            SJ q;
            const T a = make_sparse<S>(S(r.sgn()) * gen_wide<S>(r, 1e-6, 1e6), r, q), ka = a;
            const T res = -a;
            SJ e = q;
            e.f = -e.f;
            for (auto &d : e.d)
                d.second.first = -d.second.first;
            R.seen(sj_hash(q, hash_str(tn + "neg")));
            R.count("op_neg");
            check_sparse<S>(res, e, "neg/" + tn, [&]
                            { return shows(a, q); });
            if (!same_sparse(a, ka, q))
                R.violation("neg/" + tn + "/operand", "operand modified");
        }

        for (int k = 0; k < 3 * N; k++)
        {
            if (!R.begin(tn + "/hypot3/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const double lo = is_float<S> ? 1e-5 : 1e-30, hi = is_float<S> ? 1e5 : 1e30;
            const double base = r.logU(lo, hi);
            SJ q[3];
            std::vector<T> j;
            for (int i = 0; i < 3; i++)
                j.push_back(make_sparse<S>(r.chance(0.1) ? S(0) : r.chance(0.4) ? S(base * r.U(-3, 3))
                                                                                : S(r.sgn()) * gen_wide<S>(r, lo, hi),
                                           r, q[i]));
            const int idx[8][3] = {{0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 0, 0}};
            const int *al = idx[r.below(8)];
            const T &a = j[al[0]], &b = j[al[1]], &c = j[al[2]];
            if (a.f() == 0 && b.f() == 0 && c.f() == 0)
                continue;
            const std::vector<T> keep = j;
            const bool member = r.chance(0.5);
            const T res = member ? T::hypot(a, b, c) : hypot(a, b, c);
            const SJ &x = q[al[0]], &y = q[al[1]], &z = q[al[2]];
            const SJ e = schain({&x, &y, &z}, psi3(x.f, y.f, z.f));
            R.seen(sj_hash(z, sj_hash(y, sj_hash(x, hash_str(tn + "hypot3")))));
            R.count("op_hypot3");
            check_sparse<S>(res, e, "hypot3/" + tn, [&]
                            { return "a " + shows(a, x) + "\n  b " + shows(b, y) + "\n  c " + shows(c, z) + fmt(" alias %d%d%d", al[0], al[1], al[2]); });
            for (int i = 0; i < 3; i++)
                if (!same_sparse(j[i], keep[i], q[i]))
                    R.violation("hypot3/" + tn + "/operand", "operand modified");
        }

        // chains: a jet through many operations keeps the true partials (order 1 of C04)
        for (int k = 0; k < 2 * N; k++)
        {
            if (!R.begin(tn + "/chain/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            // f = product of (v_i + c_i) over repeated names, d ln f / d v = sum of 1 / (v_i + c_i)
            const int m = 1 + r.below(12);
            std::map<std::string, Q> val, dl;
            T acc = T::constant(S(1));
            Q f = 1;
            std::string txt;
            for (int i = 0; i < m; i++)
            {
                const std::string n = name_pool()[r.below(8)];
                if (!val.count(n))
                    val[n] = Q(S(r.U(0.5, 2)));
                const S c = S(r.U(0.2, 2));
                const T v = T::variable(n, S(val[n]));
                const int form = r.below(4);
                txt += fmt(" %d:%s", form, n.c_str());
                Q t, dt; // factor and its derivative
                T w;
                if (form == 0)
                    t = val[n] + Q(c), dt = 1, w = v + c;
                else if (form == 1)
                    t = val[n] * val[n] + Q(c), dt = 2 * val[n], w = v * v + c;
                else if (form == 2)
                    t = Q(c) / val[n], dt = -Q(c) / (val[n] * val[n]), w = c / v;
                else
                    t = expq(val[n]), dt = t, w = exp(v);
                f *= t;
                dl[n] += dt / t;
                if (r.chance(0.5))
                    acc = acc * w;
                else
                    acc *= w;
            }
            R.count("chains");
            SJ e;
            e.f = f, e.fm = qabs(f) * m;
            for (auto &d : dl)
            {
                Q mag = 0;
                mag = qabs(f) * m * 20;
                e.d[d.first] = {f * d.second, mag};
            }
            R.seen(sj_hash(e, hash_str(tn + "chain")));
            check_sparse<S>(acc, e, "chain/" + tn, [&]
                            { return txt; });
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 80
    Test()(Sp<double>());
#elif SHARD == 81
    Test()(Sp<float>());
#else
    Test()(Sp<long double>());
#endif
    return R.finish();
}
