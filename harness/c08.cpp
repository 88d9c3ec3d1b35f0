// C08: padding and resizing of dynamic jets.
#include "prog.hpp"
using namespace hv;

template <class Y>
std::vector<typename Y::Scalar> embed(const typename Y::T &x, int n, int m, int at)
{
    // packed data of the embedding into m variables starting at position at
    using S = typename Y::Scalar;
    std::vector<S> e(Y::len(m), S(0));
    const S *p = x.ptr();
    e[0] = p[0];
    for (int i = 0; i < n; i++)
        e[1 + at + i] = p[1 + i];
    if (Y::ORDER == 2)
    {
        int k = 1 + m;
        for (int i = 0; i < m; i++)
            for (int j = i; j < m; j++, k++)
                if (i >= at && j < at + n)
                {
                    int q = 1 + n;
                    for (int a = 0; a < i - at; a++)
                        q += n - a;
                    e[k] = p[q + (j - i)];
                }
    }
    return e;
}

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        const int N = R.n(1500);
        auto eq = [](const T &x, const std::vector<S> &e, int m)
        {
            bool ok = x.size() == m && x.data_length() == Y::len(m) && Ix(e.size()) == Y::len(m);
            for (std::size_t i = 0; ok && i < e.size(); i++)
                ok = same_bits(x.ptr()[i], e[i]);
            return ok;
        };
        auto same_val = [](const T &x, const T &y)
        {
            bool ok = x.size() == y.size() && x.data_length() == y.data_length();
            for (Ix i = 0; ok && i < x.data_length(); i++)
                ok = same_bits(x.ptr()[i], y.ptr()[i]) || x.ptr()[i] == y.ptr()[i];
            return ok;
        };
        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/pad/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r) % 30;
            const int extra = r.chance(0.15) ? 0 : r.below(r.chance(0.2) ? 20 : 6);
            const int m = n + extra;
            T x = make_jet<Y>(n, S(r.U(-5, 5)), r);
            if (k % 11 == 0)
                for (Ix i = 0; i < x.data_length(); i++)
                    x.ptr()[i] = S(r.pick({double(NAN), HUGE_VAL, -0.0, 1.0, -HUGE_VAL, 0.0, 1e30}));
            const T keep = x;
            R.evals++;
            R.seen(jet_hash<Y>(x, hash_str(tn) ^ u64(m)));
            R.count("padded");
            const T pr = x.pad_right(m), pl = x.pad_left(m);
            auto det = [&](const T &p)
            { return show<Y>(keep) + fmt(" padded to %d: ", m) + show<Y>(p); };
            if (!eq(pr, embed<Y>(keep, n, m, 0), m))
                R.violation("pad_right/" + tn, det(pr));
            if (!eq(pl, embed<Y>(keep, n, m, extra), m))
                R.violation("pad_left/" + tn, det(pl));
            if (!same_jet<Y>(x, keep))
                R.violation("pad_source/" + tn, "padding modified its source " + det(x));
            if (n == 2 && m == 3)
                R.sample(tn + " " + show<Y>(x) + " right " + show<Y>(pr) + " left " + show<Y>(pl));
            // further padding
            const int m2 = m + r.below(5), m3 = m2 + r.below(4);
            if (!same_jet<Y>(pr.pad_right(m2), x.pad_right(m2)))
                R.violation("pad_right_twice/" + tn, det(pr.pad_right(m2)));
            if (!same_jet<Y>(pl.pad_left(m2), x.pad_left(m2)))
                R.violation("pad_left_twice/" + tn, det(pl.pad_left(m2)));
            const int a = m2 - n;
            if (!same_jet<Y>(x.pad_right(m2).pad_left(m3), x.pad_left(n + m3 - m2).pad_right(m3)))
                R.violation("pad_both/" + tn, fmt("a=%d ", a) + det(x.pad_right(m2).pad_left(m3)));
        }
        // padding commutes with every operation
        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/commute/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = r.below(7), m = n + r.below(5);
            const bool left = r.chance(0.5);
            auto pad = [&](const T &x)
            { return left ? x.pad_left(m) : x.pad_right(m); };
            const int w = r.below(10);
            T a, b, c;
            QJ e(0);
            std::string what;
            T lhs, rhs;
            if (w < 5)
            {
                const int op = r.below(U_COUNT);
                double p;
                a = make_jet<Y>(n, gen_point<S>(op, p, r), r, 5);
                what = U_NAME[op];
                lhs = u_member(op, pad(a), p), rhs = pad(u_member(op, a, p));
                const T pa = pad(a);
                e = chain1(to_q<Y>(pa, m), phi(op, Q(pa.f()), Q(p)));
            }
            else if (w < 8)
            {
                const int op = r.below(B_COUNT);
                a = make_jet<Y>(n, S(r.sgn() * r.U(0.2, 5)), r, 5), b = make_jet<Y>(n, S(r.U(0.2, 5)), r, 5);
                what = B_NAME[op];
                lhs = b_op(op, pad(a), pad(b)), rhs = pad(b_op(op, a, b));
                const QJ qa = to_q<Y>(pad(a), m), qb = to_q<Y>(pad(b), m);
                e = chaink({&qa, &qb}, psi(op, qa.f, qb.f));
            }
            else if (w < 9)
            {
                a = make_jet<Y>(n, S(r.U(0.2, 5)), r, 5), b = make_jet<Y>(n, S(r.U(0.2, 5)), r, 5), c = make_jet<Y>(n, S(r.U(0.2, 5)), r, 5);
                what = "hypot3";
                lhs = hypot(pad(a), pad(b), pad(c)), rhs = pad(hypot(a, b, c));
                const QJ qa = to_q<Y>(pad(a), m), qb = to_q<Y>(pad(b), m), qc = to_q<Y>(pad(c), m);
                e = chaink({&qa, &qb, &qc}, psi3(qa.f, qb.f, qc.f));
            }
            else
            {
                const int op = r.below(4), variant = r.below(2);
                const S s = S(r.U(0.5, 3));
                a = make_jet<Y>(n, S(r.U(0.2, 5)), r, 5);
                what = fmt("scalar%d_%s", variant, B_NAME[op]);
                lhs = s_op(op, variant, pad(a), s), rhs = pad(s_op(op, variant, a, s));
                const QJ qa = to_q<Y>(pad(a), m);
                QJ q(m);
                q.f = s;
                e = variant ? chaink({&q, &qa}, psi(op, q.f, qa.f)) : chaink({&qa, &q}, psi(op, qa.f, q.f));
            }
            R.count("commuted");
            R.seen(jet_hash<Y>(a, hash_str(tn + what) ^ u64(m)));
            auto det = [&]
            { return (left ? "left " : "right ") + fmt("%d -> %d, a ", n, m) + show<Y>(a) + "\n  op(pad) " + show<Y>(lhs) + "\n  pad(op) " + show<Y>(rhs); };
            check_jet<Y>(lhs, e, "op_of_pad_" + what + "/" + tn, det);
            check_jet<Y>(rhs, e, "pad_of_op_" + what + "/" + tn, det);
        }
        // two jets over disjoint variables
        for (int k = 0; k < N / 4; k++)
        {
            if (!R.begin(tn + "/joint/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n1 = r.below(5), n2 = r.below(5), n = n1 + n2;
            const std::vector<double> v = gen_vars(n, r);
            const std::vector<double> v1(v.begin(), v.begin() + n1), v2(v.begin() + n1, v.end());
            const Prog p1 = gen_prog(n1, v1, r, 1 + r.below(6)), p2 = gen_prog(n2, v2, r, 1 + r.below(6));
            if (p1.regs == 0 || p2.regs == 0)
                continue;
            std::vector<T> r1 = seed_jets<Y>(v1, n1), r2 = seed_jets<Y>(v2, n2);
            run_prog<T>(p1, r1, n1);
            run_prog<T>(p2, r2, n2);
            const int op = r.below(3);
            const T z = b_op(op, r1[p1.out].pad_right(n), r2[p2.out].pad_left(n));
            // the joint program
            Prog j;
            j.n = n;
            auto place = [&](const Prog &p, int vars_at, int reg_at)
            {
                auto map = [&](int q)
                { return q < p.n ? vars_at + q : reg_at + q - p.n; };
                for (auto i : p.code)
                {
                    i.a = map(i.a), i.b = map(i.b), i.c = map(i.c), i.dst = map(i.dst);
                    j.code.push_back(i);
                }
            };
            place(p1, 0, n);
            place(p2, n1, n + p1.regs - n1);
            Instr l;
            l.k = K_BIN, l.op = op;
            l.a = p1.out < n1 ? p1.out : n + p1.out - n1;
            l.b = p2.out < n2 ? n1 + p2.out : n + p1.regs - n1 + p2.out - n2;
            j.regs = n + p1.regs - n1 + p2.regs - n2 + 1;
            l.dst = j.out = j.regs - 1;
            j.code.push_back(l);
            const Expect x = expect<S>(j, seed_oracle(v, n), j.out, r, 4);
            R.seen(hash_str(tn + j.text()));
            if (!x.usable)
            {
                R.count("ill_conditioned_skipped");
                continue;
            }
            R.count("joint_functions");
            check_expect<Y>(z, x, iota_map(n), "joint/" + tn, [&]
                            { return fmt("%d + %d variables ", n1, n2) + j.text(); });
        }
        // resize, also several times, then use as any other jet
        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/resize/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            T x = make_jet<Y>(Y::size(r), S(r.U(-5, 5)), r, 5);
            const T copy = x;
            const T keep = copy;
            S f = x.f();
            int n = 0;
            std::string log = fmt("%ld", long(x.size()));
            for (int t = 1 + r.below(4); t > 0; t--)
            {
                n = Y::size(r);
                x.resize(n);
                log += fmt(" -> %d", n);
                R.evals++;
                R.count("resized");
                if (x.size() != n || x.data_length() != Y::len(n) || Ix(x.data().size()) != Y::len(n))
                {
                    R.violation("resize_size/" + tn, log + " " + show<Y>(x));
                    break;
                }
                if (!same_bits(x.f(), f))
                {
                    R.violation("resize_value/" + tn, log + " " + show<Y>(x));
                    break;
                }
            }
            R.seen(hash_str(tn + log));
            if (x.size() != n || x.data_length() != Y::len(n))
                continue;
            for (int i = 0; i < n; i++)
                x.set_g(i, S(r.U(-2, 2)));
            if constexpr (Y::ORDER == 2)
                for (int i = 0; i < n; i++)
                    for (int j = 0; j <= i; j++)
                        x.set_h(i, j, S(r.U(-2, 2)));
            const T z = make_jet<Y>(n, S(2), r, 5);
            const QJ qx = to_q<Y>(x, n), qz = to_q<Y>(z, n);
            check_jet<Y>(x * z, chaink({&qx, &qz}, psi(B_MUL, qx.f, qz.f)), "resize_used/" + tn, [&]
                         { return log + " x " + show<Y>(x); });
            if (!same_jet<Y>(copy, keep))
                R.violation("resize_copy/" + tn, "resizing changed a copy");
            const T p = x.pad_left(n + 2);
            if (!eq(p, embed<Y>(x, n, n + 2, 2), n + 2))
                R.violation("resize_padded/" + tn, log);
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 0
    Test()(Ty<1, double, -1>());
#elif SHARD == 1
    Test()(Ty<2, double, -1>());
#elif SHARD == 2
    Test()(Ty<1, float, -1>());
#elif SHARD == 3
    Test()(Ty<2, float, -1>());
#elif SHARD == 4
    Test()(Ty<1, long double, -1>());
#else
    Test()(Ty<2, long double, -1>());
#endif
    return R.finish();
}
