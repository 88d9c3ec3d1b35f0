// C04: random programs against the quad precision oracle, against finite
// differences of the plain function, and against identity-rewritten programs.
#include "prog.hpp"
using namespace hv;

static Q plain(const Prog &pr, const std::vector<Q> &v)
{
    std::vector<Q> reg = v;
    run_plain(pr, reg);
    return reg[pr.out];
}

// gradient and Hessian by central differences in quad precision
static bool finite_differences(const Prog &pr, const std::vector<double> &vars, QJ &e)
{
    const int n = pr.n;
    std::vector<Q> v(vars.begin(), vars.begin() + n);
    const Q h = Q(1e-8);
    e = QJ(n);
    e.f = plain(pr, v);
    auto at = [&](int i, int a, int j, int b)
    {
        std::vector<Q> w = v;
        w[i] += a * h;
        w[j] += b * h;
        return plain(pr, w);
    };
    for (int i = 0; i < n; i++)
    {
        const Q m2 = at(i, -2, i, 0), m1 = at(i, -1, i, 0), p1 = at(i, 1, i, 0), p2 = at(i, 2, i, 0);
        e.g[i] = (m2 - 8 * m1 + 8 * p1 - p2) / (12 * h);
        e.h(i, i) = (-m2 + 16 * m1 - 30 * e.f + 16 * p1 - p2) / (12 * h * h);
        for (int j = 0; j < i; j++)
            e.h(i, j) = e.h(j, i) = (at(i, 1, j, 1) - at(i, 1, j, -1) - at(i, -1, j, 1) + at(i, -1, j, -1)) / (4 * h * h);
    }
    for (auto q : e.g)
        if (!finiteq(q))
            return false;
    for (auto q : e.H)
        if (!finiteq(q))
            return false;
    return true;
}

// ---- identities: two ways to write the same function of registers a, b

struct Rewrite
{
    const char *name;
    std::function<bool(double, double)> ok;
    std::function<void(std::vector<Instr> &, int a, int b, int next)> lhs, rhs; // the last instruction holds the result
};

static Instr un(int op, int a, int dst, double p = 0)
{
    Instr i;
    i.k = K_UN, i.op = op, i.a = a, i.dst = dst, i.p = p;
    return i;
}
static Instr bi(int op, int a, int b, int dst)
{
    Instr i;
    i.k = K_BIN, i.op = op, i.a = a, i.b = b, i.dst = dst;
    return i;
}
static Instr sc(int op, int a, double s, int dst, int variant = 0)
{
    Instr i;
    i.k = K_SC, i.op = op, i.a = a, i.s = s, i.dst = dst, i.variant = variant;
    return i;
}
static Instr cp(int a, int dst)
{
    Instr i;
    i.k = K_COPY, i.a = a, i.dst = dst;
    return i;
}
static Instr ng(int a, int dst)
{
    Instr i;
    i.k = K_NEG, i.a = a, i.dst = dst;
    return i;
}
static Instr ci(int op, int a, int b)
{
    Instr i;
    i.k = K_CBIN, i.op = op, i.a = a, i.b = b, i.dst = a;
    return i;
}

using C = std::vector<Instr>;
static std::vector<Rewrite> rewrites()
{
    auto pos = [](double a, double)
    { return a > 0.1; };
    auto pos2 = [](double a, double b)
    { return a > 0.1 && b > 0.1; };
    auto any = [](double, double)
    { return true; };
    auto small = [](double a, double)
    { return std::fabs(a) < 0.9; };
    auto med = [](double a, double)
    { return std::fabs(a) < 2; };
    auto bnz = [](double, double b)
    { return std::fabs(b) > 0.1; };
    auto anz = [](double a, double)
    { return std::fabs(a) > 0.1; };
    std::vector<Rewrite> v;
    auto add = [&](const char *n, std::function<bool(double, double)> ok, std::function<void(C &, int, int, int)> l, std::function<void(C &, int, int, int)> r)
    { v.push_back({n, ok, l, r}); };
    add("a-b = a+(-b)", any, [](C &c, int a, int b, int k)
        { c = {bi(B_SUB, a, b, k)}; }, [](C &c, int a, int b, int k)
        { c = {ng(b, k), bi(B_ADD, a, k, k + 1)}; });
    add("(a+b)*a = a*a+b*a", any, [](C &c, int a, int b, int k)
        { c = {bi(B_ADD, a, b, k), bi(B_MUL, k, a, k + 1)}; }, [](C &c, int a, int b, int k)
        { c = {bi(B_MUL, a, a, k), bi(B_MUL, b, a, k + 1), bi(B_ADD, k, k + 1, k + 2)}; });
    add("a/b = a*reciprocal(b)", bnz, [](C &c, int a, int b, int k)
        { c = {bi(B_DIV, a, b, k)}; }, [](C &c, int a, int b, int k)
        { c = {un(U_RECIP, b, k), bi(B_MUL, a, k, k + 1)}; });
    add("(a*b)/b = a", bnz, [](C &c, int a, int b, int k)
        { c = {bi(B_MUL, a, b, k), bi(B_DIV, k, b, k + 1)}; }, [](C &c, int a, int, int k)
        { c = {cp(a, k)}; });
    add("a/b = exp(log a - log b)", pos2, [](C &c, int a, int b, int k)
        { c = {bi(B_DIV, a, b, k)}; }, [](C &c, int a, int b, int k)
        { c = {un(U_LOG, a, k), un(U_LOG, b, k + 1), bi(B_SUB, k, k + 1, k + 2), un(U_EXP, k + 2, k + 3)}; });
    add("sqrt(a)^2 = a", pos, [](C &c, int a, int, int k)
        { c = {un(U_SQRT, a, k), bi(B_MUL, k, k, k + 1)}; }, [](C &c, int a, int, int k)
        { c = {cp(a, k)}; });
    add("cbrt(a)^3 = a", anz, [](C &c, int a, int, int k)
        { c = {un(U_CBRT, a, k), un(U_POW, k, k + 1, 3)}; }, [](C &c, int a, int, int k)
        { c = {cp(a, k)}; });
    add("pow(a,2) = a*a", any, [](C &c, int a, int, int k)
        { c = {un(U_POW, a, k, 2)}; }, [](C &c, int a, int, int k)
        { c = {bi(B_MUL, a, a, k)}; });
    add("pow(a,1) = a", any, [](C &c, int a, int, int k)
        { c = {un(U_POW, a, k, 1)}; }, [](C &c, int a, int, int k)
        { c = {cp(a, k)}; });
    add("pow(a,0.5) = sqrt(a)", pos, [](C &c, int a, int, int k)
        { c = {un(U_POW, a, k, 0.5)}; }, [](C &c, int a, int, int k)
        { c = {un(U_SQRT, a, k)}; });
    add("pow(a,-2) = 1/(a*a)", anz, [](C &c, int a, int, int k)
        { c = {un(U_POW, a, k, -2)}; }, [](C &c, int a, int, int k)
        { c = {bi(B_MUL, a, a, k), sc(B_DIV, k, 1, k + 1, 1)}; });
    add("sin^2+cos^2 = 1 + 0*a", any, [](C &c, int a, int, int k)
        { c = {un(U_SIN, a, k), un(U_COS, a, k + 1), bi(B_MUL, k, k, k + 2), bi(B_MUL, k + 1, k + 1, k + 3), bi(B_ADD, k + 2, k + 3, k + 4)}; }, [](C &c, int a, int, int k)
        { c = {sc(B_MUL, a, 0, k), sc(B_ADD, k, 1, k + 1)}; });
    add("tan = sin/cos", [](double a, double)
        { return std::fabs(a) < 30 && std::fabs(std::cos(a)) > 0.2; }, [](C &c, int a, int, int k)
        { c = {un(U_TAN, a, k)}; }, [](C &c, int a, int, int k)
        { c = {un(U_SIN, a, k), un(U_COS, a, k + 1), bi(B_DIV, k, k + 1, k + 2)}; });
    add("tanh = sinh/cosh", med, [](C &c, int a, int, int k)
        { c = {un(U_TANH, a, k)}; }, [](C &c, int a, int, int k)
        { c = {un(U_SINH, a, k), un(U_COSH, a, k + 1), bi(B_DIV, k, k + 1, k + 2)}; });
    add("sinh = (exp(a)-exp(-a))/2", med, [](C &c, int a, int, int k)
        { c = {un(U_SINH, a, k)}; }, [](C &c, int a, int, int k)
        { c = {un(U_EXP, a, k), ng(a, k + 1), un(U_EXP, k + 1, k + 2), bi(B_SUB, k, k + 2, k + 3), sc(B_DIV, k + 3, 2, k + 4)}; });
    add("cosh^2-sinh^2 = 1 + 0*a", med, [](C &c, int a, int, int k)
        { c = {un(U_COSH, a, k), un(U_SINH, a, k + 1), bi(B_MUL, k, k, k + 2), bi(B_MUL, k + 1, k + 1, k + 3), bi(B_SUB, k + 2, k + 3, k + 4)}; }, [](C &c, int a, int, int k)
        { c = {sc(B_MUL, a, 0, k), sc(B_ADD, k, 1, k + 1)}; });
    add("asinh(sinh(a)) = a", med, [](C &c, int a, int, int k)
        { c = {un(U_SINH, a, k), un(U_ASINH, k, k + 1)}; }, [](C &c, int a, int, int k)
        { c = {cp(a, k)}; });
    add("atanh(tanh(a)) = a", med, [](C &c, int a, int, int k)
        { c = {un(U_TANH, a, k), un(U_ATANH, k, k + 1)}; }, [](C &c, int a, int, int k)
        { c = {cp(a, k)}; });
    add("acosh(cosh(a)) = |a|", [](double a, double)
        { return std::fabs(a) > 0.3 && std::fabs(a) < 2; }, [](C &c, int a, int, int k)
        { c = {un(U_COSH, a, k), un(U_ACOSH, k, k + 1)}; }, [](C &c, int a, int, int k)
        { Instr i; i.k = K_ABS; i.a = a; i.dst = k; c = {i}; });
    add("asin(sin(a)) = a", [](double a, double)
        { return std::fabs(a) < 1.2; }, [](C &c, int a, int, int k)
        { c = {un(U_SIN, a, k), un(U_ASIN, k, k + 1)}; }, [](C &c, int a, int, int k)
        { c = {cp(a, k)}; });
    add("atan(tan(a)) = a", [](double a, double)
        { return std::fabs(a) < 1.2; }, [](C &c, int a, int, int k)
        { c = {un(U_TAN, a, k), un(U_ATAN, k, k + 1)}; }, [](C &c, int a, int, int k)
        { c = {cp(a, k)}; });
    add("asin(a) = pi/2 - acos(a)", small, [](C &c, int a, int, int k)
        { c = {un(U_ASIN, a, k), ng(k, k + 1), sc(B_ADD, k + 1, 1, k + 2)}; }, [](C &c, int a, int, int k)
        { c = {un(U_ACOS, a, k), sc(B_ADD, k, 1, k + 1), sc(B_SUB, k + 1, M_PI_2, k + 2)}; });
    add("hypot = sqrt(a^2+b^2)", [](double a, double b)
        { return a * a + b * b > 0.1; }, [](C &c, int a, int b, int k)
        { c = {bi(B_HYPOT, a, b, k)}; }, [](C &c, int a, int b, int k)
        { c = {bi(B_MUL, a, a, k), bi(B_MUL, b, b, k + 1), bi(B_ADD, k, k + 1, k + 2), un(U_SQRT, k + 2, k + 3)}; });
    add("hypot3(a,b,a) = hypot(hypot(a,b),a)", [](double a, double b)
        { return a * a + b * b > 0.1; }, [](C &c, int a, int b, int k)
        { Instr i; i.k = K_HYP3; i.a = a; i.b = b; i.c = a; i.dst = k; c = {i}; }, [](C &c, int a, int b, int k)
        { c = {bi(B_HYPOT, a, b, k), bi(B_HYPOT, k, a, k + 1)}; });
    add("atan2(a,b) = atan(a/b)", [](double, double b)
        { return b > 0.1; }, [](C &c, int a, int b, int k)
        { c = {bi(B_ATAN2, a, b, k)}; }, [](C &c, int a, int b, int k)
        { c = {bi(B_DIV, a, b, k), un(U_ATAN, k, k + 1)}; });
    add("log(a*b) = log a + log b", pos2, [](C &c, int a, int b, int k)
        { c = {bi(B_MUL, a, b, k), un(U_LOG, k, k + 1)}; }, [](C &c, int a, int b, int k)
        { c = {un(U_LOG, a, k), un(U_LOG, b, k + 1), bi(B_ADD, k, k + 1, k + 2)}; });
    add("log2(a) = log_2(a)", pos, [](C &c, int a, int, int k)
        { c = {un(U_LOG2, a, k)}; }, [](C &c, int a, int, int k)
        { c = {un(U_LOGB, a, k, 2)}; });
    add("log10(a)*log2(10) = log2(a)", pos, [](C &c, int a, int, int k)
        { c = {un(U_LOG10, a, k), un(U_LOGB, a, k + 1, 10), bi(B_SUB, k, k + 1, k + 2), un(U_LOG2, a, k + 3), bi(B_ADD, k + 2, k + 3, k + 4)}; }, [](C &c, int a, int, int k)
        { c = {un(U_LOG2, a, k)}; });
    add("exp(a+b) = exp a exp b", [](double a, double b)
        { return std::fabs(a) < 3 && std::fabs(b) < 3; }, [](C &c, int a, int b, int k)
        { c = {bi(B_ADD, a, b, k), un(U_EXP, k, k + 1)}; }, [](C &c, int a, int b, int k)
        { c = {un(U_EXP, a, k), un(U_EXP, b, k + 1), bi(B_MUL, k, k + 1, k + 2)}; });
    add("a*=b;a+=b;a-=a*b = binary", any, [](C &c, int a, int b, int k)
        { c = {cp(a, k), ci(B_MUL, k, b), ci(B_ADD, k, b), cp(k, k + 1), ci(B_MUL, k + 1, a), ci(B_SUB, k, k + 1), cp(k, k + 2)}; }, [](C &c, int a, int b, int k)
        { c = {bi(B_MUL, a, b, k), bi(B_ADD, k, b, k + 1), bi(B_MUL, k + 1, a, k + 2), bi(B_SUB, k + 1, k + 2, k + 3)}; });
    add("x*=x = x*x", any, [](C &c, int a, int, int k)
        { c = {cp(a, k), ci(B_MUL, k, k), cp(k, k + 1)}; }, [](C &c, int a, int, int k)
        { c = {bi(B_MUL, a, a, k)}; });
    add("2*a = a+a", any, [](C &c, int a, int, int k)
        { c = {sc(B_MUL, a, 2, k, 1)}; }, [](C &c, int a, int, int k)
        { c = {bi(B_ADD, a, a, k)}; });
    add("3-a = -(a-3)", any, [](C &c, int a, int, int k)
        { c = {sc(B_SUB, a, 3, k, 1)}; }, [](C &c, int a, int, int k)
        { c = {sc(B_SUB, a, 3, k), ng(k, k + 1)}; });
    return v;
}

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        const int N = R.n(Y::DYN ? 480 : Y::SIZE < 4 ? 960 : Y::SIZE < 7 ? 480 : Y::SIZE < 13 ? 160 : Y::SIZE < 17 ? 80 : 20);
        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/program/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::DYN ? r.below(r.chance(0.2) ? 20 : 7) : Y::SIZE;
            const std::vector<double> v = gen_vars(n, r);
            const Prog pr = gen_prog(n, v, r, 3 + r.below(r.chance(0.2) ? 40 : 12));
            const std::vector<QJ> seeds = seed_oracle(v, n);
            std::vector<T> reg = seed_jets<Y>(v, n);
            run_prog<T>(pr, reg, n);
            R.seen(hash_str(tn + pr.text()));
            count_prog(pr);
            if (int(reg.size()) != pr.regs)
                continue;
            // the last register and one in the middle
            for (int out : {pr.out, n + r.below(pr.regs - n)})
            {
                const Expect x = expect<S>(pr, seeds, out, r, n > 8 ? 3 : 4);
                if (!x.usable)
                {
                    R.count("ill_conditioned_skipped");
                    continue;
                }
                auto det = [&]
                { return fmt("register %d of %s, variables ", out, pr.text().c_str()) + [&] { std::string s; for (double d : v) s += fmt("%.9g ", d); return s; }(); };
                R.count("programs");
                check_expect<Y>(reg[out], x, iota_map(n), "program/" + tn, det);
                if (n <= 3 && out == pr.out && k < 60)
                    R.sample(tn + " " + pr.text() + " = " + show<Y>(reg[out]));
                // finite differences of the plain function judge the result as well
                if (n > 0 && n <= 5 && out == pr.out && k % 2 == 0)
                {
                    QJ fd;
                    if (!finite_differences(pr, v, fd))
                        continue;
                    Q scale = 1 + qabs(x.e.f);
                    for (auto q : x.e.g)
                        scale += qabs(q);
                    for (auto q : x.e.H)
                        scale += qabs(q);
                    Expect y = x;
                    y.e = fd;
                    const Q extra = Q(1e-7) * scale * scale;
                    if (extra > Q(0.01) * scale)
                        continue;
                    for (auto &t : y.gtol)
                        t += extra;
                    for (auto &t : y.Htol)
                        t += extra;
                    R.count("finite_difference_programs");
                    check_expect<Y>(reg[out], y, iota_map(n), "finite_differences/" + tn, det);
                }
            }
        }
        // identities
        static const std::vector<Rewrite> rw = rewrites();
        for (std::size_t w = 0; w < rw.size(); w++)
            for (int k = 0; k < std::max(1, N / 40); k++)
            {
                if (!R.begin(tn + "/identity" + std::to_string(w) + "/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const int n = Y::DYN ? r.below(r.chance(0.2) ? 20 : 6) : Y::SIZE;
                const std::vector<double> v = gen_vars(n, r);
                Prog pr = gen_prog(n, v, r, 2 + r.below(6), false);
                std::vector<Q> vals(v.begin(), v.begin() + n);
                run_plain(pr, vals);
                int a = -1, b = -1;
                for (int t = 0; t < 40 && a < 0; t++)
                {
                    const int i = r.below(pr.regs), j = r.below(pr.regs);
                    if (std::fabs(double(vals[i])) < 20 && std::fabs(double(vals[j])) < 20 && rw[w].ok(double(vals[i]), double(vals[j])))
                        a = i, b = j;
                }
                if (a < 0)
                    continue;
                T res[2];
                Expect ex[2];
                bool usable = true;
                std::string txt[2];
                for (int side = 0; side < 2; side++)
                {
                    Prog q = pr;
                    C c;
                    (side ? rw[w].rhs : rw[w].lhs)(c, a, b, pr.regs);
                    for (auto &i : c)
                    {
                        q.code.push_back(i);
                        if (i.k != K_CBIN && i.k != K_CSC)
                            q.regs++;
                    }
                    q.out = q.regs - 1;
                    std::vector<T> reg = seed_jets<Y>(v, n);
                    run_prog<T>(q, reg, n);
                    res[side] = reg[q.out];
                    ex[side] = expect<S>(q, seed_oracle(v, n), q.out, r, 3);
                    usable = usable && ex[side].usable;
                    txt[side] = q.text();
                }
                if (!usable)
                {
                    R.count("ill_conditioned_skipped");
                    continue;
                }
                R.evals++;
                R.count("identities");
                R.seen(hash_str(tn + txt[0] + txt[1]));
                bool ok = res[0].size() == res[1].size() && res[0].data_length() == Y::len(n) && res[1].data_length() == Y::len(n);
                const S *p = res[0].ptr(), *q = res[1].ptr();
                auto close = [&](S x, S y, Q t0, Q t1)
                { return qabs(Q(x) - Q(y)) <= t0 + t1; };
                ok = ok && close(p[0], q[0], ex[0].ftol, ex[1].ftol + Q(1e-15));
                for (int i = 0; ok && i < n; i++)
                    ok = close(p[1 + i], q[1 + i], ex[0].gtol[i], ex[1].gtol[i]);
                int m = 1 + n;
                if (Y::ORDER == 2)
                    for (int i = 0; ok && i < n; i++)
                        for (int j = i; ok && j < n; j++, m++)
                            ok = close(p[m], q[m], ex[0].Htol[i * n + j], ex[1].Htol[i * n + j]);
                if (!ok)
                    R.violation(fmt("identity %s/", rw[w].name) + tn, show<Y>(res[0]) + "\n  differs from " + show<Y>(res[1]) + "\n  " + txt[0] + "\n  " + txt[1]);
            }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    return R.finish();
}
