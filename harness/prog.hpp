// Random straight-line programs over jets, their evaluation with any jet type,
// with the quad precision oracle (exact or with simulated rounding), and with
// plain quad numbers for finite differences.
#pragma once
#include "common.hpp"

namespace hv
{

enum Kind
{
    K_UN,     // r = phi(a)
    K_BIN,    // r = a op b
    K_SC,     // r = a op s or s op a
    K_NEG,    // r = -a
    K_HYP3,   // r = hypot(a, b, c)
    K_CONST,  // r = constant
    K_COPY,   // r = a
    K_CBIN,   // a op= b   (in place, writes register a)
    K_CSC,    // a op= s
    K_ABS,    // r = abs(a)
    K_COUNT
};

struct Instr
{
    Kind k;
    int op = 0, a = 0, b = 0, c = 0, variant = 0;
    double s = 0, p = 0;
    int dst = 0; // register written
};

struct Prog
{
    int n = 0; // registers 0..n-1 are the variables
    std::vector<Instr> code;
    int regs = 0;
    int out = 0;
    std::string text() const
    {
        std::string t = fmt("n=%d ", n);
        for (auto &i : code)
        {
            switch (i.k)
            {
            case K_UN:
                t += fmt("r%d=%s(r%d", i.dst, U_NAME[i.op], i.a) + (i.op == U_POW || i.op == U_LOGB ? fmt(",%.17g", i.p) : "") + (i.variant ? ")f; " : ")m; ");
                break;
            case K_BIN:
                t += fmt("r%d=%s(r%d,r%d); ", i.dst, B_NAME[i.op], i.a, i.b);
                break;
            case K_SC:
                t += i.variant ? fmt("r%d=%s(%.9g,r%d); ", i.dst, B_NAME[i.op], i.s, i.a) : fmt("r%d=%s(r%d,%.9g); ", i.dst, B_NAME[i.op], i.a, i.s);
                break;
            case K_NEG:
                t += fmt("r%d=-r%d; ", i.dst, i.a);
                break;
            case K_HYP3:
                t += fmt("r%d=hypot(r%d,r%d,r%d); ", i.dst, i.a, i.b, i.c);
                break;
            case K_CONST:
                t += fmt("r%d=%.9g; ", i.dst, i.s);
                break;
            case K_COPY:
                t += fmt("r%d=r%d; ", i.dst, i.a);
                break;
            case K_CBIN:
                t += fmt("r%d %s= r%d; ", i.a, B_NAME[i.op], i.b);
                break;
            case K_CSC:
                t += fmt("r%d %s= %.9g; ", i.a, B_NAME[i.op], i.s);
                break;
            case K_ABS:
                t += fmt("r%d=abs(r%d); ", i.dst, i.a);
                break;
            default:
                break;
            }
        }
        return t + fmt("-> r%d", out);
    }
};

// ---- evaluation with a jet type

template <class T, class S>
T const_jet(double s, int n)
{
    return T::constant(S(s), n);
}

template <class T>
T &compound(int op, T &x, const T &y)
{
    switch (op)
    {
    case B_ADD:
        return x += y;
    case B_SUB:
        return x -= y;
    case B_MUL:
        return x *= y;
    default:
        return x /= y;
    }
}
template <class T, class S>
T &compound_s(int op, T &x, S y)
{
    switch (op)
    {
    case B_ADD:
        return x += y;
    case B_SUB:
        return x -= y;
    case B_MUL:
        return x *= y;
    default:
        return x /= y;
    }
}

template <class T>
void run_prog(const Prog &pr, std::vector<T> &reg, int size, const std::function<void(const Instr &)> &before = nullptr)
{
    using S = typename T::Scalar;
    reg.reserve(pr.regs);
    for (auto &i : pr.code)
    {
        if (before)
            before(i);
        switch (i.k)
        {
        case K_UN:
            reg.push_back(i.variant && has_free(i.op) ? u_free(i.op, reg[i.a], i.p) : u_member(i.op, reg[i.a], i.p));
            break;
        case K_BIN:
            reg.push_back(b_op(i.op, reg[i.a], reg[i.b], i.variant));
            break;
        case K_SC:
            reg.push_back(s_op(i.op, i.variant, reg[i.a], S(i.s)));
            break;
        case K_NEG:
            reg.push_back(-reg[i.a]);
            break;
        case K_HYP3:
            reg.push_back(T::hypot(reg[i.a], reg[i.b], reg[i.c]));
            break;
        case K_CONST:
            reg.push_back(T::constant(S(i.s), size));
            break;
        case K_COPY:
            reg.push_back(reg[i.a]);
            break;
        case K_CBIN:
            compound(i.op, reg[i.a], reg[i.b]);
            break;
        case K_CSC:
            compound_s(i.op, reg[i.a], S(i.s));
            break;
        case K_ABS:
            reg.push_back(i.variant ? abs(reg[i.a]) : reg[i.a].abs());
            break;
        default:
            break;
        }
    }
}

// ---- evaluation with the oracle; eps > 0 simulates rounding of every
// component of every intermediate result with random errors

inline void perturb(QJ &j, Q eps, Rng &r)
{
    auto e = [&]
    { return eps * Q(r.sgn() * r.U(0.5, 1)); };
    j.f += e() * j.fm;
    for (int i = 0; i < j.n; i++)
    {
        j.g[i] += e() * j.gm[i];
        for (int k = i; k < j.n; k++)
        {
            j.h(i, k) += e() * j.Hm[i * j.n + k];
            j.h(k, i) = j.h(i, k);
        }
    }
}

inline void run_oracle(const Prog &pr, std::vector<QJ> &reg, Q eps, Rng &r)
{
    const int n = reg.empty() ? 0 : reg[0].n;
    (void)n;
    auto push = [&](QJ j)
    {
        if (eps > 0)
            perturb(j, eps, r);
        reg.push_back(std::move(j));
    };
    const int sz = pr.regs; // unused registers never appear
    (void)sz;
    for (auto &i : pr.code)
    {
        const int m = i.k == K_CONST ? (reg.empty() ? pr.n : reg[0].n) : reg[i.a].n;
        QJ s(m);
        s.f = Q(i.s);
        switch (i.k)
        {
        case K_UN:
            push(chain1(reg[i.a], phi(i.op, reg[i.a].f, Q(i.p))));
            break;
        case K_BIN:
            push(chaink({&reg[i.a], &reg[i.b]}, psi(i.op, reg[i.a].f, reg[i.b].f)));
            break;
        case K_SC:
            push(i.variant == 0 ? chaink({&reg[i.a], &s}, psi(i.op, reg[i.a].f, s.f)) : chaink({&s, &reg[i.a]}, psi(i.op, s.f, reg[i.a].f)));
            break;
        case K_NEG:
        case K_ABS:
        {
            QJ j = reg[i.a];
            if (i.k == K_NEG || j.f < 0)
            {
                j.f = -j.f;
                for (auto &v : j.g)
                    v = -v;
                for (auto &v : j.H)
                    v = -v;
            }
            reg.push_back(j);
            break;
        }
        case K_HYP3:
            push(chaink({&reg[i.a], &reg[i.b], &reg[i.c]}, psi3(reg[i.a].f, reg[i.b].f, reg[i.c].f)));
            break;
        case K_CONST:
            s.exact();
            reg.push_back(s);
            break;
        case K_COPY:
            reg.push_back(QJ(reg[i.a]));
            break;
        case K_CBIN:
        {
            QJ j = chaink({&reg[i.a], &reg[i.b]}, psi(i.op, reg[i.a].f, reg[i.b].f));
            if (eps > 0)
                perturb(j, eps, r);
            reg[i.a] = std::move(j);
            break;
        }
        case K_CSC:
        {
            QJ j = chaink({&reg[i.a], &s}, psi(i.op, reg[i.a].f, s.f));
            if (eps > 0)
                perturb(j, eps, r);
            reg[i.a] = std::move(j);
            break;
        }
        default:
            break;
        }
    }
}

// ---- plain values

inline Q bin_value(int op, Q a, Q b) { return psi(op, a, b).f; }

inline void run_plain(const Prog &pr, std::vector<Q> &reg)
{
    for (auto &i : pr.code)
        switch (i.k)
        {
        case K_UN:
            reg.push_back(phi0(i.op, reg[i.a], Q(i.p)));
            break;
        case K_BIN:
            reg.push_back(bin_value(i.op, reg[i.a], reg[i.b]));
            break;
        case K_SC:
            reg.push_back(i.variant == 0 ? bin_value(i.op, reg[i.a], Q(i.s)) : bin_value(i.op, Q(i.s), reg[i.a]));
            break;
        case K_NEG:
            reg.push_back(-reg[i.a]);
            break;
        case K_ABS:
            reg.push_back(qabs(reg[i.a]));
            break;
        case K_HYP3:
            reg.push_back(psi3(reg[i.a], reg[i.b], reg[i.c]).f);
            break;
        case K_CONST:
            reg.push_back(Q(i.s));
            break;
        case K_COPY:
            reg.push_back(Q(reg[i.a]));
            break;
        case K_CBIN:
            reg[i.a] = bin_value(i.op, reg[i.a], reg[i.b]);
            break;
        case K_CSC:
            reg[i.a] = bin_value(i.op, reg[i.a], Q(i.s));
            break;
        default:
            break;
        }
}

// ---- generation

inline double f32(double v) { return double(float(v)); }

// is the value well inside the domain of a smooth branch of phi?
inline bool in_domain(int op, double x, double p)
{
    const double ax = std::fabs(x);
    switch (op)
    {
    case U_SQRT:
    case U_LOG:
    case U_LOG2:
    case U_LOG10:
    case U_LOGB:
        return x > 0.05;
    case U_CBRT:
    case U_RECIP:
        return ax > 0.1;
    case U_POW:
        if (p == std::floor(p) && p >= 0)
            return ax < 8;
        if (p == std::floor(p))
            return ax > 0.2 && ax < 8;
        return x > 0.1 && x < 50;
    case U_COS:
    case U_SIN:
        return ax < 30;
    case U_TAN:
        return ax < 30 && std::fabs(std::cos(x)) > 0.2;
    case U_ACOS:
    case U_ASIN:
    case U_ATANH:
        return ax < 0.93;
    case U_COSH:
    case U_SINH:
    case U_EXP:
        return ax < 4;
    case U_TANH:
        return ax < 3;
    case U_ACOSH:
        return x > 1.1;
    default:
        return true;
    }
}

inline Prog gen_prog(int n, const std::vector<double> &vars, Rng &r, int len, bool inplace = true)
{
    Prog pr;
    pr.n = n;
    std::vector<double> v(vars.begin(), vars.begin() + n);
    bool integers = true; // constants as special as the variables
    for (double x : v)
        integers = integers && 2 * x == std::floor(2 * x);
    auto constant = [&](double h)
    { return integers ? r.pick({1.0, 1.0, -1.0, 2.0, 0.5, 0.0, -2.0}) : f32(r.U(-h, h)); };
    auto emit = [&](Instr i, double val, bool in_place)
    {
        if (!std::isfinite(val) || std::fabs(val) > 50)
            return false;
        if (in_place)
            v[i.a] = val, i.dst = i.a;
        else
            i.dst = int(v.size()), v.push_back(val);
        pr.code.push_back(i);
        return true;
    };
    if (n == 0 || r.chance(0.2))
    {
        Instr i;
        i.k = K_CONST, i.s = constant(2);
        emit(i, i.s, false);
    }
    auto reg = [&]
    {
        // recent registers are more likely, so that programs get deep
        const int m = int(v.size());
        return r.chance(0.5) ? m - 1 - r.below(std::min(3, m)) : r.below(m);
    };
    int guard = 0;
    while (int(pr.code.size()) < len && guard++ < 60 * len)
    {
        Instr i;
        const int w = r.below(100);
        i.a = reg(), i.b = reg(), i.c = reg();
        i.variant = r.below(2);
        const double a = v[i.a], b = v[i.b], c = v[i.c];
        if (w < 34)
        {
            i.k = K_UN, i.op = r.below(U_COUNT);
            if (i.op == U_POW)
                i.p = r.pick({0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, -1.0, -2.0, -3.0, -4.0, 0.5, 1.5, -0.5, 2.5, 0.25, 1.75, 1.0 / 3});
            if (i.op == U_LOGB)
                i.p = r.pick({2.0, 10.0, 0.5, 3.0, 7.5});
            if (!in_domain(i.op, a, i.p))
                continue;
            emit(i, double(phi0(i.op, a, i.p)), false);
        }
        else if (w < 64)
        {
            i.k = K_BIN, i.op = r.pick({0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 5});
            if (i.op == B_DIV && std::fabs(b) < 0.1)
                continue;
            if (i.op == B_ATAN2 && (a * a + b * b < 0.05 || (std::fabs(a) < 0.05 && b < 0)))
                continue;
            if (i.op == B_HYPOT && a * a + b * b < 0.05)
                continue;
            emit(i, double(bin_value(i.op, a, b)), false);
        }
        else if (w < 76)
        {
            i.k = K_SC, i.op = r.below(4);
            i.s = r.chance(0.3) ? double(r.below(5) - 2) : constant(3);
            if (i.op == B_DIV && i.variant == 0 && std::fabs(i.s) < 0.1)
                continue;
            if (i.op == B_DIV && i.variant == 1 && std::fabs(a) < 0.1)
                continue;
            emit(i, double(i.variant == 0 ? bin_value(i.op, a, i.s) : bin_value(i.op, i.s, a)), false);
        }
        else if (w < 80)
        {
            i.k = K_NEG;
            emit(i, -a, false);
        }
        else if (w < 83)
        {
            i.k = K_HYP3;
            if (a * a + b * b + c * c < 0.05)
                continue;
            emit(i, std::sqrt(a * a + b * b + c * c), false);
        }
        else if (w < 85)
        {
            i.k = K_CONST, i.s = constant(2);
            emit(i, i.s, false);
        }
        else if (w < 86)
        {
            i.k = K_COPY;
            emit(i, a, false);
        }
        else if (w < 88)
        {
            i.k = K_ABS;
            if (std::fabs(a) < 0.01)
                continue;
            emit(i, std::fabs(a), false);
        }
        else if (w < 95)
        {
            if (!inplace || i.a < n)
                continue; // keep the variables themselves
            i.k = K_CBIN, i.op = r.below(4);
            if (i.op == B_DIV && std::fabs(b) < 0.1)
                continue;
            emit(i, double(bin_value(i.op, a, b)), true);
        }
        else
        {
            if (!inplace || i.a < n)
                continue;
            i.k = K_CSC, i.op = r.below(4), i.s = constant(3);
            if (i.op == B_DIV && std::fabs(i.s) < 0.1)
                continue;
            emit(i, double(bin_value(i.op, a, i.s)), true);
        }
    }
    pr.regs = int(v.size());
    pr.out = pr.regs - 1;
    return pr;
}

inline std::vector<double> gen_vars(int n, Rng &r)
{
    std::vector<double> v;
    if (r.chance(0.3)) // only special values, so that intermediates meet them as well
    {
        for (int i = 0; i < n; i++)
            v.push_back(r.pick({0.0, 1.0, 1.0, -1.0, 2.0, 0.5, -2.0}));
        return v;
    }
    for (int i = 0; i < n; i++)
    {
        double x = r.chance(0.15) ? r.pick({1.0, 2.0, 0.5, -1.0, -0.5, 1.5, 3.0}) : f32(r.U(-2.5, 2.5));
        if (std::fabs(x) < 0.02)
            x = 0.25;
        v.push_back(x);
    }
    return v;
}

inline std::vector<QJ> seed_oracle(const std::vector<double> &v, int n)
{
    std::vector<QJ> reg;
    for (int i = 0; i < n; i++)
    {
        QJ j(n);
        j.f = Q(v[i]);
        j.g[i] = 1;
        j.exact();
        reg.push_back(j);
    }
    return reg;
}

// expected result and, per component, a bound on what accumulated rounding may
// do to a correct evaluation: deviations caused by simulated rounding errors of
// 64 machine epsilons at every step, times 16
struct Expect
{
    QJ e;
    bool usable = true;
    Q ftol = 0;
    std::vector<Q> gtol, Htol;
};

template <class S>
Expect expect(const Prog &pr, const std::vector<QJ> &seeds, int out, Rng &r, int runs = 4)
{
    Expect x;
    std::vector<QJ> reg = seeds;
    run_oracle(pr, reg, 0, r);
    x.e = reg[out];
    const int n = x.e.n;
    x.gtol.assign(n, 0);
    x.Htol.assign(n * n, 0);
    const Q eps = Lim<S>::eps;
    Q devmax = 0;
    for (int k = 0; k < runs; k++)
    {
        std::vector<QJ> pg = seeds;
        run_oracle(pr, pg, 64 * eps, r);
        const QJ &p = pg[out];
        x.ftol = std::max(x.ftol, qabs(p.f - x.e.f));
        for (int i = 0; i < n; i++)
        {
            x.gtol[i] = std::max(x.gtol[i], qabs(p.g[i] - x.e.g[i]));
            for (int j = 0; j < n; j++)
                x.Htol[i * n + j] = std::max(x.Htol[i * n + j], qabs(p.h(i, j) - x.e.h(i, j)));
        }
    }
    auto fin = [&](Q &t, Q e, Q m)
    {
        t = 16 * t + 1024 * eps * (qabs(e) + m) + Lim<S>::minv * Q(1e6);
        if (!finiteq(t) || !finiteq(e) || qabs(e) > Q(1e15) || t > Q(0.05) * (1 + qabs(e)))
            x.usable = false;
        devmax = std::max(devmax, t);
    };
    fin(x.ftol, x.e.f, x.e.fm);
    for (int i = 0; i < n; i++)
    {
        fin(x.gtol[i], x.e.g[i], x.e.gm[i]);
        for (int j = 0; j < n; j++)
            fin(x.Htol[i * n + j], x.e.h(i, j), x.e.Hm[i * n + j]);
    }
    return x;
}

// compares a jet with an expectation; map[i] is the variable of the expectation
// that variable i of the jet stands for
template <class Y, class D>
bool check_expect(const typename Y::T &r, const Expect &x, const std::vector<int> &map, const std::string &key, D &&detail)
{
    using S = typename Y::Scalar;
    const int m = int(map.size());
    R.evals++;
    auto bad = [&](const std::string &what, const std::string &txt)
    {
        R.violation(key + "/" + what, txt + "\n  result " + show<Y>(r) + "\n  " + detail());
        return false;
    };
    if (r.size() != m || r.data_length() != Y::len(m))
        return bad("size", fmt("size %ld, data length %ld, expected size %d", long(r.size()), long(r.data_length()), m));
    const S *p = r.ptr();
    auto far = [](S got, Q e, Q t)
    { return !(qabs(Q(got) - e) <= t); };
    if (far(p[0], x.e.f, x.ftol))
        return bad("f", "f = " + ss(p[0]) + ", expected " + qs(x.e.f) + " +- " + qs(x.ftol));
    for (int i = 0; i < m; i++)
        if (far(p[1 + i], x.e.g[map[i]], x.gtol[map[i]]))
            return bad("g", fmt("g[%d] = ", i) + ss(p[1 + i]) + ", expected " + qs(x.e.g[map[i]]) + " +- " + qs(x.gtol[map[i]]));
    R.count("components_checked", u64(1 + m));
    if constexpr (Y::ORDER == 2)
    {
        int k = 1 + m;
        for (int i = 0; i < m; i++)
            for (int j = i; j < m; j++, k++)
            {
                const Q e = x.e.h(map[i], map[j]), t = x.Htol[map[i] * x.e.n + map[j]];
                if (far(p[k], e, t))
                    return bad("h", fmt("h[%d,%d] = ", i, j) + ss(p[k]) + ", expected " + qs(e) + " +- " + qs(t));
            }
        R.count("components_checked", u64(k - 1 - m));
    }
    return true;
}

inline std::vector<int> iota_map(int n)
{
    std::vector<int> m(n);
    for (int i = 0; i < n; i++)
        m[i] = i;
    return m;
}

template <class Y>
std::vector<typename Y::T> seed_jets(const std::vector<double> &v, int n)
{
    std::vector<typename Y::T> reg;
    for (int i = 0; i < n; i++)
        reg.push_back(Y::T::variable(i, typename Y::Scalar(v[i]), n));
    return reg;
}

inline void count_prog(const Prog &pr)
{
    for (auto &i : pr.code)
        R.count(i.k == K_UN ? std::string("use_") + U_NAME[i.op] : i.k == K_BIN ? std::string("use_") + B_NAME[i.op]
                                                               : i.k == K_SC    ? "use_scalar_op"
                                                               : i.k == K_NEG   ? "use_neg"
                                                               : i.k == K_HYP3  ? "use_hypot3"
                                                               : i.k == K_CBIN  ? "use_compound"
                                                               : i.k == K_CSC   ? "use_compound_scalar"
                                                               : i.k == K_ABS   ? "use_abs"
                                                                                : "use_constant_or_copy");
}

} // namespace hv
