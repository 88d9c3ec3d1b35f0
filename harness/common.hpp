// Common machinery of the C++ monitors: deterministic case generation, an
// independent quad precision oracle for jets, result checkers and reporting.
// Only the public API of hyperjet is used to build inputs and observe results.
#pragma once

#ifndef HV_NO_EIGEN
#include <Eigen/Dense>
#endif
#include <hyperjet/hyperjet.h>

#include <quadmath.h>

#include <algorithm>
#include <array>
#include <cfloat>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace hv
{

using Q = __float128;
using u64 = std::uint64_t;
using Ix = hyperjet::index;

// ---------------------------------------------------------------- utilities

inline u64 mix(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline u64 hash_bytes(const void *p, std::size_t n, u64 h = 1469598103934665603ull)
{
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 1099511628211ull;
    return mix(h);
}

inline u64 hash_str(const std::string &s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

struct Rng
{
    u64 s = 1;
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    int below(int n) { return n <= 0 ? 0 : int(next() % u64(n)); }
    bool chance(double p) { return u01() < p; }
    double U(double a, double b) { return a + (b - a) * u01(); }
    double logU(double lo, double hi) { return std::exp(U(std::log(lo), std::log(hi))); }
    double sgn() { return (next() & 1) ? 1.0 : -1.0; }
    template <class C>
    auto pick(const C &c) { return *(c.begin() + below(int(c.size()))); }
    template <class V>
    V pick(std::initializer_list<V> c) { return *(c.begin() + below(int(c.size()))); }
};

inline std::string fmt(const char *f, ...)
{
    char b[2048];
    va_list a;
    va_start(a, f);
    std::vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

inline std::string qs(Q v)
{
    char b[80];
    quadmath_snprintf(b, sizeof b, "%.24Qg", v);
    return b;
}
template <class S>
std::string ss(S v) { return qs(Q(v)); }

// ---------------------------------------------------------------- the run

struct Run
{
    u64 seed = 1;
    bool thorough = false;
    double scale = 1;
    std::string only, json, casefile;
    std::map<std::string, u64> counters;
    std::map<std::string, std::string> digests; // what has to be equal in all configurations
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> viols;
    u64 nviol = 0;
    u64 evals = 0;
    char *casebuf = nullptr;
    static constexpr int CASELEN = 8192;
    std::string cur;
    Rng rng;

    int n(int k) const { return std::max(1, int(k * scale)); }

    void init(int argc, char **argv)
    {
        for (int i = 1; i + 1 < argc; i += 2)
        {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--seed")
                seed = std::strtoull(v.c_str(), nullptr, 10);
            else if (a == "--tier")
                thorough = v == "thorough";
            else if (a == "--scale")
                scale = std::atof(v.c_str());
            else if (a == "--only")
                only = v;
            else if (a == "--json")
                json = v;
            else if (a == "--case")
                casefile = v;
        }
        static char fallback[CASELEN];
        casebuf = fallback;
        if (!casefile.empty())
        {
            int fd = open(casefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0)
            {
                if (ftruncate(fd, CASELEN) == 0)
                {
                    void *m = mmap(nullptr, CASELEN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                    if (m != MAP_FAILED)
                        casebuf = static_cast<char *>(m);
                }
                close(fd);
            }
        }
        std::setvbuf(stdout, nullptr, _IONBF, 0);
    }

    // Starts a case. Every case draws from its own generator, so that it can be
    // replayed alone with --only <id>.
    bool begin(const std::string &id)
    {
        if (nviol >= 40)
            return false;
        if (!only.empty() && only != id)
            return false;
        cur = id;
        rng.s = mix(seed) ^ hash_str(id);
        std::snprintf(casebuf, CASELEN, "%s", id.c_str());
        return true;
    }
    void step(const std::string &what) { std::snprintf(casebuf, CASELEN, "%s :: %s", cur.c_str(), what.c_str()); }

    void count(const std::string &k, u64 d = 1) { counters[k] += d; }
    void seen(u64 h) { distinct.insert(h); }
    void sample(const std::string &s)
    {
        if (samples.size() < 6)
            samples.push_back(s);
    }
    // key: stable description of what failed (used for known findings)
    void violation(const std::string &key, const std::string &detail)
    {
        nviol++;
        if (viols.size() < 12)
        {
            viols.emplace_back(key, "case " + cur + "\n" + detail);
            std::printf("MISMATCH %s\n  case %s\n  %s\n", key.c_str(), cur.c_str(), detail.c_str());
        }
    }

    static std::string esc(const std::string &s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += char(c);
            }
            else if (c == '\n')
                r += "\\n";
            else if (c < 32 || c > 126)
                r += fmt("\\u%04x", c);
            else
                r += char(c);
        }
        return r;
    }

    int finish()
    {
        if (!json.empty())
        {
            std::string o = "{\"evaluations\":" + std::to_string(evals) + ",\"counters\":{";
            bool first = true;
            for (auto &c : counters)
            {
                o += (first ? "" : ",") + ("\"" + esc(c.first) + "\":" + std::to_string(c.second));
                first = false;
            }
            o += "},\"distinct\":" + std::to_string(distinct.size()) + ",\"samples\":[";
            first = true;
            for (auto &s : samples)
            {
                o += (first ? "\"" : ",\"") + esc(s) + "\"";
                first = false;
            }
            o += "],\"digests\":{";
            first = true;
            for (auto &d : digests)
            {
                o += (first ? "\"" : ",\"") + esc(d.first) + "\":\"" + esc(d.second) + "\"";
                first = false;
            }
            o += "},\"nviol\":" + std::to_string(nviol) + ",\"violations\":[";
            first = true;
            for (auto &v : viols)
            {
                o += (first ? "[\"" : ",[\"") + esc(v.first) + "\",\"" + esc(v.second) + "\"]";
                first = false;
            }
            o += "]}\n";
            FILE *f = std::fopen(json.c_str(), "w");
            if (!f)
                return 3;
            std::fwrite(o.data(), 1, o.size(), f);
            std::fclose(f);
        }
        return 0;
    }
};

inline Run R;

// ---------------------------------------------------------------- jet types

template <int O, class S, int N>
struct Ty
{
    using T = hyperjet::DDScalar<O, S, N>;
    using Scalar = S;
    static constexpr int ORDER = O;
    static constexpr int SIZE = N;
    static constexpr bool DYN = N < 0;
    static std::string name()
    {
        const char *s = std::is_same_v<S, double> ? "double" : std::is_same_v<S, float> ? "float"
                                                                                         : "ldouble";
        return fmt("DD<%d;%s;%s>", O, s, N < 0 ? "dyn" : std::to_string(N).c_str());
    }
    static Ix len(Ix n) { return O == 1 ? 1 + n : (n + 1) * (n + 2) / 2; }
    // number of variables of a case
    static int size(Rng &r)
    {
        if constexpr (N >= 0)
            return N;
        int k = r.below(20);
        if (k < 12)
            return r.below(6);
        if (k < 18)
            return r.below(21);
        if (r.chance(0.03)) // rarely very large
            return int(r.logU(O == 1 ? 80 : 34, O == 1 ? 1100 : 300));
        return r.below(O == 1 ? 80 : 34);
    }
};

template <class S>
struct Lim
{
    static constexpr Q eps = std::numeric_limits<S>::epsilon();
    static constexpr Q minv = std::numeric_limits<S>::min();
    static constexpr Q maxv = std::numeric_limits<S>::max();
};
template <class S>
inline bool is_float = std::is_same_v<S, float>;

// ---------------------------------------------------------------- the oracle

inline Q qabs(Q x) { return x < 0 ? -x : x; }

// value, gradient, full Hessian; m* are the sums of the magnitudes of the terms
// of the last operation, which scale the rounding error a correct
// implementation may make
struct QJ
{
    int n = 0;
    Q f = 0, fm = 0;
    std::vector<Q> g, gm, H, Hm;
    explicit QJ(int n_ = 0) : n(n_), g(n_, 0), gm(n_, 0), H(n_ * n_, 0), Hm(n_ * n_, 0) {}
    Q &h(int i, int j) { return H[i * n + j]; }
    Q h(int i, int j) const { return H[i * n + j]; }
    void exact()
    {
        fm = qabs(f);
        for (int i = 0; i < n; i++)
            gm[i] = qabs(g[i]);
        for (int i = 0; i < n * n; i++)
            Hm[i] = qabs(H[i]);
    }
};

struct D1
{
    Q f, d, dd;
    Q fm = -1, dm = -1, ddm = -1;
    void fill()
    {
        if (fm < 0)
            fm = qabs(f);
        if (dm < 0)
            dm = qabs(d);
        if (ddm < 0)
            ddm = qabs(dd);
    }
};

inline QJ chain1(const QJ &a, D1 p)
{
    p.fill();
    QJ r(a.n);
    r.f = p.f;
    r.fm = p.fm;
    for (int i = 0; i < a.n; i++)
    {
        r.g[i] = p.d * a.g[i];
        r.gm[i] = p.dm * qabs(a.g[i]);
    }
    for (int i = 0; i < a.n; i++)
        for (int j = 0; j < a.n; j++)
        {
            r.h(i, j) = p.d * a.h(i, j) + p.dd * a.g[i] * a.g[j];
            r.Hm[i * a.n + j] = p.dm * qabs(a.h(i, j)) + p.ddm * qabs(a.g[i] * a.g[j]);
        }
    return r;
}

// function of k arguments: first partials d[k], second partials dd[k][k]
struct DK
{
    int k = 0;
    Q f = 0, fm = -1;
    Q d[3] = {0, 0, 0}, dm[3] = {-1, -1, -1};
    Q dd[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, ddm[3][3] = {{-1, -1, -1}, {-1, -1, -1}, {-1, -1, -1}};
    void fill()
    {
        if (fm < 0)
            fm = qabs(f);
        for (int i = 0; i < k; i++)
        {
            if (dm[i] < 0)
                dm[i] = qabs(d[i]);
            for (int j = 0; j < k; j++)
                if (ddm[i][j] < 0)
                    ddm[i][j] = qabs(dd[i][j]);
        }
    }
};

inline QJ chaink(std::initializer_list<const QJ *> args, DK p)
{
    p.fill();
    const QJ *a[3];
    int k = 0;
    for (auto x : args)
        a[k++] = x;
    const int n = a[0]->n;
    QJ r(n);
    r.f = p.f;
    r.fm = p.fm;
    for (int i = 0; i < n; i++)
        for (int u = 0; u < k; u++)
        {
            r.g[i] += p.d[u] * a[u]->g[i];
            r.gm[i] += p.dm[u] * qabs(a[u]->g[i]);
        }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            for (int u = 0; u < k; u++)
            {
                r.H[i * n + j] += p.d[u] * a[u]->h(i, j);
                r.Hm[i * n + j] += p.dm[u] * qabs(a[u]->h(i, j));
                for (int v = 0; v < k; v++)
                {
                    r.H[i * n + j] += p.dd[u][v] * a[u]->g[i] * a[v]->g[j];
                    r.Hm[i * n + j] += p.ddm[u][v] * qabs(a[u]->g[i] * a[v]->g[j]);
                }
            }
    return r;
}

// ---- unary functions

enum U
{
    U_SQRT,
    U_CBRT,
    U_RECIP,
    U_POW,
    U_COS,
    U_SIN,
    U_TAN,
    U_ACOS,
    U_ASIN,
    U_ATAN,
    U_COSH,
    U_SINH,
    U_TANH,
    U_ACOSH,
    U_ASINH,
    U_ATANH,
    U_EXP,
    U_LOG,
    U_LOGB,
    U_LOG2,
    U_LOG10,
    U_COUNT
};
inline const char *const U_NAME[] = {"sqrt", "cbrt", "reciprocal", "pow", "cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "exp", "log", "log_base", "log2", "log10"};

inline Q powi(Q x, Q p)
{
    // powq is not exact for integer exponents of negative numbers in all versions
    if (p == floorq(p) && qabs(p) <= 64)
    {
        int e = int(qabs(p));
        Q r = 1, b = x;
        while (e)
        {
            if (e & 1)
                r *= b;
            b *= b;
            e >>= 1;
        }
        return p < 0 ? 1 / r : r;
    }
    return powq(x, p);
}

// closed forms of value, first and second derivative
inline D1 phi(int op, Q x, Q p)
{
    D1 r;
    switch (op)
    {
    case U_SQRT:
        r.f = sqrtq(x), r.d = Q(0.5) / r.f, r.dd = Q(-0.25) / (r.f * x);
        break;
    case U_CBRT:
        r.f = cbrtq(x), r.d = r.f / (3 * x), r.dd = -2 * r.f / (9 * x * x);
        break;
    case U_RECIP:
        r.f = 1 / x, r.d = -1 / (x * x), r.dd = 2 / (x * x * x);
        break;
    case U_POW:
        r.f = powi(x, p);
        r.d = p == 0 ? Q(0) : p * powi(x, p - 1);
        r.dd = (p == 0 || p == 1) ? Q(0) : p * (p - 1) * powi(x, p - 2);
        if (x != 0)
        {
            // the exponents p - 1 and p - 2 are rounded in the type of the exponent
            const Q l = 1 + 4 * qabs(logq(qabs(x)));
            r.dm = l * qabs(r.d), r.ddm = l * qabs(r.dd);
        }
        break;
    case U_COS:
        r.f = cosq(x), r.d = -sinq(x), r.dd = -cosq(x);
        break;
    case U_SIN:
        r.f = sinq(x), r.d = cosq(x), r.dd = -sinq(x);
        break;
    case U_TAN:
    {
        const Q c = cosq(x);
        r.f = tanq(x), r.d = 1 / (c * c), r.dd = 2 * sinq(x) / (c * c * c);
        break;
    }
    case U_ACOS:
    case U_ASIN:
    {
        const Q w = (1 - x) * (1 + x), k = 1 / w, q = sqrtq(w);
        const Q sg = op == U_ASIN ? 1 : -1;
        r.f = op == U_ASIN ? asinq(x) : acosq(x);
        r.d = sg / q, r.dd = sg * x / (w * q);
        r.dm = k * qabs(r.d), r.ddm = k * qabs(r.dd);
        break;
    }
    case U_ATAN:
        r.f = atanq(x), r.d = 1 / (1 + x * x), r.dd = -2 * x / ((1 + x * x) * (1 + x * x));
        break;
    case U_COSH:
        r.f = coshq(x), r.d = sinhq(x), r.dd = coshq(x);
        break;
    case U_SINH:
        r.f = sinhq(x), r.d = coshq(x), r.dd = sinhq(x);
        break;
    case U_TANH:
    {
        const Q c = 1 / coshq(x), s2 = c * c;
        r.f = tanhq(x), r.d = s2, r.dd = -2 * r.f * s2;
        r.dm = 1, r.ddm = 2 * qabs(r.f); // 1 - f*f cancels
        break;
    }
    case U_ACOSH:
    {
        const Q w = (x - 1) * (x + 1), q = sqrtq(w), k = x * x / w;
        r.f = acoshq(x), r.d = 1 / q, r.dd = -x / (w * q);
        r.dm = k * qabs(r.d), r.ddm = k * qabs(r.dd);
        break;
    }
    case U_ASINH:
    {
        const Q w = 1 + x * x, q = sqrtq(w);
        r.f = asinhq(x), r.d = 1 / q, r.dd = -x / (w * q);
        break;
    }
    case U_ATANH:
    {
        const Q w = (1 - x) * (1 + x), k = 1 / w;
        r.f = atanhq(x), r.d = 1 / w, r.dd = 2 * x / (w * w);
        r.dm = k * qabs(r.d), r.ddm = k * qabs(r.dd);
        break;
    }
    case U_EXP:
        r.f = r.d = r.dd = expq(x);
        break;
    case U_LOG:
        r.f = logq(x), r.d = 1 / x, r.dd = -1 / (x * x);
        break;
    case U_LOGB:
    case U_LOG2:
    case U_LOG10:
    {
        const Q l = logq(op == U_LOGB ? p : op == U_LOG2 ? Q(2)
                                                          : Q(10));
        r.f = logq(x) / l, r.d = 1 / (x * l), r.dd = -1 / (x * x * l);
        break;
    }
    }
    r.fill();
    return r;
}

// only the value (for finite differences)
inline Q phi0(int op, Q x, Q p) { return phi(op, x, p).f; }

// ---- functions of two and three arguments

enum B
{
    B_ADD,
    B_SUB,
    B_MUL,
    B_DIV,
    B_ATAN2,
    B_HYPOT,
    B_COUNT
};
inline const char *const B_NAME[] = {"add", "sub", "mul", "div", "atan2", "hypot"};

inline DK psi(int op, Q a, Q b)
{
    DK r;
    r.k = 2;
    switch (op)
    {
    case B_ADD:
        r.f = a + b, r.fm = qabs(a) + qabs(b), r.d[0] = 1, r.d[1] = 1;
        break;
    case B_SUB:
        r.f = a - b, r.fm = qabs(a) + qabs(b), r.d[0] = 1, r.d[1] = -1;
        break;
    case B_MUL:
        r.f = a * b, r.d[0] = b, r.d[1] = a, r.dd[0][1] = r.dd[1][0] = 1;
        break;
    case B_DIV:
        r.f = a / b, r.d[0] = 1 / b, r.d[1] = -a / (b * b), r.dd[0][1] = r.dd[1][0] = -1 / (b * b), r.dd[1][1] = 2 * a / (b * b * b);
        break;
    case B_ATAN2:
    {
        const Q s = a * a + b * b;
        r.f = atan2q(a, b), r.d[0] = b / s, r.d[1] = -a / s;
        r.dd[0][0] = -2 * a * b / (s * s), r.dd[1][1] = 2 * a * b / (s * s);
        r.dd[0][1] = r.dd[1][0] = (a * a - b * b) / (s * s);
        r.ddm[0][1] = r.ddm[1][0] = 1 / s;
        break;
    }
    case B_HYPOT:
    {
        const Q f = sqrtq(a * a + b * b), f3 = f * f * f;
        r.f = f, r.d[0] = a / f, r.d[1] = b / f;
        r.dd[0][0] = b * b / f3, r.dd[1][1] = a * a / f3, r.dd[0][1] = r.dd[1][0] = -a * b / f3;
        r.ddm[0][0] = r.ddm[1][1] = 1 / f; // 1 - d*d cancels
        break;
    }
    }
    r.fill();
    return r;
}

inline DK psi3(Q a, Q b, Q c)
{
    DK r;
    r.k = 3;
    const Q v[3] = {a, b, c};
    const Q s = a * a + b * b + c * c, f = sqrtq(s), f3 = f * s;
    r.f = f;
    for (int i = 0; i < 3; i++)
    {
        r.d[i] = v[i] / f;
        for (int j = 0; j < 3; j++)
            r.dd[i][j] = i == j ? (s - v[i] * v[i]) / f3 : -v[i] * v[j] / f3;
        Q o = 0;
        for (int j = 0; j < 3; j++)
            if (j != i)
                o += v[j] * v[j];
        r.dd[i][i] = o / f3;
        r.ddm[i][i] = 1 / f;
    }
    r.fill();
    return r;
}

// ---- points at which an operation is twice differentiable

// scalar exponents and bases
inline double gen_exponent(Rng &r)
{
    const double v[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4, 0.5, -0.5, 1.5, 2.5, -1.5, 3.5, 1.0 / 3, 2.0 / 3, 0.25, 0.1, 10, -7, 1.0001, 12, 16, 25, -10, 9, 11};
    if (r.chance(0.7))
        return v[r.below(int(sizeof v / sizeof *v))];
    return r.U(-4, 4);
}
template <class S>
S gen_base(Rng &r)
{
    const S v[] = {S(2), S(10), S(2.718281828459045L), S(0.5), S(3), S(16), S(0.1), S(100)};
    if (r.chance(0.6))
        return v[r.below(8)];
    return r.chance(0.5) ? S(r.U(1.2, 50)) : S(r.U(0.05, 0.8));
}

template <class S>
S gen_wide(Rng &r, double lo, double hi) // positive magnitude in [lo, hi], all scales
{
    const int k = r.below(10);
    double v;
    if (k < 3)
        v = r.U(0.1, 4);
    else if (k < 5)
        v = r.logU(1e-3 < lo ? lo : 1e-3, 1e3 > hi ? hi : 1e3);
    else if (k < 7)
        v = r.logU(lo, hi);
    else
    {
        const double sp[] = {1, 2, 3, 0.5, 4, 10, 100, 0.25, 1.5, 1e-3, 7, 1.0 + 0x1p-20, 1.0 - 0x1p-20};
        v = sp[r.below(13)];
    }
    v = std::min(std::max(v, lo), hi);
    S s = S(v);
    if (k < 7)
        s = s * (S(1) + std::numeric_limits<S>::epsilon() * S(r.below(1000))); // use the low bits of wide scalars
    return s;
}

template <class S>
S gen_unit(Rng &r) // in the open interval (-1, 1)
{
    const int k = r.below(10);
    if (k == 0)
        return S(0);
    if (k == 1)
        return S(r.sgn() * r.pick({0.5, 0.25, 0.125, 0.75, 0.9, 0.99}));
    if (k == 2)
        return S(r.sgn()) * (S(1) - S(std::ldexp(1.0, -2 - r.below(is_float<S> ? 16 : 40))));
    if (k == 3)
        return S(r.sgn() * r.logU(is_float<S> ? 1e-6 : 1e-15, 1e-2));
    return S(r.U(-0.999, 0.999));
}

template <class S>
S gen_point(int op, double &p, Rng &r)
{
    const bool fl = is_float<S>;
    p = 0;
    switch (op)
    {
    case U_SQRT:
        return gen_wide<S>(r, fl ? 1e-10 : 1e-60, fl ? 1e10 : 1e60);
    case U_CBRT:
        return S(r.sgn()) * gen_wide<S>(r, fl ? 1e-8 : 1e-40, fl ? 1e8 : 1e40);
    case U_RECIP:
        return S(r.sgn()) * gen_wide<S>(r, fl ? 1e-8 : 1e-60, fl ? 1e8 : 1e60);
    case U_POW:
    {
        p = gen_exponent(r);
        if (r.chance(0.08) && ((p == std::floor(p) && p >= 0) || p > 2))
            return S(0);
        const double hi = !fl ? 1e9 : std::fabs(p) > 8 ? 5 : 1e2; // powers stay in range
        S x = gen_wide<S>(r, 1 / hi, hi);
        if (p == std::floor(p) && r.chance(0.5))
            x = -x;
        return x;
    }
    case U_COS:
    case U_SIN:
    case U_TAN:
        if (r.chance(0.05))
            return S(0);
        if (r.chance(0.3))
            return S(r.U(-10, 10));
        return S(r.sgn()) * gen_wide<S>(r, fl ? 1e-6 : 1e-12, fl ? 1e3 : 1e5);
    case U_ACOS:
    case U_ASIN:
    case U_ATANH:
        return gen_unit<S>(r);
    case U_ATAN:
    case U_ASINH:
        if (r.chance(0.05))
            return S(0);
        return S(r.sgn()) * gen_wide<S>(r, fl ? 1e-6 : 1e-20, fl ? 1e6 : 1e20);
    case U_COSH:
    case U_SINH:
    case U_TANH:
    case U_EXP:
        if (r.chance(0.05))
            return S(0);
        if (r.chance(0.2))
            return S(r.U(-1, 1) * (fl ? 30 : 200));
        return S(r.sgn()) * gen_wide<S>(r, fl ? 1e-6 : 1e-15, fl ? 20 : 40);
    case U_ACOSH:
        if (r.chance(0.2))
            return S(1) + S(std::ldexp(1.0, -1 - r.below(fl ? 14 : 36)));
        return S(1) + gen_wide<S>(r, fl ? 1e-3 : 1e-8, fl ? 1e6 : 1e15);
    case U_LOG:
    case U_LOG2:
    case U_LOG10:
        return gen_wide<S>(r, fl ? 1e-10 : 1e-60, fl ? 1e10 : 1e60);
    case U_LOGB:
        p = double(gen_base<S>(r));
        return gen_wide<S>(r, fl ? 1e-10 : 1e-60, fl ? 1e10 : 1e60);
    }
    return S(1);
}

template <class S>
bool gen_point2(int op, S &a, S &b, Rng &r)
{
    const bool fl = is_float<S>;
    const double lo = fl ? 1e-6 : 1e-35, hi = fl ? 1e6 : 1e35;
    a = S(r.sgn()) * gen_wide<S>(r, lo, hi);
    b = S(r.sgn()) * gen_wide<S>(r, lo, hi);
    const int k = r.below(16);
    if (k == 0)
        b = a;
    if (k == 1)
        b = -a;
    if (k == 2 && op != B_ATAN2)
        a = 0;
    if (k == 3 && op != B_DIV)
        b = 0;
    if (k == 4 && op != B_DIV && op != B_ATAN2 && op != B_HYPOT)
        a = b = 0;
    if (k == 5 && op == B_ATAN2)
    {
        a = 0;
        b = std::abs(b);
        if (b == 0)
            b = 1;
    }
    if (k == 6) // same magnitude
        b = S(a * S(r.U(0.3, 3)));
    return true;
}

// Points at all magnitudes the scalar type has, at which value and first
// derivative (not necessarily the second) are computable without intermediate
// overflow in the usual closed forms.
template <class S>
S gen_extreme(int op, double &p, Rng &r)
{
    const bool fl = is_float<S>;
    const double e = fl ? 35 : 300;
    auto mag = [&](double lo, double hi)
    { return S(std::pow(10.0, r.U(lo, hi))); };
    p = 0;
    switch (op)
    {
    case U_POW:
        p = gen_exponent(r);
        if (p == std::floor(p) && r.chance(0.5))
            return -mag(-e, e);
        return mag(-e, e);
    case U_ACOS:
    case U_ASIN:
    case U_ATANH:
        return S(r.sgn()) * mag(-e, -1);
    case U_ATAN:
    case U_ASINH:
        return S(r.sgn()) * mag(-e, e / 2 - 1);
    case U_COSH:
    case U_SINH:
    case U_EXP:
        return r.chance(0.5) ? S(r.U(-1, 1) * (fl ? 80 : 690)) : S(r.sgn()) * mag(-e, 0);
    case U_ACOSH:
        return mag(0.5, e);
    case U_LOGB:
        p = double(gen_base<S>(r));
        return mag(-e, e);
    case U_SQRT:
    case U_LOG:
    case U_LOG2:
    case U_LOG10:
        return mag(-e, e);
    case U_COS:
    case U_SIN:
    case U_TAN:
        return S(r.sgn()) * mag(-e, fl ? 30 : 200);
    default:
        return S(r.sgn()) * mag(-e, e);
    }
}

// ---- derivative data

template <class S>
S gen_coef(Rng &r, int style)
{
    switch (style)
    {
    case 0:
        return S(r.U(-3, 3));
    case 1:
        return r.chance(0.5) ? S(0) : S(r.U(-2, 2));
    case 2:
        return S(r.below(7) - 3);
    case 3:
        return S(r.sgn()) * gen_wide<S>(r, is_float<S> ? 1e-3 : 1e-8, is_float<S> ? 1e3 : 1e8);
    case 4:
        return S(0);
    default:
        return S(r.U(-1, 1)) * (S(1) + std::numeric_limits<S>::epsilon() * S(r.below(9)));
    }
}

// a jet with the given components; what a jet does may only depend on them, not on the way it
// came about, so it is made in one of many ways
template <class Y>
typename Y::T assemble(int n, const std::vector<typename Y::Scalar> &v, Rng &r)
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    const Ix len = Y::len(n);
    auto by_ptr = [&](T &x)
    { std::copy(v.begin(), v.end(), x.ptr()); };
    auto by_ref = [&](T &x)
    {
        x.f() = v[0];
        for (int i = 0; i < n; i++)
            x.g(i) = v[1 + i];
        if constexpr (Y::ORDER == 2)
        {
            if (r.chance(0.5))
                for (Ix i = 0; i < len - 1 - n; i++)
                    x.h(i) = v[1 + n + i];
            else
            {
                Ix k = 1 + n;
                for (int i = 0; i < n; i++)
                    for (int j = i; j < n; j++)
                        (r.chance(0.5) ? x.h(i, j) : x.h(j, i)) = v[k++];
            }
        }
    };
    auto by_set = [&](T &x)
    {
        if constexpr (Y::ORDER == 2)
        {
            Ix k = 1 + n;
            for (int i = 0; i < n; i++)
                for (int j = i; j < n; j++, k++)
                    r.chance(0.5) ? x.set_h(i, j, v[k]) : x.set_h(j, i, v[k]);
        }
        for (int i = 0; i < n; i++)
            x.set_g(i, v[1 + i]);
        x.set_f(v[0]);
    };
    auto write = [&](T &x)
    {
        switch (r.below(3))
        {
        case 0:
            by_ptr(x);
            break;
        case 1:
            by_ref(x);
            break;
        default:
            by_set(x);
        }
    };
    typename T::Data d;
    if constexpr (Y::DYN)
        d.resize(len);
    std::copy(v.begin(), v.end(), d.begin());
    switch (r.below(14))
    {
    case 0:
    {
        T x = T::zero(n);
        by_ptr(x);
        return x;
    }
    case 1:
        return T::create(d);
    case 2:
    {
        T x = T::constant(v[0], n);
        write(x);
        return x;
    }
    case 3:
    {
        T x = n ? T::variable(r.below(n), v[0], n) : T::constant(v[0], n);
        write(x);
        return x;
    }
    case 4:
    {
        T x = T::create(d);
        x = -x;
        return -x;
    }
    case 5:
        return T::create(d) * S(1);
    case 6:
    {
        T x = T::create(d);
        x *= S(1);
        return x;
    }
    case 7:
    {
        T x = T::constant(S(2), n), y = T::create(d);
        if constexpr (Y::DYN)
            if (r.chance(0.5))
                x = T::constant(S(2));
        std::swap(x, y);
        return x;
    }
    case 8:
    {
        T x = T::zero(n);
        if constexpr (Y::DYN)
            if (r.chance(0.5))
                x = T(S(3));
        const T y = T::create(d);
        x = y;
        return x;
    }
    case 9:
    {
        if constexpr (Y::DYN)
        {
            T x = r.chance(0.5) ? T::constant(S(1)) : T::constant(S(1), n + 3);
            x.resize(n);
            write(x);
            return x;
        }
        else
        {
            T x(S(1));
            write(x);
            return x;
        }
    }
    case 10:
    {
        T x = T::constant(v[0], n);
        x.set_zero();
        write(x);
        return x;
    }
    case 11:
    {
        T x = T::empty(n);
        write(x);
        return x;
    }
#ifndef HV_NO_EIGEN
    case 12:
    case 13:
    {
        typename T::Vector g(n);
        for (int i = 0; i < n; i++)
            g[i] = v[1 + i];
        if constexpr (Y::ORDER == 1)
        {
            if (r.chance(0.5))
                return T::from_gradient(v[0], g);
            T x = T::constant(v[0], n);
            x.ag() = g;
            return x;
        }
        else
        {
            typename T::Matrix h(n, n);
            Ix k = 1 + n;
            for (int i = 0; i < n; i++)
                for (int j = i; j < n; j++)
                    h(i, j) = h(j, i) = v[k++];
            if (r.chance(0.5))
                return T::from_arrays(v[0], g, h);
            T x = T::constant(v[0], n);
            x.ag() = g;
            x.set_hm(h);
            return x;
        }
    }
#endif
    default:
    {
        T x = T::constant(v[0], n);
        x.data() = d;
        return x;
    }
    }
}

template <class Y>
typename Y::T make_jet(int n, typename Y::Scalar f, Rng &r, int style = -1)
{
    using S = typename Y::Scalar;
    if (style < 0)
        style = r.pick({0, 0, 0, 1, 1, 2, 3, 5, 5, 4, 6});
    const Ix len = Y::len(n);
    std::vector<S> v(len, S(0));
    v[0] = f;
    if (style == 6) // a seeded variable
    {
        if (n)
        {
            const int i = r.below(n);
            v[1 + i] = 1;
            if (r.chance(0.5))
                return Y::T::variable(i, f, n);
        }
        return assemble<Y>(n, v, r);
    }
    for (Ix i = 1; i < len; i++)
        v[i] = gen_coef<S>(r, style);
    if (style == 4 && r.chance(0.5))
        return Y::T::constant(f, n);
    return assemble<Y>(n, v, r);
}

// a jet without second derivatives: those of a result are then those of the operation alone
template <class Y>
typename Y::T make_linear(int n, typename Y::Scalar f, Rng &r)
{
    typename Y::T x = make_jet<Y>(n, f, r, r.pick({0, 6}));
    for (Ix i = 1 + n; i < Y::len(n); i++)
        x.ptr()[i] = 0;
    return x;
}

template <class Y>
QJ to_q(const typename Y::T &x, int n)
{
    QJ q(n);
    const typename Y::Scalar *p = x.ptr();
    q.f = p[0];
    for (int i = 0; i < n; i++)
        q.g[i] = p[1 + i];
    if constexpr (Y::ORDER == 2)
    {
        int k = 1 + n;
        for (int i = 0; i < n; i++)
            for (int j = i; j < n; j++, k++)
                q.h(i, j) = q.h(j, i) = p[k];
    }
    q.exact();
    return q;
}

template <class Y>
std::string show(const typename Y::T &x)
{
    std::string s = fmt("n=%ld len=%ld [", long(x.size()), long(x.data_length()));
    const Ix len = x.data_length();
    for (Ix i = 0; i < len && i < 40; i++)
        s += (i ? ", " : "") + ss(x.ptr()[i]);
    return s + (len > 40 ? ", ...]" : "]");
}

template <class Y>
u64 jet_hash(const typename Y::T &x, u64 h)
{
    // long double has padding bytes, so hash values
    const Ix len = x.data_length();
    for (Ix i = 0; i < len; i++)
    {
        const double d = double(x.ptr()[i]);
        h = hash_bytes(&d, sizeof d, h);
    }
    return h;
}

// ---------------------------------------------------------------- judging

// how many machine epsilons of the magnitude a component may deviate: much more than any sensible
// evaluation needs, but for long double less than a single rounding to double
#ifndef HV_TOL_LD
#define HV_TOL_LD 128
#endif
template <class S>
inline const Q TOLC = std::is_same_v<S, long double> ? HV_TOL_LD : 1024;

enum Verdict
{
    OK,
    SKIP,
    BAD
};

template <class S>
Verdict judge(S got, Q exp, Q mag, Q extra = 0)
{
    if (!finiteq(exp) || !finiteq(mag) || mag > Lim<S>::maxv * Q(1e-6) || (mag != 0 && mag < Lim<S>::minv * Q(1e6)))
        return SKIP;
    const Q d = qabs(Q(got) - exp);
    // mag == 0: must be exactly zero; NaN fails
    return d <= TOLC<S> * Lim<S>::eps * mag + extra ? OK : BAD;
}

// compares a jet with the expected one, component by component
// (parts: 0 value, 1 and gradient, 2 and Hessian)
template <class Y, class D>
bool check_jet(const typename Y::T &r, const QJ &e, const std::string &key, D &&detail, int parts = 2)
{
    using S = typename Y::Scalar;
    const int n = e.n;
    R.evals++;
    auto bad = [&](const std::string &what, const std::string &txt)
    {
        R.violation(key + "/" + what, txt + "\n  result " + show<Y>(r) + "\n  " + detail());
        return false;
    };
    if (r.size() != n)
        return bad("size", fmt("size %ld, expected %d", long(r.size()), n));
    if (r.data_length() != Y::len(n))
        return bad("length", fmt("data length %ld, expected %ld", long(r.data_length()), long(Y::len(n))));
    const S *p = r.ptr();
    Verdict v = judge<S>(p[0], e.f, e.fm);
    if (v == BAD)
        return bad("f", "f = " + ss(p[0]) + ", expected " + qs(e.f));
    if (v == SKIP)
        R.count("skipped_components");
    if (parts < 1)
        return true;
    for (int i = 0; i < n; i++)
    {
        v = judge<S>(p[1 + i], e.g[i], e.gm[i]);
        if (v == BAD)
            return bad("g", fmt("g[%d] = ", i) + ss(p[1 + i]) + ", expected " + qs(e.g[i]));
        if (v == SKIP)
            R.count("skipped_components");
    }
    R.count("components_checked", u64(1 + n));
    if constexpr (Y::ORDER == 2)
    {
        if (parts < 2)
            return true;
        int k = 1 + n;
        for (int i = 0; i < n; i++)
            for (int j = i; j < n; j++, k++)
            {
                v = judge<S>(p[k], e.h(i, j), e.Hm[i * n + j]);
                if (v == BAD)
                    return bad("h", fmt("h[%d,%d] = ", i, j) + ss(p[k]) + ", expected " + qs(e.h(i, j)));
                if (v == SKIP)
                    R.count("skipped_components");
            }
        R.count("components_checked", u64(k - 1 - n));
    }
    return true;
}

// bitwise comparison (NaN payloads and signed zeros included, padding not)
template <class S>
bool same_bits(S a, S b)
{
    if (a != a || b != b)
        return (a != a) && (b != b);
    return a == b && std::signbit(a) == std::signbit(b);
}
template <class Y>
bool same_jet(const typename Y::T &a, const typename Y::T &b)
{
    if (a.size() != b.size() || a.data_length() != b.data_length())
        return false;
    for (Ix i = 0; i < a.data_length(); i++)
        if (!same_bits(a.ptr()[i], b.ptr()[i]))
            return false;
    return true;
}

// ---------------------------------------------------------------- the operations of the library

template <class T>
T u_member(int op, const T &x, double p)
{
    using S = typename T::Scalar;
    switch (op)
    {
    case U_SQRT:
        return x.sqrt();
    case U_CBRT:
        return x.cbrt();
    case U_RECIP:
        return x.reciprocal();
    case U_POW:
        return x.pow(p);
    case U_COS:
        return x.cos();
    case U_SIN:
        return x.sin();
    case U_TAN:
        return x.tan();
    case U_ACOS:
        return x.acos();
    case U_ASIN:
        return x.asin();
    case U_ATAN:
        return x.atan();
    case U_COSH:
        return x.cosh();
    case U_SINH:
        return x.sinh();
    case U_TANH:
        return x.tanh();
    case U_ACOSH:
        return x.acosh();
    case U_ASINH:
        return x.asinh();
    case U_ATANH:
        return x.atanh();
    case U_EXP:
        return x.exp();
    case U_LOG:
        return x.log();
    case U_LOGB:
        return x.log(S(p));
    case U_LOG2:
        return x.log2();
    default:
        return x.log10();
    }
}
inline bool has_free(int op) { return op != U_RECIP && op != U_LOGB; }
template <class T>
T u_free(int op, const T &x, double p)
{
    switch (op)
    {
    case U_SQRT:
        return sqrt(x);
    case U_CBRT:
        return cbrt(x);
    case U_POW:
        if (p == std::floor(p) && std::fabs(p) < 100)
            return pow(x, Ix(p));
        if constexpr (std::is_same_v<T, hyperjet::SScalar<typename T::Scalar>>)
            return pow(x, typename T::Scalar(p));
        else
            return pow(x, double(p));
    case U_COS:
        return cos(x);
    case U_SIN:
        return sin(x);
    case U_TAN:
        return tan(x);
    case U_ACOS:
        return acos(x);
    case U_ASIN:
        return asin(x);
    case U_ATAN:
        return atan(x);
    case U_COSH:
        return cosh(x);
    case U_SINH:
        return sinh(x);
    case U_TANH:
        return tanh(x);
    case U_ACOSH:
        return acosh(x);
    case U_ASINH:
        return asinh(x);
    case U_ATANH:
        return atanh(x);
    case U_EXP:
        return exp(x);
    case U_LOG:
        return log(x);
    case U_LOG2:
        return log2(x);
    default:
        return log10(x);
    }
}

template <class T>
T b_op(int op, const T &a, const T &b, bool member = false)
{
    switch (op)
    {
    case B_ADD:
        return a + b;
    case B_SUB:
        return a - b;
    case B_MUL:
        return a * b;
    case B_DIV:
        return a / b;
    case B_ATAN2:
        return member ? a.atan2(b) : atan2(a, b);
    default:
        return member ? T::hypot(a, b) : hypot(a, b);
    }
}

// jet with scalar: variants 0 = jet op scalar, 1 = scalar op jet
template <class T, class S>
T s_op(int op, int variant, const T &a, S s)
{
    if (variant == 0)
        switch (op)
        {
        case B_ADD:
            return a + s;
        case B_SUB:
            return a - s;
        case B_MUL:
            return a * s;
        default:
            return a / s;
        }
    switch (op)
    {
    case B_ADD:
        return s + a;
    case B_SUB:
        return s - a;
    case B_MUL:
        return s * a;
    default:
        return s / a;
    }
}

// ---------------------------------------------------------------- shards

#ifndef SHARD
#define SHARD 7
#endif

template <class F>
void for_types(F f)
{
#define HV_D(n)                    \
    f(Ty<1, double, n>());         \
    f(Ty<2, double, n>());
#if SHARD == 0
    HV_D(0) HV_D(1) HV_D(2) HV_D(3)
#elif SHARD == 1
    HV_D(4) HV_D(5) HV_D(6)
#elif SHARD == 2
    HV_D(7) HV_D(8) HV_D(9)
#elif SHARD == 3
    HV_D(10) HV_D(11) HV_D(12)
#elif SHARD == 4
    HV_D(13) HV_D(14)
#elif SHARD == 5
    HV_D(15) HV_D(16)
    f(Ty<1, double, 40>());
    f(Ty<2, double, 21>());
#elif SHARD == 6
    f(Ty<2, float, 0>());
    f(Ty<1, float, 0>());
    f(Ty<2, float, 1>());
    f(Ty<1, float, 2>());
    f(Ty<2, float, 2>());
    f(Ty<2, float, 3>());
    f(Ty<2, long double, 0>());
    f(Ty<1, long double, 1>());
    f(Ty<2, long double, 2>());
    f(Ty<1, long double, 4>());
    f(Ty<2, long double, 3>());
#elif SHARD == 70
    f(Ty<1, double, -1>());
    f(Ty<2, double, -1>());
#elif SHARD == 71
    f(Ty<1, float, -1>());
    f(Ty<2, float, -1>());
#elif SHARD == 72
    f(Ty<1, long double, -1>());
    f(Ty<2, long double, -1>());
#elif SHARD == 60
    f(Ty<2, float, 0>());
    f(Ty<1, float, 1>());
    f(Ty<2, float, 1>());
    f(Ty<1, float, 3>());
    f(Ty<2, float, 2>());
    f(Ty<2, float, 3>());
    f(Ty<2, float, 5>());
#elif SHARD == 61
    f(Ty<1, long double, 0>());
    f(Ty<2, long double, 1>());
    f(Ty<1, long double, 2>());
    f(Ty<2, long double, 2>());
    f(Ty<2, long double, 4>());
    f(Ty<2, long double, 3>());
#else
    f(Ty<1, double, -1>());
    f(Ty<2, double, -1>());
    f(Ty<1, float, -1>());
    f(Ty<2, float, -1>());
    f(Ty<1, long double, -1>());
    f(Ty<2, long double, -1>());
#endif
}

} // namespace hv
