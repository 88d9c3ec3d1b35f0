// Oracle and generators for sparse jets.
#pragma once
#include "common.hpp"

namespace hv
{

struct SJ
{
    Q f = 0, fm = 0;
    std::map<std::string, std::pair<Q, Q>> d; // partial and magnitude
};

template <class S>
struct Sp
{
    using T = hyperjet::SScalar<S>;
    using Scalar = S;
    static std::string name()
    {
        return fmt("S<%s>", std::is_same_v<S, double> ? "double" : std::is_same_v<S, float> ? "float"
                                                                                             : "ldouble");
    }
};

inline SJ schain(std::initializer_list<const SJ *> args, DK p)
{
    p.fill();
    SJ r;
    r.f = p.f;
    r.fm = p.fm;
    int u = 0;
    for (auto a : args)
    {
        for (auto &e : a->d)
        {
            auto &t = r.d[e.first];
            t.first += p.d[u] * e.second.first;
            t.second += p.dm[u] * qabs(e.second.first);
        }
        u++;
    }
    return r;
}
inline DK to_dk(D1 p)
{
    p.fill();
    DK k;
    k.k = 1;
    k.f = p.f, k.fm = p.fm, k.d[0] = p.d, k.dm[0] = p.dm;
    return k;
}

inline const std::vector<std::string> &name_pool()
{
    static const std::vector<std::string> pool = []
    {
        std::vector<std::string> v{"x", "y", "z", "xx", "x1", "x10", "x_1", "X", "", " ", "a b", "d", "dx", "f", "alpha", "\xc3\xa9", "+", "-1", "1", "x\n",
                                   "a_rather_long_variable_name_beyond_small_string_optimisation", "a_rather_long_variable_name_beyond_small_string_optimisatioN",
                                   std::string("nul\0a", 5), std::string("nul\0b", 5)};
        for (int i = 0; i < 60; i++)
            v.push_back("v" + std::to_string(i));
        return v;
    }();
    return pool;
}

// number of distinct names to draw from, small ones so that operands overlap
inline std::vector<std::string> gen_names(Rng &r)
{
    const auto &p = name_pool();
    std::vector<std::string> v;
    const int k = r.chance(0.15) ? r.below(50) : r.below(7);
    const int lim = r.chance(0.5) ? 12 : int(p.size());
    for (int i = 0; i < k; i++)
        v.push_back(p[r.below(lim)]);
    if (r.chance(0.003)) // rarely very many
        for (int i = r.below(600); i > 0; i--)
            v.push_back("w" + std::to_string(r.below(3000)));
    return v; // may repeat
}

template <class S>
hyperjet::SScalar<S> make_sparse(S f, Rng &r, SJ &q, const std::vector<std::string> *forced = nullptr, int style = -1)
{
    q = SJ();
    q.f = f;
    q.fm = qabs(q.f);
    typename hyperjet::SScalar<S>::Data d;
    if (r.chance(0.5))
        d.reserve(r.below(64)); // other bucket counts, other iteration orders
    if (style < 0)
        style = r.pick({0, 0, 1, 2, 3, 5, 4});
    for (auto &n : forced ? *forced : gen_names(r))
    {
        const S c = r.chance(0.3) ? S(1) : gen_coef<S>(r, style);
        d[n] = c;
        q.d[n] = {Q(c), qabs(Q(c))};
    }
    // what a jet does may not depend on the way it came about
    using T = hyperjet::SScalar<S>;
    switch (r.below(8))
    {
    case 0:
        return -(-T(f, d));
    case 1:
        return T(f, d) * S(1);
    case 2:
    {
        T x = T::variable("x", S(2));
        const T y(f, d);
        x = y;
        return x;
    }
    case 3:
    {
        T x = T::constant(S(3)), y(f, d);
        std::swap(x, y);
        return x;
    }
    case 4:
    {
        T x = T::constant(f); // term by term; -0 - 0 is -0
        for (auto &e : d)
            x -= T(S(0), {{e.first, -e.second}});
        return x;
    }
    case 5:
    {
        T x(f, d);
        x *= S(1);
        return x;
    }
    default:
        return T(f, d);
    }
}

template <class S>
std::string shows(const hyperjet::SScalar<S> &x, const SJ &q)
{
    std::string s = fmt("size %ld f %s {", long(x.size()), ss(x.f()).c_str());
    int c = 0;
    for (auto &e : q.d)
        if (c++ < 12)
            s += "'" + e.first + "': " + ss(x.d(e.first)) + ", ";
    return s + "}";
}
inline std::string showsj(const SJ &q)
{
    std::string s = fmt("size %zu f %s {", q.d.size(), qs(q.f).c_str());
    int c = 0;
    for (auto &e : q.d)
        if (c++ < 12)
            s += "'" + e.first + "': " + qs(e.second.first) + ", ";
    return s + "}";
}
inline u64 sj_hash(const SJ &q, u64 h)
{
    double v = double(q.f);
    h = hash_bytes(&v, sizeof v, h);
    for (auto &e : q.d)
    {
        v = double(e.second.first);
        h = hash_bytes(&v, sizeof v, hash_str(e.first, h));
    }
    return h;
}

template <class S, class D>
bool check_sparse(const hyperjet::SScalar<S> &x, const SJ &e, const std::string &key, D &&detail)
{
    R.evals++;
    auto bad = [&](const std::string &what, const std::string &txt)
    {
        R.violation(key + "/" + what, txt + "\n  result " + shows(x, e) + "\n  expected " + showsj(e) + "\n  " + detail());
        return false;
    };
    if (x.size() != Ix(e.d.size()))
        return bad("names", fmt("%ld names, expected %zu", long(x.size()), e.d.size()));
    if (judge<S>(x.f(), e.f, e.fm) == BAD)
        return bad("f", "f = " + ss(x.f()) + ", expected " + qs(e.f));
    for (auto &d : e.d)
    {
        const S got = x.d(d.first);
        const Verdict v = judge<S>(got, d.second.first, d.second.second);
        if (v == BAD)
            return bad("d", "d('" + d.first + "') = " + ss(got) + ", expected " + qs(d.second.first));
        if (v == SKIP)
            R.count("skipped_components");
        R.count("components_checked");
    }
    for (const char *n : {"not a name", "xy", "v999"})
        if (x.d(n) != 0)
            return bad("absent", std::string("d('") + n + "') is not 0");
    if (x.size() != Ix(e.d.size()))
        return bad("names", "reading added a name");
    return true;
}

// bit identical value, names and partials, with the names of q
template <class S>
bool same_sparse(const hyperjet::SScalar<S> &a, const hyperjet::SScalar<S> &b, const SJ &q)
{
    if (a.size() != b.size() || !same_bits(a.f(), b.f()))
        return false;
    for (auto &e : q.d)
        if (!same_bits(a.d(e.first), b.d(e.first)))
            return false;
    return true;
}

template <class F>
void for_sparse(F f)
{
    f(Sp<double>());
    f(Sp<float>());
    f(Sp<long double>());
}

} // namespace hv
