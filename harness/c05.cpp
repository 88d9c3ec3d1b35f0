// C05: the same program with first/second order, static/dynamic jets, with a
// subset of the variables seeded, and with the variables renumbered.
#include "prog.hpp"
using namespace hv;

// flat reading of a jet: value, gradient, full Hessian
struct Flat
{
    int n = 0;
    bool second = false;
    Q f = 0;
    std::vector<Q> g, H;
};

template <class Y>
bool flat(const typename Y::T &x, int n, Flat &o)
{
    o.n = n;
    o.second = Y::ORDER == 2;
    if (x.size() != n || x.data_length() != Y::len(n))
        return false;
    const auto *p = x.ptr();
    o.f = p[0];
    o.g.assign(p + 1, p + 1 + n);
    o.H.assign(n * n, 0);
    if (Y::ORDER == 2)
    {
        int k = 1 + n;
        for (int i = 0; i < n; i++)
            for (int j = i; j < n; j++, k++)
                o.H[i * n + j] = o.H[j * n + i] = p[k];
    }
    return true;
}

// the program on the jets of the seeds over m variables; variable i of the seeds
// is place[i] of the jets, or not among them if that is -1
template <class Y>
std::vector<typename Y::T> run(const Prog &pr, const std::vector<QJ> &seeds, int m, const std::vector<int> &place)
{
    using T = typename Y::T;
    using S = typename Y::Scalar;
    std::vector<T> reg;
    const int n = int(place.size());
    for (const QJ &q : seeds)
    {
        std::vector<S> g(m, S(0)), H(std::size_t(m) * m, S(0));
        for (int i = 0; i < n; i++)
            if (place[i] >= 0)
            {
                g[place[i]] = S(q.g[i]);
                for (int j = 0; j < n; j++)
                    if (place[j] >= 0)
                        H[place[i] * m + place[j]] = S(q.h(i, j));
            }
        T x = T::constant(S(q.f), m);
        S *p = x.ptr();
        for (int i = 0; i < m; i++)
            p[1 + i] = g[i];
        if (Y::ORDER == 2)
        {
            int k = 1 + m;
            for (int i = 0; i < m; i++)
                for (int j = i; j < m; j++)
                    p[k++] = H[i * m + j];
        }
        reg.push_back(std::move(x));
    }
    run_prog<T>(pr, reg, m);
    return reg;
}

// the variables themselves, or jets with arbitrary derivatives, many of them zero
inline std::vector<QJ> gen_seeds(const std::vector<double> &v, int n, Rng &r)
{
    if (r.chance(0.6))
        return seed_oracle(v, n);
    R.count("arbitrary_seeds");
    std::vector<QJ> s;
    for (int k = 0; k < n; k++)
    {
        QJ q(n);
        q.f = Q(v[k]);
        const double pg = r.pick({0.0, 0.5, 1.0}), ph = r.pick({0.0, 0.5, 1.0});
        for (int i = 0; i < n; i++)
            q.g[i] = r.chance(pg) ? f32(r.U(-2, 2)) : 0;
        for (int i = 0; i < n; i++)
            for (int j = 0; j <= i; j++)
                q.h(i, j) = q.h(j, i) = r.chance(ph) ? f32(r.U(-2, 2)) : 0;
        q.exact();
        s.push_back(q);
    }
    return s;
}

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        if constexpr (Y::ORDER == 2)
        {
            using Y1 = Ty<1, S, Y::SIZE>;
            using D2 = Ty<2, S, -1>;
            using D1_ = Ty<1, S, -1>;
            const std::string tn = Y::name();
            const int N = R.n(Y::DYN ? 600 : Y::SIZE < 4 ? 1000 : Y::SIZE < 7 ? 500 : Y::SIZE < 13 ? 250 : Y::SIZE < 17 ? 150 : 40);
            for (int k = 0; k < N; k++)
            {
                if (!R.begin(tn + "/program/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const int n = Y::DYN ? r.below(r.chance(0.2) ? 20 : 8) : Y::SIZE;
                const std::vector<double> v = gen_vars(n, r);
                const Prog pr = gen_prog(n, v, r, 3 + r.below(14));
                if (pr.regs == n)
                    continue;
                const std::vector<QJ> seeds = gen_seeds(v, n, r);
                const Expect x = expect<S>(pr, seeds, pr.out, r, 3);
                R.seen(hash_str(tn + pr.text()));
                count_prog(pr);
                if (!x.usable)
                {
                    R.count("ill_conditioned_skipped");
                    continue;
                }
                const std::vector<int> id = iota_map(n);
                Flat base;
                auto txt = [&]
                { std::string s = pr.text() + ", variables "; for (double d : v) s += fmt("%.9g ", d); return s; };
                auto shape = [&](bool ok, const char *what)
                {
                    if (!ok)
                        R.violation(std::string(what) + "/" + tn + "/size", "wrong size of the result of " + txt());
                    return ok;
                };
                const auto ref = run<Y>(pr, seeds, n, id);
                if (!shape(flat<Y>(ref[pr.out], n, base), "reference"))
                    continue;
                // other: map[i] = variable of the reference that variable i of the other is
                auto compare = [&](const Flat &o, const std::vector<int> &map, const char *what)
                {
                    R.evals++;
                    R.count(std::string("compared_") + what);
                    const int m = int(map.size());
                    auto far = [](Q a, Q b, Q t)
                    { return !(qabs(a - b) <= 2 * t); };
                    if (far(o.f, base.f, x.ftol))
                        return R.violation(std::string(what) + "/" + tn + "/f", qs(o.f) + " instead of " + qs(base.f) + " for " + txt());
                    for (int i = 0; i < m; i++)
                        if (far(o.g[i], base.g[map[i]], x.gtol[map[i]]))
                            return R.violation(std::string(what) + "/" + tn + "/g", fmt("g[%d] ", i) + qs(o.g[i]) + " instead of " + qs(base.g[map[i]]) + " for " + txt());
                    if (o.second)
                        for (int i = 0; i < m; i++)
                            for (int j = 0; j < m; j++)
                                if (far(o.H[i * m + j], base.H[map[i] * n + map[j]], x.Htol[map[i] * n + map[j]]))
                                    return R.violation(std::string(what) + "/" + tn + "/h", fmt("h[%d,%d] ", i, j) + qs(o.H[i * m + j]) + " instead of " + qs(base.H[map[i] * n + map[j]]) + " for " + txt());
                };
                Flat o;
                if (shape(flat<Y1>(run<Y1>(pr, seeds, n, id)[pr.out], n, o), "order1"))
                    compare(o, id, "order1");
                if (!Y::DYN)
                {
                    if (shape(flat<D2>(run<D2>(pr, seeds, n, id)[pr.out], n, o), "dynamic2"))
                        compare(o, id, "dynamic2");
                    if (shape(flat<D1_>(run<D1_>(pr, seeds, n, id)[pr.out], n, o), "dynamic1"))
                        compare(o, id, "dynamic1");
                }
                // renumbered variables
                std::vector<int> perm = id;
                for (int i = n - 1; i > 0; i--)
                    std::swap(perm[i], perm[r.below(i + 1)]);
                std::vector<int> inv(n);
                for (int i = 0; i < n; i++)
                    inv[perm[i]] = i;
                if (shape(flat<Y>(run<Y>(pr, seeds, n, perm)[pr.out], n, o), "permuted"))
                    compare(o, inv, "permuted");
                if (shape(flat<Y1>(run<Y1>(pr, seeds, n, perm)[pr.out], n, o), "permuted1"))
                    compare(o, inv, "permuted1");
                // a subset of the variables, in another order
                std::vector<int> place(n, -1), map;
                for (int i : perm)
                    if (r.chance(0.5))
                        place[i] = int(map.size()), map.push_back(i);
                const int m = int(map.size());
                if (shape(flat<D2>(run<D2>(pr, seeds, m, place)[pr.out], m, o), "subset2"))
                    compare(o, map, "subset2");
                if (shape(flat<D1_>(run<D1_>(pr, seeds, m, place)[pr.out], m, o), "subset1"))
                    compare(o, map, "subset1");
                // the same jet type with fewer seeded variables: the rest has zero derivatives
                if (!Y::DYN && m < n)
                {
                    const auto s = run<Y>(pr, seeds, n, place);
                    if (shape(flat<Y>(s[pr.out], n, o), "partial"))
                    {
                        Flat c;
                        c.n = m, c.second = true, c.f = o.f, c.H.assign(m * m, 0);
                        bool zero = true;
                        for (int i = 0; i < n; i++)
                            for (int j = 0; j < n; j++)
                                if (i >= m || j >= m)
                                    zero = zero && o.H[i * n + j] == 0 && (i < m || o.g[i] == 0);
                                else
                                    c.H[i * m + j] = o.H[i * n + j];
                        c.g.assign(o.g.begin(), o.g.begin() + m);
                        if (!zero)
                            R.violation("partial/" + tn + "/zero", "a variable that was never seeded has a derivative: " + txt());
                        compare(c, map, "partial");
                    }
                }
                if (n <= 3 && k < 60)
                    R.sample(tn + " " + txt() + " = " + show<Y>(ref[pr.out]));
            }
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    return R.finish();
}
