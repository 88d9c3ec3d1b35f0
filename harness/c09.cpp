// C09: eval is the Taylor polynomial.
#include "common.hpp"
using namespace hv;

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        const int N = R.n(Y::DYN ? 3000 : 1500);
        using D = typename std::conditional<Y::DYN, std::vector<S>, std::array<S, (Y::SIZE < 0 ? 0 : Y::SIZE)>>::type;
        auto make_d = [](int n)
        {
            D d{};
            if constexpr (Y::DYN)
                d.resize(n);
            return d;
        };
        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/eval/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            const T x = make_jet<Y>(n, r.chance(0.1) ? S(0) : S(r.U(-5, 5)), r);
            const T keep = x;
            D d = make_d(n);
            const int style = r.below(6);
            for (int i = 0; i < n; i++)
                d[i] = style == 0 ? S(0) : style == 1 ? S(r.below(5) - 2)
                                       : style == 2   ? (r.chance(0.3) ? S(r.U(-3, 3)) : S(0))
                                       : style == 3   ? S(r.sgn() * r.logU(1e-6, 1e3))
                                                      : S(r.U(-2, 2));
            if (style == 5 && n)
            {
                for (int i = 0; i < n; i++)
                    d[i] = 0;
                d[r.below(n)] = S(r.U(-2, 2));
            }
            const D dk = d;
            const S got = x.eval(d);
            const QJ q = to_q<Y>(x, n);
            Q e = q.f, m = qabs(q.f);
            for (int i = 0; i < n; i++)
                e += q.g[i] * Q(d[i]), m += qabs(q.g[i] * Q(d[i]));
            if (Y::ORDER == 2)
                for (int i = 0; i < n; i++)
                    for (int j = 0; j < n; j++)
                        e += Q(0.5) * Q(d[i]) * q.h(i, j) * Q(d[j]), m += Q(0.5) * qabs(Q(d[i]) * q.h(i, j) * Q(d[j]));
            R.evals++;
            R.count(style == 0 ? "eval_at_zero" : "eval");
            R.seen(jet_hash<Y>(x, hash_str(tn)) ^ hash_bytes(&k, sizeof k));
            auto det = [&]
            {
                std::string s = "jet " + show<Y>(x) + "\n  d ";
                for (int i = 0; i < n; i++)
                    s += ss(d[i]) + " ";
                return s;
            };
            if (style == 0 ? got != x.f() : judge<S>(got, e, m) == BAD)
                R.violation("eval/" + tn, ss(got) + ", expected " + qs(e) + "\n  " + det());
            if (!same_jet<Y>(x, keep) || !(d == dk))
                R.violation("eval_operand/" + tn, "eval modified the jet or the displacement\n  " + det());
            if (n == 2 && k < 9)
                R.sample(tn + " " + det() + " -> " + ss(got));
        }
        // quadratic functions are reproduced
        if constexpr (Y::ORDER == 2)
            for (int k = 0; k < N / 4; k++)
            {
                if (!R.begin(tn + "/quadratic/" + std::to_string(k)))
                    continue;
                Rng &r = R.rng;
                const int n = Y::DYN ? r.below(9) : Y::SIZE;
                std::vector<S> x0(n), b(n), A(n * n);
                D d = make_d(n);
                const bool integer = r.chance(0.5);
                auto num = [&]
                { return integer ? S(r.below(9) - 4) : S(r.U(-3, 3)); };
                for (int i = 0; i < n; i++)
                    x0[i] = num(), b[i] = num(), d[i] = num();
                for (auto &a : A)
                    a = r.chance(0.3) ? S(0) : num();
                const S c = num();
                std::vector<T> v;
                for (int i = 0; i < n; i++)
                    v.push_back(T::variable(i, x0[i], n));
                T q = T::constant(c, n);
                for (int i = 0; i < n; i++)
                {
                    q += b[i] * v[i];
                    for (int j = 0; j < n; j++)
                        if (A[i * n + j] != 0)
                            q += A[i * n + j] * v[i] * v[j];
                }
                Q e = c, m = qabs(Q(c));
                for (int i = 0; i < n; i++)
                {
                    const Q xi = Q(x0[i]) + Q(d[i]), mi = qabs(Q(x0[i])) + qabs(Q(d[i]));
                    e += Q(b[i]) * xi, m += qabs(Q(b[i])) * mi;
                    for (int j = 0; j < n; j++)
                    {
                        const Q xj = Q(x0[j]) + Q(d[j]), mj = qabs(Q(x0[j])) + qabs(Q(d[j]));
                        e += Q(A[i * n + j]) * xi * xj, m += qabs(Q(A[i * n + j])) * mi * mj;
                    }
                }
                const S got = q.eval(d);
                R.evals++;
                R.count("quadratics");
                R.seen(jet_hash<Y>(q, hash_str(tn + "q")));
                // integers are exact
                if (integer ? Q(got) != e : judge<S>(got, e, 4 * m) == BAD)
                    R.violation("quadratic/" + tn, ss(got) + ", expected " + qs(e) + "\n  jet " + show<Y>(q));
            }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    return R.finish();
}
