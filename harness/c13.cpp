// C13: the names of sparse jets: union, size, absent names, order independence, eval.
#include "sparse.hpp"
#include <sstream>
using namespace hv;

// names and partials as the public text output shows them; only for names made
// of the characters of the safe pool
template <class T>
static std::map<std::string, std::string> parse(const T &x, std::string &value, bool &ok)
{
    std::ostringstream o;
    o << x;
    const std::string s = o.str();
    std::map<std::string, std::string> m;
    std::size_t at = s.find(' ');
    value = s.substr(0, at);
    ok = true;
    while (at != std::string::npos)
    {
        const std::size_t next = s.find(' ', at + 1);
        const std::string t = s.substr(at + 1, next == std::string::npos ? next : next - at - 1);
        const std::size_t star = t.find("*d");
        if (star == std::string::npos || !m.emplace(t.substr(star + 2), t.substr(0, star)).second)
            ok = false;
        at = next;
    }
    return m;
}

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        using Names = std::set<std::string>;
        const std::string tn = Y::name();
        std::vector<std::string> safe;
        for (auto &n : name_pool())
            if (n.find_first_of(" \n*") == std::string::npos)
                safe.push_back(n);

        auto expect_names = [&](const T &x, const Names &e, const std::string &what, const std::string &detail)
        {
            R.evals++;
            R.count("names_" + what);
            bool ok;
            std::string value;
            const auto m = parse(x, value, ok);
            Names got;
            for (auto &p : m)
                got.insert(p.first);
            if (!ok || got != e || x.size() != Ix(e.size()))
            {
                std::string t = "has", u = "expected";
                for (auto &n : got)
                    t += " '" + n + "'";
                for (auto &n : e)
                    u += " '" + n + "'";
                R.violation("names/" + what + "/" + tn, fmt("size %ld, ", long(x.size())) + t + "\n  " + u + "\n  " + detail);
                return;
            }
            for (auto &n : safe)
                if (!e.count(n) && x.d(n) != 0)
                    R.violation("absent/" + what + "/" + tn, "d('" + n + "') = " + ss(x.d(n)) + "\n  " + detail);
            if (x.size() != Ix(e.size()))
                R.violation("read_adds/" + what + "/" + tn, "reading changed size() to " + std::to_string(x.size()));
        };
        auto gen = [&](Rng &r, Names &names, SJ &q)
        {
            names.clear();
            std::vector<std::string> v;
            const int k = r.chance(0.15) ? r.below(40) : r.below(6);
            const int lim = r.chance(0.6) ? 10 : int(safe.size());
            for (int i = 0; i < k; i++)
                v.push_back(safe[r.below(lim)]);
            if (r.chance(0.004))
                for (int i = r.below(500); i > 0; i--)
                    v.push_back("w" + std::to_string(r.below(3000)));
            names.insert(v.begin(), v.end());
            // the names do not depend on values, whether or not the operation is defined there
            const double nan = std::numeric_limits<double>::quiet_NaN();
            const S f = r.chance(0.5) ? S(r.U(0.1, 0.9)) : r.chance(0.5) ? S(r.U(-5, 5)) : S(r.pick({0.0, 0.0, 0.0, -0.0, 1.0, -1.0, 2.0, HUGE_VAL, -HUGE_VAL, nan, 1e30, 1e-30}));
            return make_sparse<S>(f, r, q, &v);
        };
        auto unite = [](const Names &a, const Names &b)
        {
            Names c = a;
            c.insert(b.begin(), b.end());
            return c;
        };

        for (int k = 0; k < R.n(2500); k++)
        {
            if (!R.begin(tn + "/names/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            Names na, nb, nc;
            SJ qa, qb, qc;
            T a = gen(r, na, qa), b = gen(r, nb, qb), c = gen(r, nc, qc);
            const T ka = a, kb = b;
            R.seen(sj_hash(qb, sj_hash(qa, hash_str(tn))));
            const std::string det = "a " + shows(a, qa) + "\n  b " + shows(b, qb);
            if (na.size() == 2)
                R.sample(tn + " " + det);
            expect_names(a, na, "made", det);
            const int u = r.below(U_COUNT);
            const double p = u == U_LOGB ? 3 : gen_exponent(r);
            if (u == U_ACOSH)
            {
                const T a1 = a + S(1);
                expect_names(a1, na, "scalar", det);
                expect_names(r.chance(0.5) ? a1.acosh() : acosh(a1), na, "unary", det);
            }
            else
                expect_names(r.chance(0.5) && has_free(u) ? u_free(u, a, p) : u_member(u, a, p), na, "unary", std::string(U_NAME[u]) + " " + det);
            const int o = r.below(B_COUNT);
            expect_names(b_op(o, a, b, r.chance(0.5)), unite(na, nb), "binary", std::string(B_NAME[o]) + " " + det);
            expect_names(b_op(o, a, a, r.chance(0.5)), na, "same_object", std::string(B_NAME[o]) + " " + det);
            expect_names(a - a, na, "cancelled", det);
            expect_names(a * T::constant(S(0)), na, "times_zero", det);
            expect_names(r.chance(0.5) ? hypot(a, b, c) : T::hypot(a, b, c), unite(unite(na, nb), nc), "ternary", det);
            expect_names(s_op(r.below(4), r.below(2), a, r.chance(0.5) ? S(r.U(1, 2)) : S(r.pick({0.0, -0.0, 1.0, -1.0, HUGE_VAL}))), na, "scalar", det);
            expect_names(a * S(0), na, "times_zero", det);
            expect_names(-a, na, "neg", det);
            expect_names(abs(-a), na, "abs", det);
            {
                T x = a;
                const int q = r.below(4);
                T &t = q == 0 ? x += b : q == 1 ? x -= b
                                       : q == 2 ? x *= b
                                                : x /= b;
                expect_names(t, unite(na, nb), "compound", det);
                T y = a;
                T &s = q == 0 ? y += y : q == 1 ? y -= y
                                       : q == 2 ? y *= y
                                                : y /= y;
                expect_names(s, na, "compound_self", det);
                T z = a;
                const S v = S(r.pick({0.0, 1.0, 2.0, -1.0}));
                T &w = q == 0 ? z += v : q == 1 ? z -= v
                                       : q == 2 ? z *= v
                                                : z /= v;
                expect_names(w, na, "compound_scalar", det);
            }
            // reads do not add names
            for (int i = 0; i < 10; i++)
                (void)a.d(safe[r.below(int(safe.size()))]);
            (void)a.d("");
            (void)(a == b), (void)(a < b);
            (void)a.eval({{"x", S(1)}, {"q", S(2)}});
            expect_names(a, na, "after_reads", det);
            if (!same_sparse(a, ka, qa) || !same_sparse(b, kb, qb))
                R.violation("operand/" + tn, "an operand changed\n  " + det);
            // stored partials are returned as stored
            for (auto &d : qa.d)
                if (Q(a.d(d.first)) != d.second.first)
                    R.violation("stored/" + tn, "d('" + d.first + "') = " + ss(a.d(d.first)) + ", stored " + qs(d.second.first));
        }

        for (int k = 0; k < R.n(600); k++)
        {
            if (!R.begin(tn + "/factories/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const S v = r.chance(0.2) ? S(r.pick({0.0, -0.0, HUGE_VAL, -HUGE_VAL})) : S(r.U(-9, 9));
            const std::string n = safe[r.below(int(safe.size()))];
            R.seen(hash_str(n, mix(u64(double(v) * 1e6))));
            auto value = [&](const T &x, const std::string &what)
            {
                if (!same_bits(x.f(), v))
                    R.violation("value/" + what + "/" + tn, "f() = " + ss(x.f()) + ", expected " + ss(v));
            };
            const T c = T::constant(v), s(v), e = T(v, typename T::Data());
            expect_names(c, {}, "constant", ""), value(c, "constant");
            expect_names(s, {}, "constant", ""), value(s, "scalar");
            expect_names(e, {}, "constant", ""), value(e, "empty");
            const T x = T::variable(n, v);
            expect_names(x, {n}, "variable", n), value(x, "variable");
            if (x.d(n) != S(1))
                R.violation("variable/" + tn, "d('" + n + "') = " + ss(x.d(n)));
            // any name at all, also ones that can not be parsed from the text
            const std::string w = name_pool()[r.below(int(name_pool().size()))];
            const T y = T::variable(w, v);
            R.evals++;
            R.count("any_name");
            if (y.size() != 1 || y.d(w) != S(1) || y.d(w + "'") != 0 || (y + x).size() != (w == n ? 1 : 2))
                R.violation("variable/" + tn, "name '" + w + "'");
            // copies are independent
            T d = x;
            d *= S(3);
            d += T::variable("other", S(1));
            expect_names(x, {n}, "copy_source", n);
            if (x.d(n) != S(1))
                R.violation("copy/" + tn, "the source of a copy changed");
        }

        // the order in which names are introduced does not matter
        for (int k = 0; k < R.n(800); k++)
        {
            if (!R.begin(tn + "/order/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int m = 2 + r.below(30);
            std::vector<std::pair<std::string, S>> v;
            for (int i = 0; i < m; i++)
                v.emplace_back(name_pool()[r.below(int(name_pool().size()))], S(r.below(17) - 8)); // exact sums
            auto sum = [&](const std::vector<std::pair<std::string, S>> &w, int how)
            {
                T x = T::constant(S(2));
                for (auto &e : w)
                {
                    const T t = T::variable(e.first, S(1)) * e.second;
                    if (how == 0)
                        x = x + t;
                    else if (how == 1)
                        x = t + x;
                    else
                        x += t;
                }
                return x;
            };
            auto w = v;
            for (int i = m - 1; i > 0; i--)
                std::swap(w[i], w[r.below(i + 1)]);
            const T x = sum(v, r.below(3)), y = sum(w, r.below(3));
            SJ q;
            for (auto &e : v)
                q.d[e.first].first += Q(e.second);
            R.seen(sj_hash(q, hash_str(tn + "order")));
            R.evals++;
            R.count("orders");
            if (!same_sparse(x, y, q) || x.size() != Ix(q.d.size()))
                R.violation("order/" + tn, "sums in different orders differ: " + shows(x, q) + "\n  and " + shows(y, q));
            for (auto &e : q.d)
                if (Q(x.d(e.first)) != e.second.first)
                    R.violation("order/" + tn, "d('" + e.first + "') = " + ss(x.d(e.first)) + ", expected " + qs(e.second.first));
            // the same function of jets equal up to the order of introduction
            const int op = r.below(B_COUNT);
            const T z = T::variable("z", S(1.5)) + T::variable("x", S(0.25));
            const T fx = b_op(op, x + S(300), z), fy = b_op(op, y + S(300), z);
            SJ qz;
            qz.f = z.f(), q.f = Q(x.f()) + 300;
            qz.d["z"] = qz.d["x"] = {1, 1};
            for (auto &e : q.d)
                e.second.second = qabs(e.second.first);
            const SJ e = schain({&q, &qz}, psi(op, q.f, qz.f));
            check_sparse<S>(fx, e, "order/" + tn, [&]
                            { return B_NAME[op]; });
            check_sparse<S>(fy, e, "order/" + tn, [&]
                            { return B_NAME[op]; });
        }

        for (int k = 0; k < R.n(2000); k++)
        {
            if (!R.begin(tn + "/eval/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            SJ q;
            const T a = make_sparse<S>(S(r.U(-5, 5)), r, q), ka = a;
            typename T::Data d;
            Q e = 0, m = 0;
            for (auto &n : gen_names(r))
                d[n] = gen_coef<S>(r, r.pick({0, 1, 2}));
            if (r.chance(0.5)) // cover more of the names of a
                for (auto &x : q.d)
                    if (r.chance(0.7))
                        d[x.first] = gen_coef<S>(r, 0);
            int common = 0;
            for (auto &x : d)
                if (q.d.count(x.first))
                    e += q.d[x.first].first * Q(x.second), m += qabs(q.d[x.first].first * Q(x.second)), common++;
            const S got = a.eval(d);
            R.evals++;
            R.count("eval");
            R.count(common == 0 ? "eval_disjoint" : common < int(q.d.size()) ? "eval_partial"
                                                                                 : "eval_all");
            R.seen(sj_hash(q, hash_str(tn + "eval")));
            if (judge<S>(got, e, m) == BAD)
                R.violation("eval/" + tn, "eval = " + ss(got) + ", expected " + qs(e) + fmt(" (%d common names)\n  ", common) + shows(a, q));
            if (!same_sparse(a, ka, q))
                R.violation("eval_changes/" + tn, shows(a, q));
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 80
    Test()(Sp<double>());
#elif SHARD == 81
    Test()(Sp<float>());
#else
    Test()(Sp<long double>());
#endif
    return R.finish();
}
