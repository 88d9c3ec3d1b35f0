// C15: Eigen expressions over static jets against the defining formulas,
// evaluated in quad precision with the magnitudes of all terms.
#include "common.hpp"
#include <Eigen/LU>
#include <Eigen/Geometry>
using namespace hv;

// QJ arithmetic whose magnitudes accumulate along the formula
static QJ lift(Q c, int n)
{
    QJ r(n);
    r.f = c, r.fm = qabs(c);
    return r;
}
static QJ lin(const QJ &a, Q s, const QJ &b, Q t) // s a + t b
{
    QJ r(a.n);
    r.f = s * a.f + t * b.f, r.fm = qabs(s) * a.fm + qabs(t) * b.fm;
    for (int i = 0; i < a.n; i++)
        r.g[i] = s * a.g[i] + t * b.g[i], r.gm[i] = qabs(s) * a.gm[i] + qabs(t) * b.gm[i];
    for (int i = 0; i < a.n * a.n; i++)
        r.H[i] = s * a.H[i] + t * b.H[i], r.Hm[i] = qabs(s) * a.Hm[i] + qabs(t) * b.Hm[i];
    return r;
}
static QJ operator+(const QJ &a, const QJ &b) { return lin(a, 1, b, 1); }
static QJ operator-(const QJ &a, const QJ &b) { return lin(a, 1, b, -1); }
static QJ operator-(const QJ &a) { return lin(a, -1, a, 0); }
static QJ operator*(const QJ &a, const QJ &b)
{
    QJ r(a.n);
    const int n = a.n;
    r.f = a.f * b.f, r.fm = a.fm * b.fm;
    for (int i = 0; i < n; i++)
        r.g[i] = a.f * b.g[i] + b.f * a.g[i], r.gm[i] = a.fm * b.gm[i] + b.fm * a.gm[i];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
        {
            const int k = i * n + j;
            r.H[k] = a.f * b.H[k] + b.f * a.H[k] + a.g[i] * b.g[j] + a.g[j] * b.g[i];
            r.Hm[k] = a.fm * b.Hm[k] + b.fm * a.Hm[k] + a.gm[i] * b.gm[j] + a.gm[j] * b.gm[i];
        }
    return r;
}
static QJ fn(int op, const QJ &a)
{
    const D1 p = phi(op, a.f, 0);
    const Q c = a.f == 0 ? Q(1) : 1 + a.fm / qabs(a.f); // condition of the argument
    const int n = a.n;
    QJ r(n);
    const Q dm = p.dm * c, ddm = p.ddm * c * c;
    r.f = p.f, r.fm = p.fm + p.dm * a.fm;
    for (int i = 0; i < n; i++)
        r.g[i] = p.d * a.g[i], r.gm[i] = dm * a.gm[i];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
        {
            const int k = i * n + j;
            r.H[k] = p.d * a.H[k] + p.dd * a.g[i] * a.g[j];
            r.Hm[k] = dm * a.Hm[k] + ddm * a.gm[i] * a.gm[j];
        }
    return r;
}
static QJ operator/(const QJ &a, const QJ &b) { return a * fn(U_RECIP, b); }

template <class Y>
struct Monitor
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    static constexpr int n = Y::SIZE;
    const std::string tn = Y::name();
    Rng *r = nullptr;

    using QV = std::vector<QJ>; // row major

    S coef() { return S(r->sgn()) * S(r->U(0.1, 3)); }
    T jet() { return make_jet<Y>(n, coef(), *r, r->pick({0, 0, 1, 2, 6})); }

    template <class M>
    M fill(int rows, int cols)
    {
        M m(rows, cols);
        for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++)
                m(i, j) = jet();
        return m;
    }
    template <class M>
    M fill_plain(int rows, int cols)
    {
        M m(rows, cols);
        for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++)
                m(i, j) = coef();
        return m;
    }
    template <class M>
    QV q(const M &m)
    {
        QV v;
        for (int i = 0; i < m.rows(); i++)
            for (int j = 0; j < m.cols(); j++)
                v.push_back(one(m(i, j)));
        return v;
    }
    QJ one(const T &x) { return to_q<Y>(x, n); }
    QJ one(S x) { return lift(x, n); }

    void check1(const std::string &what, const T &got, const QJ &e)
    {
        R.step(what);
        R.count("op_" + what);
        R.seen(jet_hash<Y>(got, hash_str(tn + what)));
        check_jet<Y>(got, e, what + "/" + tn, [&]
                     { return what; });
    }
    template <class M>
    void check(const std::string &what, const M &got, int rows, int cols, const std::function<QJ(int, int)> &e)
    {
        R.step(what);
        if (got.rows() != rows || got.cols() != cols)
        {
            R.violation("shape/" + what + "/" + tn, fmt("%ld x %ld", long(got.rows()), long(got.cols())));
            return;
        }
        R.count("op_" + what);
        for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++)
            {
                const T x = got(i, j);
                R.seen(jet_hash<Y>(x, hash_str(tn + what)));
                if (!check_jet<Y>(x, e(i, j), what + "/" + tn, [&]
                                  { return what + fmt(" element %d,%d", i, j); }))
                    return;
            }
    }

    static QJ det(const QV &m, int k)
    {
        if (k == 1)
            return m[0];
        QJ s = lift(0, m[0].n);
        for (int c = 0; c < k; c++)
        {
            QV sub;
            for (int i = 1; i < k; i++)
                for (int j = 0; j < k; j++)
                    if (j != c)
                        sub.push_back(m[i * k + j]);
            s = lin(s, 1, m[c] * det(sub, k - 1), c % 2 ? -1 : 1);
        }
        return s;
    }
    static QJ dot(const QV &a, const QV &b)
    {
        QJ s = lift(0, a[0].n);
        for (std::size_t i = 0; i < a.size(); i++)
            s = s + a[i] * b[i];
        return s;
    }

    template <int K>
    void vectors(const std::string &suffix, int k)
    {
        using V = Eigen::Matrix<T, K, 1>;
        using P = Eigen::Matrix<S, K, 1>;
        const V a = fill<V>(k, 1), b = fill<V>(k, 1);
        const P p = fill_plain<P>(k, 1);
        const T s = jet();
        const S c = coef();
        const QV qa = q(a), qb = q(b), qp = q(p);
        const QJ qj = one(s), qc = one(c);
        auto vec = [&](const std::string &w, const auto &got, const std::function<QJ(int)> &e)
        { check(w + suffix, got, k, 1, [&](int i, int) { return e(i); }); };
        vec("add", V(a + b), [&](int i) { return qa[i] + qb[i]; });
        vec("sub", V(a - b), [&](int i) { return qa[i] - qb[i]; });
        vec("neg", V(-a), [&](int i) { return -qa[i]; });
        vec("combination", V(a * c + b * s - a), [&](int i) { return qa[i] * qc + qb[i] * qj - qa[i]; });
        vec("jet_times", V(s * a), [&](int i) { return qa[i] * qj; });
        vec("times_jet", V(a * s), [&](int i) { return qa[i] * qj; });
        vec("over_jet", V(a / s), [&](int i) { return qa[i] / qj; });
        vec("scalar_times", V(c * a), [&](int i) { return qa[i] * qc; });
        vec("times_scalar", V(a * c), [&](int i) { return qa[i] * qc; });
        vec("over_scalar", V(a / c), [&](int i) { return qa[i] / qc; });
        vec("cwise_product", V(a.cwiseProduct(b)), [&](int i) { return qa[i] * qb[i]; });
        vec("cwise_quotient", V(a.cwiseQuotient(b)), [&](int i) { return qa[i] / qb[i]; });
        vec("add_plain", V(a + p), [&](int i) { return qa[i] + qp[i]; });
        vec("plain_sub", V(p - a), [&](int i) { return qp[i] - qa[i]; });
        vec("plain_cwise", V(p.cwiseProduct(a)), [&](int i) { return qp[i] * qa[i]; });
        vec("plain_times_jet", V(p * s), [&](int i) { return qp[i] * qj; });
        V t = a;
        t += b;
        t *= c;
        t -= a;
        t *= s;
        t /= c;
        vec("in_place", t, [&](int i) { return ((qa[i] + qb[i]) * qc - qa[i]) * qj / qc; });
        t = a;
        t /= s;
        vec("in_place_over_jet", t, [&](int i) { return qa[i] / qj; });
        check1("dot" + suffix, a.dot(b), dot(qa, qb));
        check1("dot_self" + suffix, a.dot(a), dot(qa, qa));
        check1("dot_plain" + suffix, a.dot(p), dot(qa, qp));
        check1("plain_dot" + suffix, p.dot(a), dot(qa, qp));
        check1("inner" + suffix, T((a.transpose() * b)(0, 0)), dot(qa, qb));
        check1("squared_norm" + suffix, a.squaredNorm(), dot(qa, qa));
        const QJ norm = fn(U_SQRT, dot(qa, qa));
        check1("norm" + suffix, a.norm(), norm);
        vec("normalized", V(a.normalized()), [&](int i) { return qa[i] / norm; });
        t = a;
        t.normalize();
        vec("normalize", t, [&](int i) { return qa[i] / norm; });
        check1("distance" + suffix, (a - b).norm(), fn(U_SQRT, dot([&] { QV d; for (int i = 0; i < k; i++) d.push_back(qa[i] - qb[i]); return d; }(), [&] { QV d; for (int i = 0; i < k; i++) d.push_back(qa[i] - qb[i]); return d; }())));
        QJ sum = qa[0], prod = qa[0];
        for (int i = 1; i < k; i++)
            sum = sum + qa[i], prod = prod * qa[i];
        check1("sum" + suffix, a.sum(), sum);
        check1("prod" + suffix, a.prod(), prod);
        check(std::string("outer") + suffix, (a * b.transpose()).eval(), k, k, [&](int i, int j) { return qa[i] * qb[j]; });
        vec("constant", V(V::Constant(k, s)), [&](int) { return qj; });
        vec("zero", V(V::Zero(k)), [&](int) { return lift(0, n); });
        vec("ones", V(V::Ones(k)), [&](int) { return lift(1, n); });
        vec("reverse", V(a.reverse()), [&](int i) { return qa[k - 1 - i]; });
        // formulas with intermediate vectors
        const V u = a * (b.dot(a) / a.squaredNorm());
        const QJ f = dot(qa, qb) / dot(qa, qa);
        vec("projection", u, [&](int i) { return qa[i] * f; });
        R.sample(tn + " vectors of length " + std::to_string(k) + " a(0) " + show<Y>(a(0)));
    }

    // coefficient-wise functions, norms other than the Euclidean one, extrema
    template <int K>
    void coefficients(const std::string &suffix, int k)
    {
        using V = Eigen::Matrix<T, K, 1>;
        const V a = fill<V>(k, 1), b = fill<V>(k, 1);
        const QV qa = q(a), qb = q(b);
        QV ab(k);
        for (int i = 0; i < k; i++)
            ab[i] = qa[i].f < 0 ? -qa[i] : qa[i];
        const V pos = a.cwiseAbs();
        const T s = jet();
        const S c = coef();
        const QJ qj = one(s), qc = one(c);
        auto vec = [&](const std::string &w, const auto &got, const std::function<QJ(int)> &e)
        { check(w + suffix, got, k, 1, [&](int i, int) { return e(i); }); };
        vec("cwise_abs", pos, [&](int i) { return ab[i]; });
        vec("cwise_abs2", V(a.cwiseAbs2()), [&](int i) { return qa[i] * qa[i]; });
        vec("cwise_inverse", V(a.cwiseInverse()), [&](int i) { return fn(U_RECIP, qa[i]); });
        vec("cwise_sqrt", V(pos.cwiseSqrt()), [&](int i) { return fn(U_SQRT, ab[i]); });
        vec("cwise_min", V(a.cwiseMin(b)), [&](int i) { return qb[i].f < qa[i].f ? qb[i] : qa[i]; });
        vec("cwise_max", V(a.cwiseMax(b)), [&](int i) { return qb[i].f > qa[i].f ? qb[i] : qa[i]; });
        vec("array_max", V(a.array().max(b.array())), [&](int i) { return qb[i].f > qa[i].f ? qb[i] : qa[i]; });
        vec("array_sin", V(a.array().sin()), [&](int i) { return fn(U_SIN, qa[i]); });
        vec("array_cos", V(a.array().cos()), [&](int i) { return fn(U_COS, qa[i]); });
        vec("array_exp", V(a.array().exp()), [&](int i) { return fn(U_EXP, qa[i]); });
        vec("array_atan", V(a.array().atan()), [&](int i) { return fn(U_ATAN, qa[i]); });
        vec("array_sinh", V(a.array().sinh()), [&](int i) { return fn(U_SINH, qa[i]); });
        vec("array_cosh", V(a.array().cosh()), [&](int i) { return fn(U_COSH, qa[i]); });
        vec("array_tanh", V(a.array().tanh()), [&](int i) { return fn(U_TANH, qa[i]); });
        vec("array_log", V(pos.array().log()), [&](int i) { return fn(U_LOG, ab[i]); });
        vec("array_log10", V(pos.array().log10()), [&](int i) { return fn(U_LOG10, ab[i]); });
        vec("array_square", V(a.array().square()), [&](int i) { return qa[i] * qa[i]; });
        vec("array_cube", V(a.array().cube()), [&](int i) { return qa[i] * qa[i] * qa[i]; });
        vec("array_inverse", V(a.array().inverse()), [&](int i) { return fn(U_RECIP, qa[i]); });
        vec("array_product", V(a.array() * b.array()), [&](int i) { return qa[i] * qb[i]; });
        vec("array_quotient", V(a.array() / b.array()), [&](int i) { return qa[i] / qb[i]; });
        vec("array_plus_jet", V(a.array() + s), [&](int i) { return qa[i] + qj; });
        vec("array_minus_scalar", V(a.array() - c), [&](int i) { return qa[i] - qc; });
        vec("select", V((a.array() < b.array()).select(a, b)), [&](int i) { return qa[i].f < qb[i].f ? qa[i] : qb[i]; });
        vec("unary_expr", V(a.unaryExpr([](const T &x) { return T(x * x + x); })), [&](int i) { return qa[i] * qa[i] + qa[i]; });
        vec("binary_expr", V(a.binaryExpr(b, [](const T &x, const T &y) { return T(x * y - x); })), [&](int i) { return qa[i] * qb[i] - qa[i]; });
        vec("plain_cast", V(fill_plain<Eigen::Matrix<S, K, 1>>(k, 1).template cast<T>() * S(0) + a), [&](int i) { return qa[i]; });
        QJ l1 = ab[0], sum = qa[0];
        int lo = 0, hi = 0, big = 0;
        for (int i = 1; i < k; i++)
        {
            l1 = l1 + ab[i], sum = sum + qa[i];
            if (qa[i].f < qa[lo].f)
                lo = i;
            if (qa[i].f > qa[hi].f)
                hi = i;
            if (ab[i].f > ab[big].f)
                big = i;
        }
        check1("norm_l1" + suffix, a.template lpNorm<1>(), l1);
        check1("norm_l2" + suffix, a.template lpNorm<2>(), fn(U_SQRT, dot(qa, qa)));
        check1("norm_inf" + suffix, a.template lpNorm<Eigen::Infinity>(), ab[big]);
        check1("abs_sum" + suffix, pos.sum(), l1);
        int at = -1;
        check1("min_coeff" + suffix, a.minCoeff(), qa[lo]);
        check1("max_coeff" + suffix, a.maxCoeff(&at), qa[hi]);
        R.step("maxCoeff");
        if (at != hi)
            R.violation("max_index/" + tn, fmt("%d instead of %d", at, hi));
        check1("mean" + suffix, a.mean(), sum * lift(Q(S(1) / S(k)), n));
        check1("redux" + suffix, a.redux([](const T &x, const T &y) { return T(x + y); }), sum);
        check1("stable_norm" + suffix, a.stableNorm(), wide(fn(U_SQRT, dot(qa, qa)), 16 * k));
    }
    static QJ wide(QJ a, Q s)
    {
        a.fm *= s;
        for (auto &x : a.gm)
            x *= s;
        for (auto &x : a.Hm)
            x *= s;
        return a;
    }

    // linear systems by the decompositions of Eigen against Cramer's rule
    template <int K>
    void solve()
    {
        using M = Eigen::Matrix<T, K, K>;
        using V = Eigen::Matrix<T, K, 1>;
        const std::string suffix = std::to_string(K);
        M a = fill<M>(K, K);
        for (int i = 0; i < K; i++)
            a(i, i) += S(8) * S(i % 2 && r->chance(0.5) ? -1 : 1);
        if (r->chance(0.3)) // has to pivot
            a.row(0).swap(a.row(K - 1));
        const V b = fill<V>(K, 1);
        auto cramer = [&](const M &m, int c)
        {
            const QV qm = q(m), qv = q(b);
            QV t = qm;
            for (int i = 0; i < K; i++)
                t[i * K + c] = qv[i];
            return wide(det(t, K) / det(qm, K), 8);
        };
        auto go = [&](const std::string &w, const M &m, const V &x)
        { check(w + suffix, x, K, 1, [&](int i, int) { return cramer(m, i); }); };
        go("partial_piv_lu", a, V(a.partialPivLu().solve(b)));
        go("full_piv_lu", a, V(a.fullPivLu().solve(b)));
        go("householder_qr", a, V(a.householderQr().solve(b)));
        go("col_piv_qr", a, V(a.colPivHouseholderQr().solve(b)));
        M sym = fill<M>(K, K);
        sym = M(sym + sym.transpose());
        for (int i = 0; i < K; i++)
            sym(i, i) = jet() * S(0.25) + S(16);
        go("llt", sym, V(sym.llt().solve(b)));
        go("ldlt", sym, V(sym.ldlt().solve(b)));
        M up = a;
        for (int i = 0; i < K; i++)
        {
            up(i, i) = jet() + S(8);
            for (int j = 0; j < i; j++)
                up(i, j) = S(0);
        }
        go("triangular", up, V(up.template triangularView<Eigen::Upper>().solve(b)));
        const M low = up.transpose();
        go("triangular_lower", low, V(low.template triangularView<Eigen::Lower>().solve(b)));
    }

    void rotations()
    {
        using V = Eigen::Matrix<T, 3, 1>;
        using M = Eigen::Matrix<T, 3, 3>;
        const T t = jet();
        const V b = fill<V>(3, 1);
        const QV qb = q(b);
        const QJ co = fn(U_COS, one(t)), si = fn(U_SIN, one(t));
        const M rz = Eigen::AngleAxis<T>(t, V(V::UnitZ())).toRotationMatrix();
        const QJ z = lift(0, n), o = lift(1, n);
        const QV m{co, -si, z, si, co, z, z, z, o};
        check("angle_axis", rz, 3, 3, [&](int i, int j) { return wide(m[i * 3 + j], 8) + zero_with(co, si); });
        const V rb = rz * b;
        check("rotated", rb, 3, 1, [&](int i, int) { return m[i * 3] * qb[0] + m[i * 3 + 1] * qb[1] + m[i * 3 + 2] * qb[2] + zero_with(co * qb[0], si * qb[1]) + zero_with(co * qb[1], si * qb[0]) + zero_with(co * qb[2], si * qb[2]); });
        const Eigen::Quaternion<T> qu(jet(), jet(), jet(), jet());
        const QJ w = one(qu.w()), x = one(qu.x()), y = one(qu.y()), zz = one(qu.z());
        check1("quaternion_norm", qu.squaredNorm(), w * w + x * x + y * y + zz * zz);
        const M rq = qu.toRotationMatrix();
        check1("quaternion_01", rq(0, 1), lin(x * y, 2, w * zz, -2));
        check1("quaternion_20", rq(2, 0), lin(x * zz, 2, w * y, -2));
        check1("quaternion_11", rq(1, 1), o - lin(x * x, 2, zz * zz, 2));
    }
    // nothing, with the magnitudes of a and b
    static QJ zero_with(const QJ &a, const QJ &b)
    {
        QJ r(a.n);
        r.fm = a.fm + b.fm;
        for (std::size_t i = 0; i < r.gm.size(); i++)
            r.gm[i] = a.gm[i] + b.gm[i];
        for (std::size_t i = 0; i < r.Hm.size(); i++)
            r.Hm[i] = a.Hm[i] + b.Hm[i];
        return r;
    }

    void cross()
    {
        using V = Eigen::Matrix<T, 3, 1>;
        using P = Eigen::Matrix<S, 3, 1>;
        const V a = fill<V>(3, 1), b = fill<V>(3, 1), c = fill<V>(3, 1);
        const P p = fill_plain<P>(3, 1);
        const QV x = q(a), y = q(b), z = q(c), w = q(p);
        auto cr = [](const QV &x, const QV &y, int i)
        { const int j = (i + 1) % 3, k = (i + 2) % 3; return x[j] * y[k] - x[k] * y[j]; };
        check("cross", V(a.cross(b)), 3, 1, [&](int i, int) { return cr(x, y, i); });
        check("cross_self", V(a.cross(a)), 3, 1, [&](int i, int) { return cr(x, x, i); });
        check("cross_row", Eigen::Matrix<T, 1, 3>(a.transpose().cross(b.transpose())), 1, 3, [&](int, int i) { return cr(x, y, i); });
        const V pj = p.template cast<T>();
        check("cross_cast", V(pj.cross(a)), 3, 1, [&](int i, int) { return cr(w, x, i); });
        check1("triple_product", a.cross(b).dot(c), x[0] * cr(y, z, 0) + x[1] * cr(y, z, 1) + x[2] * cr(y, z, 2));
        const QJ a2 = fn(U_SQRT, cr(x, y, 0) * cr(x, y, 0) + cr(x, y, 1) * cr(x, y, 1) + cr(x, y, 2) * cr(x, y, 2));
        check1("area", a.cross(b).norm(), a2);
    }

    template <int A, int B, int C>
    void matrices(const std::string &suffix, int ra, int ca, int cb)
    {
        using MA = Eigen::Matrix<T, A, B>;
        using MB = Eigen::Matrix<T, B, C>;
        using MC = Eigen::Matrix<T, A, C>;
        using V = Eigen::Matrix<T, B, 1>;
        using PA = Eigen::Matrix<S, A, B>;
        using PV = Eigen::Matrix<S, B, 1>;
        const MA a = fill<MA>(ra, ca), a2 = fill<MA>(ra, ca);
        const MB b = fill<MB>(ca, cb);
        const V v = fill<V>(ca, 1);
        const PA p = fill_plain<PA>(ra, ca);
        const PV w = fill_plain<PV>(ca, 1);
        const QV qa = q(a), qa2 = q(a2), qb = q(b), qv = q(v), qp = q(p), qw = q(w);
        const T s = jet();
        const QJ qj = one(s);
        auto mul = [&](const QV &x, const QV &y, int cols, int i, int j)
        {
            QJ t = lift(0, n);
            for (int k = 0; k < ca; k++)
                t = t + x[i * ca + k] * y[k * cols + j];
            return t;
        };
        check("mat_mat" + suffix, MC(a * b), ra, cb, [&](int i, int j) { return mul(qa, qb, cb, i, j); });
        check("mat_vec" + suffix, (a * v).eval(), ra, 1, [&](int i, int) { return mul(qa, qv, 1, i, 0); });
        if constexpr (A > 0) // Eigen's blocked products do not take mixed scalar types
        {
        check("plain_mat_mat" + suffix, (p * b).eval(), ra, cb, [&](int i, int j) { return mul(qp, qb, cb, i, j); });
        check("plain_mat_vec" + suffix, (p * v).eval(), ra, 1, [&](int i, int) { return mul(qp, qv, 1, i, 0); });
        check("mat_plain_vec" + suffix, (a * w).eval(), ra, 1, [&](int i, int) { return mul(qa, qw, 1, i, 0); });
        }
        check("mat_add" + suffix, MA(a + a2), ra, ca, [&](int i, int j) { return qa[i * ca + j] + qa2[i * ca + j]; });
        check("mat_sub" + suffix, MA(a - a2), ra, ca, [&](int i, int j) { return qa[i * ca + j] - qa2[i * ca + j]; });
        check("mat_scale" + suffix, MA(s * a - a2 * S(2)), ra, ca, [&](int i, int j) { return lin(qj * qa[i * ca + j], 1, qa2[i * ca + j], -2); });
        check("transpose" + suffix, a.transpose().eval(), ca, ra, [&](int i, int j) { return qa[j * ca + i]; });
        check("gram" + suffix, (a.transpose() * a2).eval(), ca, ca, [&](int i, int j) {
            QJ t = lift(0, n);
            for (int k = 0; k < ra; k++)
                t = t + qa[k * ca + i] * qa2[k * ca + j];
            return t; });
        MC acc = MC::Zero(ra, cb);
        acc += a * b;
        acc.noalias() -= a2 * b;
        check("mat_accumulate" + suffix, acc, ra, cb, [&](int i, int j) { return mul(qa, qb, cb, i, j) - mul(qa2, qb, cb, i, j); });
        QJ fro = lift(0, n), sum = lift(0, n);
        for (auto &x : qa)
            fro = fro + x * x, sum = sum + x;
        check1("mat_squared_norm" + suffix, a.squaredNorm(), fro);
        check1("mat_norm" + suffix, a.norm(), fn(U_SQRT, fro));
        check1("mat_sum" + suffix, a.sum(), sum);
        check("row_col" + suffix, (a.row(ra - 1).transpose() + b.col(0)).eval(), ca, 1, [&](int i, int) { return qa[(ra - 1) * ca + i] + qb[i * cb]; });
        check("colwise_sum" + suffix, a.colwise().sum().eval(), 1, ca, [&](int, int j) {
            QJ t = lift(0, n);
            for (int i = 0; i < ra; i++)
                t = t + qa[i * ca + j];
            return t; });
    }

    template <int K>
    void square(const std::string &suffix, int k)
    {
        using M = Eigen::Matrix<T, K, K>;
        using V = Eigen::Matrix<T, K, 1>;
        const M a = fill<M>(k, k);
        const V v = fill<V>(k, 1), w = fill<V>(k, 1);
        const QV qa = q(a), qv = q(v), qw = q(w);
        QJ tr = lift(0, n), form = lift(0, n);
        for (int i = 0; i < k; i++)
        {
            tr = tr + qa[i * k + i];
            for (int j = 0; j < k; j++)
                form = form + qv[i] * qa[i * k + j] * qw[j];
        }
        check1("trace" + suffix, a.trace(), tr);
        check1("bilinear" + suffix, T((v.transpose() * a * w)(0, 0)), form);
        check("identity" + suffix, M(M::Identity(k, k) * a), k, k, [&](int i, int j) { return qa[i * k + j]; });
        check("diagonal" + suffix, V(a.diagonal()), k, 1, [&](int i, int) { return qa[i * k + i]; });
        M t = a;
        t *= a;
        check("mat_square" + suffix, t, k, k, [&](int i, int j) {
            QJ s = lift(0, n);
            for (int l = 0; l < k; l++)
                s = s + qa[i * k + l] * qa[l * k + j];
            return s; });
        t = a;
        t.transposeInPlace();
        check("transpose_in_place" + suffix, t, k, k, [&](int i, int j) { return qa[j * k + i]; });
        if constexpr (K > 0 && K <= 4)
            check1("determinant" + suffix, a.determinant(), det(qa, k));
    }
    template <int K>
    void inverse()
    {
        using M = Eigen::Matrix<T, K, K>;
        M a = fill<M>(K, K);
        for (int i = 0; i < K; i++)
            a(i, i) += S(6); // well conditioned
        const QV qa = q(a);
        const QJ d = det(qa, K);
        check("inverse" + std::to_string(K), M(a.inverse()), K, K, [&](int i, int j) {
            QV sub;
            for (int x = 0; x < K; x++)
                for (int y = 0; y < K; y++)
                    if (x != j && y != i)
                        sub.push_back(qa[x * K + y]);
            const QJ c = det(sub, K - 1) / d;
            return (i + j) % 2 ? -c : c; });
    }

    void run()
    {
        const int N = R.n(25);
        for (int k = 0; k < N; k++)
        {
            auto go = [&](const char *w, auto f)
            {
                if (R.begin(tn + "/" + w + "/" + std::to_string(k)))
                {
                    r = &R.rng;
                    f();
                }
            };
#if SHARD < 100
            go("vector3", [&] { vectors<3>("", 3); });
            go("cross", [&] { cross(); });
            go("matrix", [&] { matrices<2, 3, 2>("", 2, 3, 2); });
            go("square2", [&] { square<2>("2", 2); });
            go("square3", [&] { square<3>("3", 3); });
            go("square4", [&] { square<4>("4", 4); });
            if (k % 5 == 0)
            {
                go("vectorx", [&] { vectors<Eigen::Dynamic>("_dynamic", 1 + R.rng.below(9)); });
                go("matrixx", [&] { const int m = n > 6 ? 5 : 9; matrices<Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic>("_dynamic", 1 + R.rng.below(m), 1 + R.rng.below(m), 1 + R.rng.below(m)); });
                go("squarex", [&] { square<Eigen::Dynamic>("_dynamic", 1 + R.rng.below(5)); });
            }
#else
            go("inverse2", [&] { inverse<2>(); });
            go("inverse3", [&] { inverse<3>(); });
            go("coefficients", [&] { coefficients<4>("", 4); });
            go("solve2", [&] { solve<2>(); });
            go("solve3", [&] { solve<3>(); });
            go("rotations", [&] { rotations(); });
            if (k % 5 == 0)
                go("coefficientsx", [&] { coefficients<Eigen::Dynamic>("_dynamic", 1 + R.rng.below(9)); });
#endif
        }
    }
};

// dynamic jets of one size in the expressions that create no constants of their own
template <class Y>
struct Dynamic
{
    using S = typename Y::Scalar;
    using T = typename Y::T;
    using V = Eigen::Matrix<T, Eigen::Dynamic, 1>;
    using M = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
    using V3 = Eigen::Matrix<T, 3, 1>;
    using M3 = Eigen::Matrix<T, 3, 3>;
    using QV = std::vector<QJ>; // row major
    const std::string tn = Y::name();

    template <class X>
    void check(const std::string &what, const X &got, int rows, int cols, const std::function<QJ(int, int)> &e)
    {
        R.step(what);
        if (got.rows() != rows || got.cols() != cols)
        {
            R.violation("shape/" + what + "/" + tn, fmt("%ld x %ld", long(got.rows()), long(got.cols())));
            return;
        }
        R.count("dynamic_" + what);
        for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++)
            {
                const T x = got(i, j);
                R.seen(jet_hash<Y>(x, hash_str(tn + what)));
                if (!check_jet<Y>(x, e(i, j), what + "/" + tn, [&]
                                  { return what + fmt(" element %d,%d", i, j); }))
                    return;
            }
    }
    void check1(const std::string &what, const T &got, const QJ &e)
    {
        Eigen::Matrix<T, 1, 1> m;
        m(0, 0) = got;
        check(what, m, 1, 1, [&](int, int) { return e; });
    }

    void run(int cases)
    {
        for (int c = 0; c < cases; c++)
        {
            if (!R.begin(tn + "/dynamic/" + std::to_string(c)))
                continue;
            Rng &r = R.rng;
            const int n = r.pick({0, 1, 2, 3, 5, 12}), k = 1 + r.below(5);
            auto jet = [&] { return make_jet<Y>(n, S(r.sgn()) * S(r.U(0.3, 3)), r, r.pick({0, 0, 1, 2, 6})); };
            auto fill = [&](auto &m) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = jet(); };
            auto q = [&](const auto &m) { QV v; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) v.push_back(to_q<Y>(m(i, j), n)); return v; };
            V a(k), b(k);
            M m(k, k), o(k, k);
            V3 x, y;
            M3 p, w;
            fill(a), fill(b), fill(m), fill(o), fill(x), fill(y), fill(p), fill(w);
            const S s = S(r.U(0.5, 2));
            const QV A = q(a), B = q(b), MM = q(m), O = q(o), X = q(x), Z = q(y), P = q(p), W = q(w);
            auto sum = [&](const std::function<QJ(int)> &f, int count) { QJ t = f(0); for (int i = 1; i < count; i++) t = t + f(i); return t; };
            using F = std::function<QJ(int)>;
            auto vec = [&](const char *what, const V &got, const F &e) { check(what, got, k, 1, [&](int i, int) { return e(i); }); };
            vec("add", a + b, [&](int i) { return A[i] + B[i]; });
            vec("sub", a - b, [&](int i) { return A[i] - B[i]; });
            vec("neg", -a, [&](int i) { return -A[i]; });
            vec("times_scalar", a * s, [&](int i) { return A[i] * lift(s, n); });
            vec("over_scalar", a / s, [&](int i) { return A[i] / lift(s, n); });
            vec("times_jet", a * b[0], [&](int i) { return A[i] * B[0]; });
            vec("cwise_product", a.cwiseProduct(b), [&](int i) { return A[i] * B[i]; });
            vec("cwise_quotient", a.cwiseQuotient(b), [&](int i) { return A[i] / B[i]; });
            vec("array", (a.array() * b.array() + a.array()).matrix(), [&](int i) { return A[i] * B[i] + A[i]; });
            vec("array_sin", a.array().sin().matrix(), [&](int i) { return fn(U_SIN, A[i]); });
            vec("array_exp", a.array().exp().matrix(), [&](int i) { return fn(U_EXP, A[i]); });
            check1("dot", a.dot(b), sum([&](int i) { return A[i] * B[i]; }, k));
            check1("sum", a.sum(), sum([&](int i) { return A[i]; }, k));
            const QJ sq = sum([&](int i) { return A[i] * A[i]; }, k);
            check1("squared_norm", a.squaredNorm(), sq);
            check1("norm", a.norm(), fn(U_SQRT, sq));
            vec("normalized", a.normalized(), [&](int i) { return A[i] / fn(U_SQRT, sq); });
            int big = 0;
            for (int i = 1; i < k; i++)
                if (a[i].f() > a[big].f())
                    big = i;
            check1("max_coeff", a.maxCoeff(), A[big]);
            {
                V t = a, u = b;
                t.swap(u);
                vec("swap", t, [&](int i) { return B[i]; });
                vec("swap", u, [&](int i) { return A[i]; });
                t += a;
                t -= u.cwiseProduct(b);
                vec("compound", t, [&](int i) { return B[i] + A[i] - A[i] * B[i]; });
                t = a;
                t.conservativeResize(k + 3);
                for (int i = 0; i < 3; i++)
                    t[k + i] = b[0];
                check("conservative_resize", t, k + 3, 1, [&](int i, int) { return i < k ? A[i] : B[0]; });
            }
            check("transpose", M(m.transpose()), k, k, [&](int i, int j) { return MM[j * k + i]; });
            check("outer", M(a * b.transpose()), k, k, [&](int i, int j) { return A[i] * B[j]; });
            check("mat_add", M(m + o), k, k, [&](int i, int j) { return MM[i * k + j] + O[i * k + j]; });
            check("mat_mat", M(m.lazyProduct(o)), k, k, [&](int i, int j) { return sum([&](int l) { return MM[i * k + l] * O[l * k + j]; }, k); });
            check("colwise_sum", M(m.colwise().sum()), 1, k, [&](int, int j) { return sum([&](int l) { return MM[l * k + j]; }, k); });
            check1("trace", m.trace(), sum([&](int l) { return MM[l * k + l]; }, k));
            {
                M t = m;
                t.row(0) = t.row(k - 1) + o.row(k / 2);
                check("block", t, k, k, [&](int i, int j) { return i ? MM[i * k + j] : MM[(k - 1) * k + j] + O[k / 2 * k + j]; });
            }
            check("cross", V3(x.cross(y)), 3, 1, [&](int i, int) { const int u = (i + 1) % 3, v = (i + 2) % 3; return X[u] * Z[v] - X[v] * Z[u]; });
            check("mat_vec3", V3(p.lazyProduct(x)), 3, 1, [&](int i, int) { return sum([&](int l) { return P[3 * i + l] * X[l]; }, 3); });
            check("mat_mat3", M3(p.lazyProduct(w)), 3, 3, [&](int i, int j) { return sum([&](int l) { return P[3 * i + l] * W[3 * l + j]; }, 3); });
            check1("determinant3", p.determinant(), Monitor<Ty<2, double, 1>>::det(P, 3));
        }
    }
};

template <class Y>
static void test()
{
    Monitor<Y> m;
    m.run();
}

int main(int argc, char **argv)
{
    R.init(argc, argv);
#define TYPE (SHARD % 100)
#if TYPE == 0
    test<Ty<2, double, 3>>();
#elif TYPE == 1
    test<Ty<2, double, 6>>();
#elif TYPE == 2
    test<Ty<2, double, 12>>();
#elif TYPE == 3
    test<Ty<1, double, 3>>();
#elif TYPE == 4
    test<Ty<1, double, 16>>();
#elif TYPE == 5
    test<Ty<2, float, 2>>();
#elif TYPE == 6
    test<Ty<2, long double, 2>>();
#elif TYPE == 7
    test<Ty<2, double, 1>>();
#elif TYPE == 8
    test<Ty<2, double, 0>>();
#elif TYPE == 9
    Dynamic<Ty<2, double, -1>>().run(R.n(60));
    Dynamic<Ty<1, double, -1>>().run(R.n(40));
    Dynamic<Ty<2, long double, -1>>().run(R.n(20));
#else
    test<Ty<2, double, 16>>();
#endif
    return R.finish();
}
