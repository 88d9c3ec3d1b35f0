// C06: accessors, packed layout and matrix forms, against a shadow copy of the packed data.
#include "common.hpp"
using namespace hv;

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        using Data = typename T::Data;
        const std::string tn = Y::name();
        const int N = R.n(Y::DYN ? 400 : 150);
        for (int k = 0; k < N; k++)
        {
            if (!R.begin(tn + "/access/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            const int len = int(Y::len(n));
            // shadow: what the packed data has to be after every write
            std::vector<S> sh(len);
            for (int i = 0; i < len; i++)
                sh[i] = k % 7 == 0 ? S(r.pick({0.0, -0.0, 1.0, HUGE_VAL, -HUGE_VAL, double(NAN), 1e-40})) : S(i + 1) + S(r.below(1000)) / S(1024);
            Data d{};
            if constexpr (Y::DYN)
                d.resize(len);
            std::copy(sh.begin(), sh.end(), d.begin());
            T x = T::create(d);
            R.seen(jet_hash<Y>(x, hash_str(tn)));
            std::string last = "create";
            bool good = true;
            std::vector<int> where(Y::ORDER == 2 ? std::size_t(n) * n : 0); // position of (i, j), counted
            for (int a = 0, p = 1 + n; Y::ORDER == 2 && a < n; a++)
                for (int b = a; b < n; b++, p++)
                    where[a * n + b] = where[b * n + a] = p;
            auto tri = [&](int i, int j)
            { return where[i * n + j]; };
            auto fail = [&](const std::string &w, const std::string &t)
            {
                good = false;
                R.violation(w + "/" + tn, t + " after " + last + "\n  jet " + show<Y>(x));
            };
            // every read path against the shadow
            auto verify = [&](bool all)
            {
                R.evals++;
                const T &c = x;
#ifndef HV_NO_EIGEN
                // through const access only, before anything else touches the jet
                if constexpr (Y::ORDER == 2)
                    if (r.chance(0.6))
                    {
                        const auto full = c.hm("full");
                        for (int i = 0; i < n; i++)
                            for (int j = 0; j < n; j++)
                                if (!same_bits(S(full(i, j)), sh[tri(i, j)]))
                                    return fail("hm_full", fmt("hm('full')(%d,%d) is ", i, j) + ss(S(full(i, j))) + ", expected " + ss(sh[tri(i, j)]));
                        R.count("matrices_read");
                    }
#endif
                if (c.size() != n || c.data_length() != len)
                    return fail("size", fmt("size %ld length %ld", long(c.size()), long(c.data_length())));
                if (int(c.data().size()) != len || int(x.data().size()) != len)
                    return fail("data", "wrong length of data()");
                for (int i = 0; i < len; i++)
                {
                    if (!same_bits(c.ptr()[i], sh[i]))
                        return fail("ptr", fmt("component %d is ", i) + ss(c.ptr()[i]) + ", expected " + ss(sh[i]));
                    if (!same_bits(c.data()[i], sh[i]) || &x.data()[i] != x.ptr() + i || &c.data()[i] != c.ptr() + i)
                        return fail("data", fmt("data()[%d]", i));
                }
                if (!same_bits(c.f(), sh[0]) || !same_bits(x.f(), sh[0]) || &x.f() != x.ptr())
                    return fail("f", "f()");
                for (int i = 0; i < n; i++)
                    if (!same_bits(c.g(i), sh[1 + i]) || !same_bits(x.g(i), sh[1 + i]) || &x.g(i) != x.ptr() + 1 + i)
                        return fail("g", fmt("g(%d) is ", i) + ss(c.g(i)) + ", expected " + ss(sh[1 + i]));
                if constexpr (Y::ORDER == 2)
                {
                    int p = 1 + n;
                    for (int i = 0; i < n; i++)
                        for (int j = i; j < n; j++, p++)
                        {
                            if (!same_bits(c.h(i, j), sh[p]) || !same_bits(c.h(j, i), sh[p]))
                                return fail("h", fmt("h(%d,%d) is ", i, j) + ss(c.h(i, j)) + " and " + ss(c.h(j, i)) + ", expected " + ss(sh[p]));
                            if (!same_bits(c.h(p - 1 - n), sh[p]))
                                return fail("hk", fmt("h(%d) is ", p - 1 - n) + ss(c.h(p - 1 - n)) + ", expected " + ss(sh[p]));
                            if (all && (&x.h(i, j) != x.ptr() + p || &x.h(j, i) != x.ptr() + p || &x.h(p - 1 - n) != x.ptr() + p))
                                return fail("h_address", fmt("h(%d,%d) and h(%d,%d) are not the entry %d", i, j, j, i, p));
                        }
                }
#ifndef HV_NO_EIGEN
                if (all)
                {
                    const auto ga = c.ag();
                    if (ga.size() != n)
                        return fail("ag", "wrong size");
                    for (int i = 0; i < n; i++)
                        if (!same_bits(S(ga(i)), sh[1 + i]))
                            return fail("ag", fmt("const ag()(%d)", i));
                    auto gw = x.ag();
                    if (gw.size() != n || (n && &gw(0) != x.ptr() + 1))
                        return fail("ag", "ag() does not refer to the gradient");
                    auto aw = x.adata();
                    if (aw.size() != len || &aw(0) != x.ptr())
                        return fail("adata", "adata() does not refer to the data");
                    if constexpr (Y::ORDER == 2)
                    {
                        const auto full = c.hm("full");
                        const auto zeros = c.hm("zeros");
                        if (full.rows() != n || full.cols() != n || zeros.rows() != n || zeros.cols() != n)
                            return fail("hm", "wrong shape");
                        for (int i = 0; i < n; i++)
                            for (int j = 0; j < n; j++)
                            {
                                const S e = sh[tri(i, j)];
                                if (!same_bits(S(full(i, j)), e))
                                    return fail("hm_full", fmt("hm('full')(%d,%d) is ", i, j) + ss(S(full(i, j))) + ", expected " + ss(e));
                                if (j >= i ? !same_bits(S(zeros(i, j)), e) : zeros(i, j) != 0)
                                    return fail("hm_zeros", fmt("hm('zeros')(%d,%d) is ", i, j) + ss(S(zeros(i, j))));
                            }
                        R.count("matrices_read", 2);
                        // into a matrix the caller provides, also a block of a larger one
                        using M = typename T::Matrix;
                        using XM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
                        XM big(n + 3, n + 2);
                        big.setConstant(S(-77.25));
                        const char *mode = r.chance(0.5) ? "full" : "zeros";
                        Eigen::Ref<M> ref(big.template block<Y::SIZE, Y::SIZE>(1, 2, n, n));
                        c.hm(mode, ref);
                        for (int i = 0; i < n + 3; i++)
                            for (int j = 0; j < n + 2; j++)
                            {
                                const bool in = i >= 1 && i < n + 1 && j >= 2 && j < n + 2;
                                S e = S(-77.25);
                                if (in)
                                    e = (j - 2 >= i - 1 || mode[0] == 'f') ? sh[tri(i - 1, j - 2)] : S(0);
                                if (!(same_bits(S(big(i, j)), e) || (in && e == 0 && big(i, j) == 0)))
                                    return fail("hm_out", fmt("hm('%s', out) wrote (%d,%d)", mode, i - 1, j - 2));
                            }
                        R.count("matrices_into");
                    }
                }
#endif
            };
            verify(true);
            // random writes through every write path
            for (int step = 0; step < 14 && good; step++)
            {
                const S v = S(r.U(-100, 100));
                const int i = r.below(n), j = r.below(n);
                switch (r.below(22))
                {
                case 0:
                    x.set_f(v), sh[0] = v, last = "set_f";
                    break;
                case 1:
                    x.f() = v, sh[0] = v, last = "f()=";
                    break;
                case 2:
                    if (n)
                        x.set_g(i, v), sh[1 + i] = v, last = fmt("set_g(%d)", i);
                    break;
                case 3:
                    if (n)
                        x.g(i) = v, sh[1 + i] = v, last = fmt("g(%d)=", i);
                    break;
                case 4:
                    x.ptr()[len - 1] = v, sh[len - 1] = v, last = "ptr";
                    break;
                case 5:
                {
                    const int c = r.below(len);
                    x.data()[c] = v, sh[c] = v, last = fmt("data()[%d]=", c);
                    break;
                }
                case 6:
                case 7:
                    if constexpr (Y::ORDER == 2)
                        if (n)
                            x.set_h(i, j, v), sh[tri(i, j)] = v, last = fmt("set_h(%d,%d)", i, j);
                    break;
                case 8:
                    if constexpr (Y::ORDER == 2)
                        if (n)
                            x.h(i, j) = v, sh[tri(i, j)] = v, last = fmt("h(%d,%d)=", i, j);
                    break;
                case 9:
                    if constexpr (Y::ORDER == 2)
                        if (n)
                        {
                            const int c = r.below(n * (n + 1) / 2);
                            if (r.chance(0.5))
                                x.set_h(c, v);
                            else
                                x.h(c) = v;
                            sh[1 + n + c] = v, last = fmt("set_h(%d)", c);
                        }
                    break;
                case 18:
                    x *= S(-2), last = "*= -2";
                    for (auto &e : sh)
                        e *= S(-2);
                    break;
                case 19:
                {
                    const T y = x;
                    x += y, last = "+= y";
                    for (auto &e : sh)
                        e += e;
                    break;
                }
                case 20:
                {
                    T y = T::constant(S(1), n);
                    for (int c = 0; c < len; c++)
                        y.ptr()[c] = sh[c] = S(r.below(50));
                    if (r.chance(0.5))
                        x = y, last = "assignment";
                    else
                        std::swap(x, y), last = "swap";
                    break;
                }
                case 21:
                    x = -x, last = "negation";
                    for (auto &e : sh)
                        e = -e;
                    break;
                case 10:
                    if (r.chance(0.3))
                        x.set_zero(), sh.assign(len, S(0)), last = "set_zero";
                    break;
#ifndef HV_NO_EIGEN
                case 11:
                    if (n)
                        x.ag()(i) = v, sh[1 + i] = v, last = fmt("ag()(%d)=", i);
                    break;
                case 12:
                {
                    typename T::Vector g(n);
                    for (int a = 0; a < n; a++)
                        g(a) = S(r.U(-9, 9)), sh[1 + a] = g(a);
                    x.ag() = g, last = "ag()=";
                    break;
                }
                case 13:
                    x.adata()(len - 1) = v, sh[len - 1] = v, last = "adata()()=";
                    break;
                case 14:
                {
                    typename T::DataVector g(len);
                    for (int a = 0; a < len; a++)
                        g(a) = S(r.U(-9, 9)), sh[a] = g(a);
                    x.set_adata(g), last = "set_adata";
                    break;
                }
                case 15:
                case 16:
                    if constexpr (Y::ORDER == 2)
                    {
                        typename T::Matrix m(n, n);
                        for (int a = 0; a < n; a++)
                            for (int b = 0; b < n; b++)
                                m(a, b) = S(r.U(-9, 9));
                        const int how = r.below(3);
                        if (how == 0)
                            x.set_hm(m), last = "set_hm(matrix)";
                        else if (how == 1)
                            m = typename T::Matrix(m.transpose()), x.set_hm(m), last = "set_hm(transposed)";
                        else
                        {
                            Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> big(n + 2, n + 3);
                            big.setConstant(S(3.5));
                            big.block(2, 1, n, n) = m;
                            x.set_hm(big.template block<Y::SIZE, Y::SIZE>(2, 1, n, n)), last = "set_hm(block)";
                        }
                        for (int a = 0; a < n; a++)
                            for (int b = a; b < n; b++)
                                sh[tri(a, b)] = m(a, b);
                        R.count("matrices_written");
                    }
                    break;
                case 17:
                {
                    // parts -> jet -> parts
                    typename T::Vector g(n);
                    const S f = S(r.U(-9, 9));
                    sh[0] = f;
                    for (int a = 0; a < n; a++)
                        g(a) = S(r.U(-9, 9)), sh[1 + a] = g(a);
                    if constexpr (Y::ORDER == 1)
                        x = T::from_gradient(f, g), last = "from_gradient";
                    else
                    {
                        typename T::Matrix m(n, n);
                        for (int a = 0; a < n; a++)
                            for (int b = 0; b < n; b++)
                                m(a, b) = S(r.U(-9, 9));
                        for (int a = 0; a < n; a++)
                            for (int b = a; b < n; b++)
                                sh[tri(a, b)] = m(a, b);
                        x = T::from_arrays(f, g, m), last = "from_arrays";
                        const T y = T::from_arrays(x.f(), x.ag(), x.hm("full"));
                        if (!same_jet<Y>(x, y))
                            fail("parts", "from_arrays of the parts is another jet");
                    }
                    R.count("built_from_parts");
                    break;
                }
#endif
                default:
                    break;
                }
                if (good)
                    verify(step % 3 == 0);
                R.count("writes");
            }
            if (n == 2 && k < 5)
                R.sample(tn + " last " + last + " " + show<Y>(x));
        }
        // lengths and sizes
        if (R.begin(tn + "/lengths/0"))
        {
            for (Ix s = 0; s < 3000; s++)
            {
                R.evals++;
                R.count("lengths");
                if (T::data_length_from_size(s) != Y::len(s))
                    R.violation("data_length_from_size/" + tn, fmt("data_length_from_size(%ld) = %ld", long(s), long(T::data_length_from_size(s))));
                if (T::size_from_data_length(Y::len(s)) != s)
                    R.violation("size_from_data_length/" + tn, fmt("size_from_data_length(%ld) = %ld", long(Y::len(s)), long(T::size_from_data_length(Y::len(s)))));
            }
            for (int k = 0; k < 2000; k++)
            {
                const Ix s = Ix(R.rng.logU(3000, Y::ORDER == 1 ? 1e9 : 4e6));
                R.count("lengths");
                if (T::data_length_from_size(s) != Y::len(s) || T::size_from_data_length(Y::len(s)) != s)
                    R.violation("lengths/" + tn, fmt("size %ld", long(s)));
            }
            for (Ix m = -3; m < 3000; m++)
            {
                bool valid = false;
                for (Ix s = 0; s < 3001 && Y::len(s) <= m; s++)
                    valid = valid || Y::len(s) == m;
                bool threw = false;
                Ix s = 0;
                try
                {
                    s = T::size_from_data_length(m);
                }
                catch (...)
                {
                    threw = true;
                }
                R.count("lengths");
                if (threw == valid)
                    R.violation("length_validity/" + tn, fmt("length %ld is %svalid, size_from_data_length %s", long(m), valid ? "" : "in", threw ? "threw" : "returned"));
            }
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    return R.finish();
}
