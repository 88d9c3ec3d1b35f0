// C24: without exceptions but with assertions, incompatible operands stop at an
// assertion. Every call runs in a child process.
#ifndef HYPERJET_NO_EXCEPTIONS
#define HYPERJET_NO_EXCEPTIONS
#endif
#undef NDEBUG
#include "common.hpp"
#include <functional>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
using namespace hv;

// a read whose result nobody needs
template <class V>
static void use(const V &v)
{
    static volatile V u;
    u = v;
}

static int run(const std::function<void()> &f, std::string &err)
{
    int fd[2];
    if (pipe(fd))
        std::exit(3);
    const pid_t p = fork();
    if (p < 0)
        std::exit(3);
    if (p == 0)
    {
        rlimit l{0, 0};
        setrlimit(RLIMIT_CORE, &l);
        signal(SIGABRT, SIG_DFL);
        dup2(fd[1], 2);
        close(fd[0]);
        alarm(60);
        f();
        _exit(0);
    }
    close(fd[1]);
    char b[4096];
    ssize_t k;
    err.clear();
    while ((k = read(fd[0], b, sizeof b)) > 0)
        err.append(b, std::size_t(k));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    return st;
}

struct Test
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        auto dies = [&](const std::string &what, const std::string &detail, const std::function<void()> &f)
        {
            std::string err;
            R.step(what + " " + detail);
            const int st = run(f, err);
            R.evals++;
            R.count("stopped_" + what);
            R.seen(hash_str(tn + what + detail));
            if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && err.find("ssertion") != std::string::npos))
                R.violation("no_assertion/" + what + "/" + tn, detail + fmt(": the call ended with status %#x instead of a failed assertion ", st) + err.substr(0, 300));
            R.sample(tn + " " + what + " " + detail + ": " + err.substr(0, 160));
        };
        auto lives = [&](const std::string &what, const std::string &detail, const std::function<void()> &f)
        {
            std::string err;
            R.step(what + " " + detail);
            const int st = run(f, err);
            R.evals++;
            R.count("passed_" + what);
            if (st != 0)
                R.violation("stopped/" + what + "/" + tn, detail + fmt(": the call ended with status %#x ", st) + err.substr(0, 300));
        };
        // a component that does not exist
        for (int k = 0; k < R.n(2); k++)
        {
            if (!R.begin(tn + "/indices/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            T a = make_jet<Y>(n, S(1.5), r);
            const T &ca = a;
            for (int i : {-1 - r.below(3), n, n + 1 + r.below(9)})
            {
                const std::string d = fmt("%d of %d", i, n);
                dies("g", d, [&] { use(ca.g(i)); });
                dies("g_reference", d, [&] { a.g(i) = 2; });
                dies("set_g", d, [&] { a.set_g(i, 2); });
                if constexpr (Y::ORDER == 2)
                {
                    const int j = n ? r.below(n) : 0;
                    dies("h", d, [&] { use(ca.h(i, j)); });
                    dies("h", d, [&] { use(ca.h(j, i)); });
                    dies("h_reference", d, [&] { a.h(i, j) = 2; });
                    dies("h_reference", d, [&] { a.h(j, i) = 2; });
                    dies("set_h", d, [&] { a.set_h(i, j, 2); });
                    dies("set_h", d, [&] { a.set_h(j, i, 2); });
                }
                if constexpr (!Y::DYN)
                {
                    dies("variable", d, [&] { (void)T::variable(i, S(1)); });
                    dies("variable", d, [&] { (void)T::variable(i, S(1), n); });
                }
            }
            if constexpr (Y::ORDER == 2)
            {
                const int q = n * (n + 1) / 2;
                for (int i : {-1 - r.below(3), q, q + 1 + r.below(9)})
                {
                    const std::string d = fmt("entry %d of %d", i, q);
                    dies("h_packed", d, [&] { use(ca.h(i)); });
                    dies("h_packed", d, [&] { a.h(i) = 2; });
                    dies("h_packed", d, [&] { a.set_h(i, 2); });
                }
            }
            lives("indices", fmt("size %d", n), [&]
                  {
                for (int i = 0; i < n; i++)
                {
                    a.g(i) = ca.g(i);
                    a.set_g(i, 2);
                    if constexpr (Y::ORDER == 2)
                        for (int j = 0; j < n; j++)
                            a.h(i, j) = ca.h(j, i), a.set_h(i, j, 2);
                }
                if constexpr (Y::ORDER == 2)
                    for (int i = 0; i < n * (n + 1) / 2; i++)
                        a.h(i) = ca.h(i), a.set_h(i, 2); });
            if constexpr (!Y::DYN)
            {
                for (int m : {-1, n - 1, n + 1, n + 5})
                {
                    const std::string d = fmt("%d for %d", m, n);
                    dies("static_size", d + " zero", [&] { (void)T::zero(m); });
                    dies("static_size", d + " empty", [&] { (void)T::empty(m); });
                    dies("static_size", d + " constant", [&] { (void)T::constant(S(1), m); });
                    if (n)
                        dies("static_size", d + " variable", [&] { (void)T::variable(0, S(1), m); });
                }
                if (Y::len(n) != 5)
                    dies("list", "5 values", [&] { (void)T{S(1), 2, 3, 4, 5}; });
                dies("size_from_length", "0", [&] { (void)T::size_from_data_length(0); });
                lives("static_size", fmt("%d", n), [&]
                      { (void)T::zero(n); (void)T::empty(n); (void)T::constant(S(1), n); });
            }
        }
        if constexpr (Y::DYN)
            deaths<Y>(dies, lives);
    }

    template <class Y, class D, class L>
    void deaths(D &dies, L &lives)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        using Data = typename T::Data;
        const std::string tn = Y::name();
        for (int k = 0; k < R.n(4); k++)
        {
            if (!R.begin(tn + "/death/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = r.below(5);
            int m = r.below(6);
            if (m == n)
                m++;
            const std::string d = fmt("sizes %d, %d", n, m);
            T a = make_jet<Y>(n, S(1.5), r), b = make_jet<Y>(m, S(2.5), r), c = make_jet<Y>(n, S(0.5), r);
            for (int op = 0; op < B_COUNT; op++)
            {
                dies(B_NAME[op], d, [&] { (void)b_op(op, a, b); });
                if (op >= B_ATAN2)
                    dies(B_NAME[op], d + " member", [&] { (void)b_op(op, b, a, true); });
                lives(B_NAME[op], d, [&] { (void)b_op(op, a, c); (void)b_op(op, a, c, true); });
            }
            dies("iadd", d, [&] { a += b; });
            dies("isub", d, [&] { a -= b; });
            dies("imul", d, [&] { a *= b; });
            dies("idiv", d, [&] { a /= b; });
            dies("hypot3", d + " first", [&] { (void)hypot(b, a, c); });
            dies("hypot3", d + " second", [&] { (void)hypot(a, b, c); });
            dies("hypot3", d + " third", [&] { (void)hypot(a, c, b); });
            lives("compound", d, [&] { a += c; a -= c; a *= c; a /= c; a = a.hypot(a, c, a); });
            for (int s : {-1, -2, -7})
            {
                const std::string e = fmt("size %d", s);
                dies("zero", e, [&] { (void)T::zero(s); });
                dies("empty", e, [&] { (void)T::empty(s); });
                dies("constant", e, [&] { (void)T::constant(S(1), s); });
                dies("resize", e, [&] { a.resize(s); });
                dies("data_size", e, [&] { (void)T(a.data(), s); });
            }
            lives("sizes", d, [&] { (void)T::zero(m); (void)T::empty(m); (void)T::constant(S(1), m); a.resize(m); a.resize(0); });
            dies("create", "0 values", [&] { (void)T::create(Data()); });
            dies("size_from_length", "0", [&] { (void)T::size_from_data_length(0); });
            dies("size_from_length", "-5", [&] { (void)T::size_from_data_length(-5); });
            using Vec = typename T::Vector;
            using Mat = typename T::Matrix;
            using DV = typename T::DataVector;
            dies("eval", d, [&] { (void)a.eval(std::vector<S>(std::size_t(m), S(1))); });
            lives("eval", d, [&] { (void)a.eval(std::vector<S>(std::size_t(n), S(1))); });
            for (int s : {n - 1, 0})
                if (s < n)
                {
                    dies("pad_left", fmt("%d to %d", n, s), [&] { (void)a.pad_left(s); });
                    dies("pad_right", fmt("%d to %d", n, s), [&] { (void)a.pad_right(s); });
                }
            lives("pad", d, [&] { (void)a.pad_left(n); (void)a.pad_right(n); (void)a.pad_left(n + 3); (void)a.pad_right(n + 1); });
            for (int i : {-1, n, n + 3})
                dies("variable", fmt("%d of %d", i, n), [&] { (void)T::variable(i, S(1), n); });
            lives("variable", d, [&] { for (int i = 0; i < n; i++) (void)T::variable(i, S(1), n); (void)T::variables(std::vector<S>(std::size_t(n), S(1))); });
            {
                DV v = DV::Zero(Y::len(m));
                dies("set_adata", d, [&] { a.set_adata(v); });
                DV w = DV::Zero(Y::len(n));
                lives("set_adata", d, [&] { a.set_adata(w); });
            }
            if constexpr (Y::ORDER == 2)
            {
                for (const char *mode : {"", "Full", "zero", "full "})
                    dies("mode", mode, [&] { (void)a.hm(mode); });
                lives("mode", d, [&] { (void)a.hm("full"); (void)a.hm("zeros"); });
                Mat q = Mat::Zero(m, m), q1 = Mat::Zero(n, n + 1), q2 = Mat::Zero(n + 1, n), ok = Mat::Zero(n, n);
                for (Mat *x : {&q, &q1, &q2})
                {
                    dies("hm_into", d, [&] { a.hm("full", *x); });
                    dies("set_hm", d, [&] { a.set_hm(*x); });
                }
                const Vec g = Vec::Zero(n);
                dies("from_arrays", d, [&] { (void)T::from_arrays(S(1), g, q); });
                lives("matrix", d, [&] { a.hm("zeros", ok); a.set_hm(ok); (void)T::from_arrays(S(1), g, ok); });
            }
            if constexpr (Y::ORDER == 2)
            {
                int len = 2 + r.below(40);
                bool ok = false;
                for (int i = 0; i < 12; i++)
                    ok |= Y::len(i) == len;
                if (ok)
                    len++;
                dies("create", fmt("%d values", len), [&] { (void)T::create(Data(len, S(1))); });
                dies("size_from_length", fmt("%d", len), [&] { (void)T::size_from_data_length(len); });
                dies("list", "5 values", [&] { (void)T{S(1), 2, 3, 4, 5}; });
            }
            lives("lengths", d, [&] {
                for (int s = 0; s < 30; s++)
                {
                    if (T::size_from_data_length(Y::len(s)) != s || T::create(Data(Y::len(s), S(1))).size() != s)
                        _exit(5);
                } });
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
    for_types(Test());
    return R.finish();
}
