// C23: text output of dense and sparse jets in C++.
#include "sparse.hpp"
#include <iomanip>
#include <locale>
#include <sstream>
using namespace hv;

struct Comma : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
};
static const std::locale &comma()
{
    static const std::locale l(std::locale::classic(), new Comma);
    return l;
}
// streams made in its scope have another locale
struct GlobalLocale
{
    std::locale old;
    explicit GlobalLocale(bool on) : old(std::locale::global(on ? comma() : std::locale::classic())) {}
    ~GlobalLocale() { std::locale::global(old); }
};
static std::string state(const std::ostream &o)
{
    return fmt("flags %ld precision %ld width %ld fill %d state %d locale %d", long(o.flags()), long(o.precision()), long(o.width()), o.fill(), int(o.rdstate()), int(o.getloc() == comma()));
}

struct Format
{
    int flags, precision, width;
    template <class St>
    void set(St &s) const
    {
        s.precision(precision);
        if (flags & 1)
            s << std::fixed;
        if (flags & 2)
            s << std::scientific;
        if (flags & 4)
            s << std::uppercase;
        if (flags & 8)
            s << std::showpoint;
        if (flags & 16)
            s << std::showpos;
        if (flags & 32)
            s.imbue(comma());
        if (flags & 64)
            s << std::left << std::setfill('*');
        if (flags & 128)
            s << std::hex << std::showbase << std::boolalpha;
        if (width)
            s << std::setw(width) << std::setfill('_');
    }
    std::string text() const { return fmt("flags %d precision %d width %d", flags, precision, width); }
};
static Format gen_format(Rng &r, bool width)
{
    if (r.chance(0.3))
        return {0, 6, 0};
    int more = 0;
    for (int b : {32, 64, 128})
        if (r.chance(0.2))
            more |= b;
    return {r.pick({0, 1, 2, 4, 8, 9, 10, 6}) | more, r.below(20), width && r.chance(0.3) ? r.below(24) : 0};
}
template <class S>
static S gen_value(Rng &r)
{
    using L = std::numeric_limits<S>;
    const S v[] = {0, -S(0), 1, -1, L::infinity(), -L::infinity(), L::quiet_NaN(), L::min(), L::max(), L::lowest(), L::denorm_min(), S(0.1L), S(1e5), S(1e6), S(123456.5), S(1234567), S(1e-5), S(100)};
    const int k = r.below(4);
    if (k == 0)
        return v[r.below(int(sizeof v / sizeof *v))];
    if (k == 1)
        return S(r.below(2001) - 1000);
    if (k == 2)
        return S(r.sgn() * r.logU(1e-25, 1e25));
    return S(r.U(-10, 10));
}

struct Dense
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        for (int k = 0; k < R.n(Y::DYN ? 1500 : 500); k++)
        {
            if (!R.begin(tn + "/text/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            const int n = Y::size(r);
            const S f = gen_value<S>(r);
            T x = make_jet<Y>(n, f, r);
            const T keep = x;
            Format fo = gen_format(r, false); // what a field width would apply to is open
            if (r.chance(0.15))
                fo.flags |= 16;
            const GlobalLocale gl(r.chance(0.1));
            std::ostringstream a, b, d;
            fo.set(a), fo.set(b);
            a << "[" << std::setw(fo.width) << x << "]" << S(0.5) << "|" << x << 7;
            b << "[" << std::setw(fo.width) << f << "hj]" << S(0.5) << "|" << f << "hj" << 7;
            if (state(a) != state(b))
                R.violation("stream_state/" + tn, state(a) + " instead of " + state(b));
            R.count("stream_states");
            R.count(fo.flags & 32 ? "other_locales" : "classic_locale");
            R.evals += 3;
            R.count("streamed");
            R.count("to_string");
            R.seen(jet_hash<Y>(x, hash_str(fo.text())));
            if (a.str() != b.str())
                R.violation("stream/" + tn, "'" + a.str() + "' instead of '" + b.str() + "' " + fo.text());
            d << f << "hj";
            const std::string t = x.to_string();
            if (t != d.str())
                R.violation("to_string/" + tn, "'" + t + "' instead of '" + d.str() + "'");
            if (!same_jet<Y>(x, keep))
                R.violation("changed/" + tn, "formatting changed the jet");
            // irrespective of derivatives
            T y = make_jet<Y>(n, f, r);
            if (y.to_string() != t)
                R.violation("derivatives/" + tn, "'" + y.to_string() + "' and '" + t + "'");
            // what was written before does not matter
            for (int step = 0; step < 3; step++)
            {
                const S v = gen_value<S>(r);
                const int how = r.below(12);
                R.step("written again after change " + std::to_string(how));
                T z = make_jet<Y>(n, v, r);
                switch (how)
                {
                case 0: x.f() = v; break;
                case 1: x.set_f(v); break;
                case 2: x.data()[0] = v; break;
                case 3: x.ptr()[0] = v; break;
                case 4: x *= v; break;
                case 5: x /= S(4); break;
                case 6: x += v; break;
                case 7: x -= v; break;
                case 8: r.chance(0.5) ? x += z : x -= z; break;
                case 9: r.chance(0.5) ? x *= z : x /= z; break;
                case 10: x = z; break;
                default: x = -x; break;
                }
                std::ostringstream now, plain;
                now << x;
                plain << x.ptr()[0] << "hj";
                R.evals += 2;
                R.count("written_again", 2);
                const std::string w = plain.str(), u = x.to_string();
                const bool nan = x.ptr()[0] != x.ptr()[0];
                if (!nan && (now.str() != w || u != w))
                    R.violation("again/" + tn, fmt("change %d: '", how) + now.str() + "', '" + u + "' instead of '" + w + "'");
            }
            if (k < 3)
                R.sample(tn + " " + t);
        }
    }
};

// can s be split into exactly the terms, each used once, in any order?
static bool match(const std::string &s, std::size_t at, std::vector<std::pair<std::vector<std::string>, bool>> &terms, std::size_t left)
{
    if (left == 0)
        return at == s.size();
    for (auto &t : terms)
        if (!t.second)
            for (auto &a : t.first)
                if (s.compare(at, a.size(), a) == 0)
                {
                    t.second = true;
                    const bool ok = match(s, at + a.size(), terms, left - 1);
                    t.second = false;
                    if (ok)
                        return true;
                }
    return false;
}

struct Sparse
{
    template <class Y>
    void operator()(Y)
    {
        using S = typename Y::Scalar;
        using T = typename Y::T;
        const std::string tn = Y::name();
        for (int k = 0; k < R.n(3000); k++)
        {
            if (!R.begin(tn + "/text/" + std::to_string(k)))
                continue;
            Rng &r = R.rng;
            S f = gen_value<S>(r);
            std::map<std::string, S> want;
            typename T::Data data;
            const int m = r.chance(0.2) ? r.below(30) : r.below(5);
            for (int i = 0; i < m; i++)
            {
                const std::string n = name_pool()[r.below(int(name_pool().size()))];
                data[n] = want[n] = r.chance(0.3) ? S(1) : gen_value<S>(r);
            }
            T x(f, data);
            SJ q;
            for (auto &w : want)
                q.d[w.first];
            const T keep = x;
            Format fo = gen_format(r, false);
            if (r.chance(0.15))
                fo.flags |= 16;
            auto verify = [&](const std::string &text, const Format &fo, const char *what)
            {
                auto str = [&](S v)
                {
                    std::ostringstream o;
                    fo.set(o);
                    o << v;
                    return o.str();
                };
                const std::string head = str(f);
                std::vector<std::pair<std::vector<std::string>, bool>> terms;
                for (auto &w : want)
                {
                    const std::string c = str(w.second), e = "*d" + w.first;
                    std::vector<std::string> a;
                    if (w.second < 0)
                        a = {" " + c + e};
                    else if (w.second > 0)
                    {
                        a = {" +" + c + e};
                        if (c[0] == '+') // the stream shows positive signs: one or two of them
                            a.push_back(" " + c + e);
                    }
                    else // zeros and NaN may carry a sign of their own
                        a = {" +" + c + e, " " + c + e, " +" + (c[0] == '-' ? c.substr(1) : c) + e};
                    terms.emplace_back(a, false);
                }
                R.evals++;
                R.count(what);
                R.count("terms", want.size());
                if (text.compare(0, head.size(), head) != 0 || !match(text, head.size(), terms, terms.size()))
                {
                    std::string t;
                    for (auto &w : terms)
                        t += w.first[0];
                    R.violation(std::string(what) + "/" + tn, "'" + text + "'\n  expected value and terms in any order '" + head + t + "' " + fo.text());
                }
            };
            std::ostringstream o;
            fo.set(o);
            const std::string st = state(o);
            o << x;
            if (state(o) != st)
                R.violation("stream_state/" + tn, state(o) + " instead of " + st);
            R.count("stream_states");
            R.seen(hash_str(o.str()));
            verify(o.str(), fo, "sparse_streamed");
            verify(x.to_string(), {0, 6, 0}, "sparse_to_string");
            if (!same_sparse(x, keep, q))
                R.violation("changed/" + tn, "formatting changed the jet");
            // what was written before does not matter
            for (int step = 0; step < 2; step++)
            {
                const S v = gen_value<S>(r);
                const int how = r.below(8);
                R.step("written again after change " + std::to_string(how));
                typename T::Data more;
                for (int i = r.below(4); i-- > 0;)
                    more[name_pool()[r.below(int(name_pool().size()))]] = gen_value<S>(r);
                const T z(v, more);
                switch (how)
                {
                case 0: x *= v; break;
                case 1: x /= S(4); break;
                case 2: x += v; break;
                case 3: x -= v; break;
                case 4: r.chance(0.5) ? x += z : x -= z; break;
                case 5: r.chance(0.5) ? x *= z : x /= z; break;
                case 6: x = z; want.clear(); break;
                default: x = -x; break;
                }
                if (how >= 4 && how <= 6)
                    for (auto &w : more)
                        want[w.first];
                for (auto &w : want)
                    w.second = x.d(w.first);
                f = x.f();
                if (f != f)
                    break; // the sign of NaN in text is open
                R.count("written_again", 2);
                std::ostringstream again;
                again << x;
                verify(again.str(), {0, 6, 0}, "sparse_streamed");
                verify(x.to_string(), {0, 6, 0}, "sparse_to_string");
            }
            if (k < 6)
                R.sample(tn + " " + o.str());
        }
    }
};

int main(int argc, char **argv)
{
    R.init(argc, argv);
#if SHARD == 80
    for_sparse(Sparse());
#else
    for_types(Dense());
#endif
    return R.finish();
}
