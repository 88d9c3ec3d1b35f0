"""C23: repr and str of dense and sparse jets in Python."""
from hv import *  # noqa: F401,F403

VALUES = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, 0.1, 1e5, 1e6, 123456.5, 1234567.0, 1e-5, 100.0, 999999.5, 0.0001]
POOL = ['x', 'y', 'z', 'a', 'b', 'xx', 'x0', 'u_1', '', 'two words', '\u03b1', 'dx', '*d', '0', ' +1*dx', 'a' * 40]


def value(r):
    k = r.randrange(4)
    return r.choice(VALUES) if k == 0 else float(r.randrange(-1000, 1000)) if k == 1 else sgn(r) * logu(r, 1e-25, 1e25) if k == 2 else r.uniform(-10, 10)


def texts(v):
    """the ways a C++ stream may format a number"""
    t = '%g' % v
    return [t, '-' + t] if v != v else [t]


def dense(r, c):
    n = c.size(r)
    f = value(r)
    x = c.make([f] + [value(r) for _ in range(c.length(n) - 1)])
    keep = raw(x)
    want = [t + 'hj' for t in texts(f)]
    for what, t in (('repr', repr(x)), ('str', str(x)), ('format', format(x)), ('percent', '%s' % (x,)), ('list', repr([x])[1:-1]), ('method', x.__repr__())):
        R.evals += 1
        R.count('dense_' + what)
        R.expect(t in want, 'dense/%s/%s' % (what, c.name), lambda: '%s of a jet with value %r is %r' % (what, f, t))
    y = c.make([f] + [value(r) for _ in range(c.length(n) - 1)])
    if f == f:
        R.expect(repr(y) == repr(x), 'dense/derivatives/' + c.name, '%r %r' % (x, y))
    R.expect(same(raw(x), keep), 'dense/changed/' + c.name, 'formatting changed the jet')
    R.seen((c.name, f))


def match(s, terms):
    """can s be split into exactly the terms, in any order?"""
    if not terms:
        return s == ''
    for i, alts in enumerate(terms):
        for a in alts:
            if s.startswith(a) and match(s[len(a):], terms[:i] + terms[i + 1:]):
                return True
    return False


def sparse(r):
    f = value(r)
    d = {}
    for k in r.sample(POOL, r.choice([0, 1, 1, 2, 3, 3, 5, len(POOL)])):
        d[k] = 1.0 if r.random() < 0.3 else value(r) + 0.0
    x = hj.SScalar(f, d)
    if r.random() < 0.2:
        x = x + hj.SScalar(0.0)
        f = f + 0.0
    keep = [x.f] + [x.d(k) for k in d] + [x.size]
    terms = []
    for k, v in d.items():
        e = '*d' + k
        if v < 0:
            alts = [' ' + t + e for t in texts(v)]
        elif v > 0:
            alts = [' +' + t + e for t in texts(v)]
        else:
            alts = [' ' + q + t + e for t in texts(v) + texts(abs(v)) for q in ('+', '')]
        terms.append(alts)
    for what, t in (('repr', repr(x)), ('str', str(x)), ('list', repr([x])[1:-1])):
        R.evals += 1
        R.count('sparse_' + what)
        R.count('terms', len(d))
        ok = any(t.startswith(h) and match(t[len(h):], terms) for h in texts(f))
        R.expect(ok, 'sparse/' + what, lambda: '%s of a jet with %r %r is %r' % (what, f, d, t))
    R.expect(same([x.f] + [x.d(k) for k in d] + [x.size], keep), 'sparse/changed', 'formatting changed the jet')
    R.seen((f, tuple(sorted(d.items()))))
    if r.random() < 0.01:
        R.sample('%r %r -> %r' % (f, d, x))


def run():
    for c in classes():
        if c.T is None:
            R.violation('missing/' + c.name, 'the module has no class ' + c.name)
            continue
        for k in range(R.n(200)):
            R.case('%s/dense/%d' % (c.name, k), dense, c)
    for k in range(R.n(1000)):
        R.case('sparse/%d.%d' % (R.shard, k), sparse)


main(run)
