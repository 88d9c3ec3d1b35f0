"""C28: the value of a result is what plain floats give, for all values (also where
there is no derivative) and whatever the derivatives are."""
from hv import *  # noqa: F401,F403

F = np.float64
INF, NAN = float('inf'), float('nan')
FI = np.finfo(float)
SPECIAL = [0.0, -0.0, 1.0, -1.0, INF, -INF, NAN, float(FI.tiny), -float(FI.tiny), 5e-324, -5e-324, float(FI.max), -float(FI.max),
           1 + float(FI.eps), 1 - float(FI.eps), -1 - float(FI.eps), 0.5, 2.0, -3.0, 1e4, -1e4, 710.0, -745.0, math.pi, math.pi / 2, 10.0, 8.0, 27.0, -8.0]
UN = {'sqrt': np.sqrt, 'cbrt': np.cbrt, 'reciprocal': np.reciprocal, 'cos': np.cos, 'sin': np.sin, 'tan': np.tan, 'acos': np.arccos, 'asin': np.arcsin, 'atan': np.arctan,
      'arccos': np.arccos, 'arcsin': np.arcsin, 'arctan': np.arctan, 'cosh': np.cosh, 'sinh': np.sinh, 'tanh': np.tanh, 'acosh': np.arccosh, 'asinh': np.arcsinh,
      'atanh': np.arctanh, 'arccosh': np.arccosh, 'arcsinh': np.arcsinh, 'arctanh': np.arctanh, 'exp': np.exp, 'log': np.log, 'log2': np.log2, 'log10': np.log10,
      'abs': np.abs, '__abs__': np.abs, '__neg__': np.negative}


def value(r):
    k = r.randrange(6)
    if k < 2:
        return r.choice(SPECIAL)
    if k == 2:
        return r.uniform(-1.5, 1.5)
    if k == 3:
        return r.uniform(-20, 20)
    if k == 4:
        return float(r.randrange(41) - 20)
    return sgn(r) * wide(r, float(FI.tiny), float(FI.max))


def agrees(got, e):
    e = float(e)
    if e != e:
        return got != got
    if got == e:
        return True
    lim = float(FI.max) / 8
    if math.isinf(e) or math.isinf(got):
        return got == got and abs(e) > lim and abs(got) > lim and (e > 0) == (got > 0)
    return abs(got - e) <= 1024 * float(FI.eps) * abs(e) + 1024 * 5e-324


def regular(b):
    return b != b or b == 0 or math.isinf(b) or 8 / float(FI.max) < abs(b) < 1 / (8 * float(FI.tiny))


def mild(v):  # std::hypot of three values is only as good as the standard library's
    return v == 0 or 1e-150 < abs(v) < 1e150


def case(r, name, make, k):
    x, y, z = value(r), value(r), value(r)
    if r.random() < 0.15:
        y = x
    a, b, c = make(r, x, y, z)
    X, Y = F(x), F(y)

    def one(op, fn, e):
        R.step(op)
        R.evals += 1
        R.count('op_' + op)
        R.count('nan_results' if e != e else 'infinite_results' if np.isinf(e) else 'finite_results')
        try:
            t = fn()
        except Exception as ex:
            R.violation('%s_threw/%s' % (op, name), 'values %r %r %r: %r' % (x, y, z, ex))
            return
        single = op in ('add', 'sub', 'mul', 'iadd', 'isub', 'imul')
        if not (type(t) is type(a) and (agrees(t.f, e) if not single else t.f == e or e != e and t.f != t.f)):
            R.violation('%s/%s' % (op, name), 'values %r %r %r: %s gives %r, plain %r' % (x, y, z, op, t, float(e)))

    for u in r.sample(sorted(UN), 8):
        one(u, lambda: getattr(a, u)(), UN[u](X))
    one('add', lambda: a + b, X + Y)
    one('sub', lambda: a - b, X - Y)
    one('mul', lambda: a * b, X * Y)
    s = r.choice([y, F(y)])
    one('add', lambda: a + s, X + Y)
    one('sub', lambda: a - s, X - Y)
    one('mul', lambda: a * s, X * Y)
    one('add', lambda: s + a, X + Y)
    one('sub', lambda: s - a, Y - X)
    one('mul', lambda: s * a, X * Y)
    if regular(y):
        one('div', lambda: a / b, X / Y)
        one('div', lambda: a / s, X / Y)
    if regular(x):
        one('div', lambda: s / a, Y / X)
    one('atan2', lambda: a.atan2(b), np.arctan2(X, Y))
    one('atan2', lambda: a.arctan2(b), np.arctan2(X, Y))
    one('hypot', lambda: a.hypot(b), np.hypot(X, Y))
    if hasattr(type(a), 'order'):
        one('hypot', lambda: hj.hypot(a, b), np.hypot(X, Y))
        if mild(x) and mild(y) and mild(z):
            one('hypot3', lambda: hj.hypot(a, b, c), np.hypot(np.hypot(X, Y), F(z)))
    p = r.choice([0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 0.5, -0.5, 1.5, 4.0, 7.0, 0.25, INF, -INF, NAN, 0, 1, 2, 3, -1, 5])
    one('pow', lambda: a ** p, F(x) ** F(p))
    base = r.choice([2.0, 10.0, 0.5, 3.0, 1.25])
    one('log_base', lambda: a.log(base), np.log(X) / np.log(base))

    def inplace(f):
        t = a * 1.0
        return f(t)

    def iadd(t):
        t += b
        return t

    def isub(t):
        t -= b
        return t

    def imul(t):
        t *= b
        return t

    def idiv(t):
        t /= b
        return t

    one('iadd', lambda: inplace(iadd), X + Y)
    one('isub', lambda: inplace(isub), X - Y)
    one('imul', lambda: inplace(imul), X * Y)
    if regular(y):
        one('idiv', lambda: inplace(idiv), X / Y)
    R.seen((name, x, y, z))
    if k == 0:
        R.sample('%s values %r %r %r' % (name, x, y, z))


def dense(c):
    def make(r, *fs):
        n = c.size(r)
        res = []
        for f in fs:
            d = [f] + coefs(r, c.length(n) - 1)
            st = r.randrange(4)
            if st < 2:
                d = [f] + [value(r) if st == 1 or r.random() < 0.3 else q for q in d[1:]]
            res.append(c.make(d))
        return res
    return make


def sparse(r, *fs):
    res = []
    for f in fs:
        names = r.sample(['x', 'y', 'z', 'a', '', 'xx'], r.randrange(5))
        res.append(hj.SScalar(f, {n: (value(r) if r.random() < 0.3 else r.uniform(-3, 3)) for n in names}))
    return res


def run():
    i = 0
    for c in classes():
        for k in range(R.n(12)):
            i += 1
            if R.mine(i):
                R.case('value/%s/%d' % (c.name, k), case, c.name, dense(c), k)
    for k in range(R.n(200)):
        i += 1
        if R.mine(i):
            R.case('value/SScalar/%d' % k, case, 'SScalar', sparse, k)


main(run)
