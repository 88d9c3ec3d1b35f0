"""C18: the sparse jet in Python against the reference."""
from hv import *  # noqa: F401,F403

S = hj.SScalar
POOL = ['x', 'y', 'z', 'a', 'b', 'xx', 'x0', 'x1', 'u_1', '', 'long name with spaces', '\u03b1', 'X', 'dx', '*d', '0', 'a' * 40]
IDX = {k: i for i, k in enumerate(POOL)}
N = len(POOL)


class J:
    """a sparse jet as the model sees it: reference and set of names"""

    def __init__(self, e, names):
        self.e, self.names = e, frozenset(names)


def rnd_names(r):
    k = r.randrange(6)
    if k == 0:
        return []
    if k == 1:
        return [r.choice(POOL)]
    if k == 2:
        return r.sample(POOL, r.randrange(1, N + 1))
    return r.sample(POOL[:6], r.randrange(1, 5))


def model(f, d):
    g = np.zeros(N, dtype=L)
    for k, v in d.items():
        g[IDX[k]] = L(v)
    return J(Ref(f, g, np.zeros((N, N), dtype=L)), d)


def make(r, f):
    d = {}
    ns = rnd_names(r)
    for k, v in zip(ns, coefs(r, len(ns))):
        d[k] = v
    k = r.randrange(4)
    if k == 0:
        x = S(f, d)
    elif k == 1:
        x = S(f=f, d=d)
    elif k == 2 and ns:
        d = {ns[0]: 1.0}
        x = S.variable(ns[0], f) if r.random() < 0.5 else S.variable(name=ns[0], value=f)
    elif k == 3 and r.random() < 0.4:
        d = {}
        x = r.choice([lambda: S(f), lambda: S(f=f), lambda: S.constant(f), lambda: S.constant(value=f)])()
    else:
        x = S(f, d)
    # what a jet does may not depend on the way it came about
    k = r.randrange(8)
    if k == 0:
        x = -(-x)
    elif k == 1:
        x = x * 1.0
    elif k == 2:
        x *= 1.0
    elif k == 3:
        y = S.constant(f)
        for name in r.sample(sorted(d), len(d)):
            y -= S(0.0, {name: -d[name]})
        x = y
    return x, model(f, d)


def snap(x):
    return [x.f] + [x.d(k) for k in POOL] + [float(x.size)]


def check_s(x, m, key, detail):
    R.evals += 1
    if type(x) is not S:
        R.violation(key + '/type', 'result %r of %s\n  %s' % (x, type(x), detail()))
        return False
    if not (x.size == len(x) == len(m.names)):
        R.violation(key + '/names', 'size %r len %r instead of %d (%s): %r\n  %s' % (x.size, len(x), len(m.names), sorted(m.names), x, detail()))
        return False
    got = np.array([x.f] + [x.d(k) for k in POOL])
    exp = np.concatenate([[m.e.f], m.e.g])
    err = np.concatenate([[m.e.ef], m.e.eg])
    i = judge(got, exp, err)
    if i is not None:
        R.violation(key + ('/f' if i == 0 else '/d'), '%s = %r instead of %s in %r\n  %s' % ('f' if i == 0 else 'd(%r)' % POOL[i - 1], got[i], np.format_float_scientific(exp[i]), x, detail()))
        return False
    if x.d('no such name') != 0 or x.size != len(m.names):
        R.violation(key + '/absent', 'd of an absent name is %r, size then %r' % (x.d('no such name'), x.size))
        return False
    return True


METHODS = {
    'reciprocal': ['m:reciprocal', 'np:reciprocal'], 'sqrt': ['m:sqrt', 'np:sqrt'], 'cbrt': ['m:cbrt', 'np:cbrt'],
    'cos': ['m:cos', 'np:cos'], 'sin': ['m:sin', 'np:sin'], 'tan': ['m:tan', 'np:tan'],
    'acos': ['m:acos', 'm:arccos', 'np:arccos'], 'asin': ['m:asin', 'm:arcsin', 'np:arcsin'], 'atan': ['m:atan', 'm:arctan', 'np:arctan'],
    'cosh': ['m:cosh', 'np:cosh'], 'sinh': ['m:sinh', 'np:sinh'], 'tanh': ['m:tanh', 'np:tanh'],
    'acosh': ['m:acosh', 'm:arccosh', 'np:arccosh'], 'asinh': ['m:asinh', 'm:arcsinh', 'np:arcsinh'], 'atanh': ['m:atanh', 'm:arctanh', 'np:arctanh'],
    'exp': ['m:exp', 'np:exp'], 'log': ['m:log', 'np:log'], 'log2': ['m:log2', 'np:log2'], 'log10': ['m:log10', 'np:log10'],
    'abs': ['m:abs', 'op:abs', 'np:absolute'], 'neg': ['op:neg', 'np:negative'], 'square': ['np:square'],
    'pow': ['op:pow', 'm:__pow__', 'np:power'], 'log_base': ['m:log', 'op:logkw'],
}
BIN = {
    'add': ['op', 'np:add', 'iop'], 'sub': ['op', 'np:subtract', 'iop'], 'mul': ['op', 'np:multiply', 'iop'], 'div': ['op', 'np:divide', 'iop'],
    'atan2': ['m:atan2', 'm:arctan2', 'np:arctan2'], 'hypot': ['m:hypot', 'np:hypot'],
}
OPS = {'add': (lambda a, b: a + b), 'sub': (lambda a, b: a - b), 'mul': (lambda a, b: a * b), 'div': (lambda a, b: a / b)}


def iop(op, a, b):
    if op == 'add':
        a += b
    elif op == 'sub':
        a -= b
    elif op == 'mul':
        a *= b
    else:
        a /= b
    return a


def call1(form, x, op, p):
    kind, name = form.split(':')
    if op == 'pow':
        if p == int(p) and R.rng.random() < 0.5:
            p = int(p)
        return {'op:pow': lambda: x ** p, 'm:__pow__': lambda: x.__pow__(p), 'np:power': lambda: np.power(x, p)}[form]()
    if op == 'log_base':
        return x.log(p) if kind == 'm' else x.log(base=p)
    if kind == 'np':
        return getattr(np, name)(x)
    if form == 'op:abs':
        return abs(x)
    if form == 'op:neg':
        return -x
    return getattr(x, name)()


def test_unary(r, op):
    f, p = point(op, r)
    x, m = make(r, f)
    keep = snap(x)
    e = J(unary(op, m.e, p), m.names)
    for form in METHODS[op]:
        R.step(form)
        res = call1(form, x, op, p)
        if check_s(res, e, '%s/%s' % (op, form), lambda: '%r parameter %r' % (x, p)) and r.random() < 0.01:
            R.sample('%s %r -> %r' % (form, x, res))
        R.count('op_' + op)
        R.expect(res is not x and same(snap(x), keep), '%s/%s/operand' % (op, form), lambda: '%s became %r' % (keep, x))
    R.seen((op, p, tuple(keep)))


def test_binary(r, op):
    fa, fb = point2(op, r)
    a, ma = make(r, fa)
    if r.random() < 0.15 and not (fa == 0 and op in ('div', 'atan2', 'hypot')):
        b, mb = a, ma
        R.count('same_object')
    else:
        b, mb = make(r, fb)
        if fa == 0 and fb == 0 and op in ('atan2', 'hypot'):
            return
    ka, kb = snap(a), snap(b)
    e = J(binary(op, ma.e, mb.e), ma.names | mb.names)
    det = lambda: '%s and %s' % (ka, kb)  # noqa: E731
    for form in BIN[op]:
        R.step(form)
        key = '%s/%s' % (op, form) + ('/self' if a is b else '')
        R.count('op_' + op)
        if form == 'iop':
            x = S(a.f, {k: a.d(k) for k in ma.names})
            y = x if a is b else b
            z = x
            res = iop(op, x, y)
            check_s(res, e, key, det)
            R.expect(res is z, key + '/identity', 'the in-place operation returned another object')
        else:
            name = form.split(':')[-1]
            res = OPS[op](a, b) if form == 'op' else getattr(np, name)(a, b) if form[0] == 'n' else getattr(a, name)(b)
            check_s(res, e, key, det)
        R.expect(same(snap(a), ka) and same(snap(b), kb), key + '/operand', det)
    R.seen((op, tuple(ka), tuple(kb)))


def test_scalar(r, op):
    a, ma = make(r, sgn(r) * wide(r, 1e-20, 1e20))
    v = r.choice([r.uniform(-4, 4), float(r.randrange(1, 9)), r.randrange(1, 9), np.float64(r.uniform(-3, 3)), True, np.int64(3), np.float32(0.5)])
    ka = snap(a)
    es = const(float(v), N)
    det = lambda: '%s with %r' % (ka, v)  # noqa: E731
    check_s(OPS[op](a, v), J(binary(op, ma.e, es), ma.names), op + '/scalar/right', det)
    check_s(OPS[op](v, a), J(binary(op, es, ma.e), ma.names), op + '/scalar/left', det)
    R.expect(same(snap(a), ka), op + '/scalar/operand', det)
    x = S(a.f, {k: a.d(k) for k in ma.names})
    z = x
    res = iop(op, x, v)
    check_s(res, J(binary(op, ma.e, es), ma.names), op + '/scalar/inplace', det)
    # the object itself is the target of *= and /=; other names of it see the result, or else their old jet
    R.expect(res is z or op not in ('mul', 'div') and same(snap(z), ka), op + '/scalar/inplace/identity', det)
    R.count('inplace_scalar')
    R.count('op_scalar_' + op)
    R.seen((op, float(v), tuple(ka)))


def test_ternary(r):
    xs = [make(r, sgn(r) * wide(r, 1e-25, 1e25)) for _ in range(3)]
    if r.random() < 0.2:
        xs[1] = xs[0]
    x = [a for a, _ in xs]
    keep = [snap(a) for a in x]
    e = J(hypot3(*[m.e for _, m in xs]), frozenset().union(*[m.names for _, m in xs]))
    check_s(x[0].hypot(x[1], x[2]), e, 'hypot3', lambda: repr(x))
    R.expect(all(same(snap(a), k) for a, k in zip(x, keep)), 'hypot3/operand', lambda: repr(keep))
    R.count('op_hypot3')


def test_eval(r):
    x, m = make(r, r.uniform(-3, 3))
    ns = rnd_names(r)
    d = dict(zip(ns, coefs(r, len(ns), r.choice([0, 1, 2]))))
    keep = snap(x)
    e = sum((m.e.g[IDX[k]] * L(v) for k, v in d.items()), L(0))
    mag = sum((abs(m.e.g[IDX[k]] * L(v)) for k, v in d.items()), L(0))
    for got in (x.eval(d), x.eval(d=d)):
        R.evals += 1
        if abs(L(got) - e) > TOLC * EPS * mag:
            R.violation('eval', '%r at %r gave %r instead of %s' % (x, d, got, e))
    R.expect(same(snap(x), keep), 'eval/operand', lambda: repr(x))
    R.count('op_eval')


CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
SPECIAL = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 5e-324, 1 + 2.0 ** -52, 2.0]


def test_compare(r):
    va, vb = r.choice(SPECIAL), r.choice(SPECIAL)
    if r.random() < 0.3:
        vb = va
    a, b = make(r, va)[0], make(r, vb)[0]
    ka, kb = snap(a), snap(b)
    for s, f in CMP.items():
        for form, v in (('jet_jet', f(a, b)), ('jet_float', f(a, vb)), ('float_jet', f(va, b))):
            R.evals += 1
            R.expect(bool(v) == f(va, vb), 'compare/%s/%s' % (form, s), lambda: '%r %s %r gave %r' % (va, s, vb, v))
        R.count('cmp_' + s)
    R.expect(same(snap(a), ka) and same(snap(b), kb), 'compare/operand', lambda: repr(a))


def test_chain(r):
    """a history of in-place and other operations on a few jets"""
    pool = [make(r, sgn(r) * r.uniform(0.5, 2)) for _ in range(4)]
    for _ in range(14):
        i, j = r.randrange(4), r.randrange(4)
        (a, ma), (b, mb) = pool[i], pool[j]
        k = r.randrange(8)
        op = r.choice(['add', 'sub', 'mul', 'div'])
        if op == 'div' and abs(mb.e.f) < 0.1 or abs(ma.e.f) > 1e3:
            op = 'add'
        R.step('%d %s %d %d' % (k, op, i, j))
        if k < 4:
            before = [snap(x) for x, _ in pool]
            new = iop(op, a, b)
            mn = J(binary(op, ma.e, mb.e), ma.names | mb.names)
            R.expect(new is a, 'chain/identity', op)
            for t in range(4):
                if pool[t][0] is a:
                    pool[t] = (a, mn)
                else:
                    R.expect(same(snap(pool[t][0]), before[t]), 'chain/others', lambda: 'jet %d changed by %s= on %d' % (t, op, i))
        elif k == 4:
            s = r.choice([2.0, -0.5, 3])
            new = OPS[op](a, s)
            mn = J(binary(op, ma.e, const(float(s), N)), ma.names)
            pool[i] = (new, mn)
        elif k == 5:
            new, mn = a.sin(), J(unary('sin', ma.e), ma.names)
            pool[i] = (new, mn)
        elif k == 6:
            a.d(r.choice(POOL)), a.eval({'x': 1.0}), repr(a), a == b
            new, mn = pool[i]
        else:
            new = OPS[op](a, b)
            mn = J(binary(op, ma.e, mb.e), ma.names | mb.names)
            pool[i] = (new, mn)
        R.count('chain_steps')
        check_s(new, mn, 'chain/%d/%s' % (k, op), lambda: repr(pool))


def test_make(r):
    f = r.choice(SPECIAL + [r.uniform(-9, 9)])
    ns = rnd_names(r)
    d = dict(zip(ns, coefs(r, len(ns))))
    name = r.choice(POOL)
    for what, x, want in [
            ('default', S(), (0.0, {})), ('f', S(f), (f, {})), ('fkw', S(f=f), (f, {})), ('fd', S(f, d), (f, d)), ('kw', S(d=d, f=f), (f, d)), ('dkw', S(d=d), (0.0, d)),
            ('constant', S.constant(f), (f, {})), ('constantkw', S.constant(value=f), (f, {})),
            ('variable', S.variable(name, f), (f, {name: 1.0})), ('variablekw', S.variable(value=f, name=name), (f, {name: 1.0})), ('int', S(3, {'x': 2}), (3.0, {'x': 2.0}))]:
        R.evals += 1
        R.count('made')
        got = {k: x.d(k) for k in POOL if x.d(k) != 0}
        ok = type(x) is S and same([x.f], [want[0]]) and x.size == len(x) == len(want[1]) and got == {k: v for k, v in want[1].items() if v != 0} and type(x.f) is float
        R.expect(ok, 'make/' + what, lambda: '%r is not %r' % (x, want))
    keep = dict(d)
    x = S(f, d)
    d['x'] = 77.0
    d['zz'] = 1.0
    R.expect(x.d('x') == keep.get('x', 0) and x.d('zz') == 0 and x.size == len(keep), 'make/shares', lambda: '%r follows the dictionary it was made from' % x)


def run():
    k = 0
    for k in range(R.n(60)):
        for op in METHODS:
            R.case('%s/%d.%d' % (op, R.shard, k), test_unary, op)
        for op in BIN:
            R.case('%s/%d.%d' % (op, R.shard, k), test_binary, op)
        for op in OPS:
            R.case('scalar_%s/%d.%d' % (op, R.shard, k), test_scalar, op)
        for name, t in (('hypot3', test_ternary), ('eval', test_eval), ('compare', test_compare), ('chain', test_chain), ('make', test_make)):
            R.case('%s/%d.%d' % (name, R.shard, k), t)


main(run)
