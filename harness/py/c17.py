"""C17: operations on dense jets in Python against the reference."""
from hv import *  # noqa: F401,F403

# names a user calls -> function they stand for
METHODS = {
    'reciprocal': ['m:reciprocal', 'np:reciprocal'],
    'sqrt': ['m:sqrt', 'np:sqrt'],
    'cbrt': ['m:cbrt', 'np:cbrt'],
    'cos': ['m:cos', 'np:cos'],
    'sin': ['m:sin', 'np:sin'],
    'tan': ['m:tan', 'np:tan'],
    'acos': ['m:acos', 'm:arccos', 'np:arccos'],
    'asin': ['m:asin', 'm:arcsin', 'np:arcsin'],
    'atan': ['m:atan', 'm:arctan', 'np:arctan'],
    'cosh': ['m:cosh', 'np:cosh'],
    'sinh': ['m:sinh', 'np:sinh'],
    'tanh': ['m:tanh', 'np:tanh'],
    'acosh': ['m:acosh', 'm:arccosh', 'np:arccosh'],
    'asinh': ['m:asinh', 'm:arcsinh', 'np:arcsinh'],
    'atanh': ['m:atanh', 'm:arctanh', 'np:arctanh'],
    'exp': ['m:exp', 'np:exp'],
    'log': ['m:log', 'np:log'],
    'log2': ['m:log2', 'np:log2'],
    'log10': ['m:log10', 'np:log10'],
    'abs': ['m:abs', 'op:abs', 'm:__abs__', 'np:absolute'],
    'neg': ['op:neg', 'np:negative', 'm:__neg__'],
    'square': ['np:square'],
    'pow': ['op:pow', 'm:__pow__', 'np:power', 'op:powkw'],
    'log_base': ['m:log', 'op:logkw'],
}
BIN = {
    'add': ['op', 'np:add', 'iop', 'm:__add__'],
    'sub': ['op', 'np:subtract', 'iop', 'm:__sub__'],
    'mul': ['op', 'np:multiply', 'iop', 'm:__mul__'],
    'div': ['op', 'np:divide', 'np:true_divide', 'iop', 'm:__truediv__'],
    'atan2': ['m:atan2', 'm:arctan2', 'np:arctan2', 'c:atan2'],
    'hypot': ['m:hypot', 'np:hypot', 'hj:hypot'],
}
OPS = {
    'add': (lambda a, b: a + b), 'sub': (lambda a, b: a - b), 'mul': (lambda a, b: a * b), 'div': (lambda a, b: a / b),
}


def iop(op, a, b):
    if op == 'add':
        a += b
    elif op == 'sub':
        a -= b
    elif op == 'mul':
        a *= b
    else:
        a /= b
    return a


def call1(form, x, op, p):
    kind, name = form.split(':')
    if op == 'pow':
        if p == int(p) and R.rng.random() < 0.5:
            p = int(p)
        elif R.rng.random() < 0.3:
            p = np.float64(p)
        return {'op:pow': lambda: x ** p, 'm:__pow__': lambda: x.__pow__(p), 'np:power': lambda: np.power(x, p), 'op:powkw': lambda: pow(x, p)}[form]()
    if op == 'log_base':
        return x.log(p) if kind == 'm' else x.log(base=p)
    if kind == 'np':
        return getattr(np, name)(x)
    if form == 'op:abs':
        return abs(x)
    if form == 'op:neg':
        return -x
    return getattr(x, name)()


def test_unary(r, c, op, k):
    x0, p = point(op, r)
    if op == 'square':
        x0 = sgn(r) * wide(r, 1e-30, 1e30)
    x = jet(c, r, x0)
    keep = raw(x)
    e = unary(op, ref(c, x), p)
    for form in METHODS[op]:
        R.step(form)
        res = call1(form, x, op, p)
        R.count('op_' + op)
        R.count('form_' + form.split(':')[0])
        key = '%s/%s/%s' % (op, form, c.name)
        ok = check(c, res, e, key, lambda: 'argument %s parameter %r' % (show(x), p))
        if res is x:
            R.violation(key + '/identity', 'the result is the operand itself')
        if not same(raw(x), keep):
            R.violation(key + '/operand', 'operand changed: %s is now %s' % (keep.tolist(), show(x)))
            break
        if ok and k == 0 and (c.n or 3) == 2:
            R.sample('%s %s %s -> %s' % (c.name, form, show(x), show(res)))
    R.seen((c.name, op, p, keep.tobytes()))


def call2(form, op, a, b):
    kind = form.split(':')[0]
    if form == 'op':
        return OPS[op](a, b)
    name = form.split(':')[1]
    if kind == 'np':
        return getattr(np, name)(a, b)
    if kind == 'hj':
        return hj.hypot(a, b)
    if kind == 'c':
        return getattr(type(a), name)(a, b)
    return getattr(a, name)(b)


def test_binary(r, c, op, k):
    fa, fb = point2(op, r)
    n = c.size(r)
    self_alias = r.random() < 0.15 and (op != 'div' or fa != 0)
    a = jet(c, r, fa, n)
    if self_alias:
        if op in ('atan2', 'hypot') and fa == 0:
            return
        b = a
    else:
        b = jet(c, r, fb, n)
        if op in ('atan2', 'hypot') and fa == 0 and fb == 0:
            return
    ka, kb = raw(a), raw(b)
    e = binary(op, ref(c, a), ref(c, b))
    for form in BIN[op]:
        R.step(form)
        key = '%s/%s/%s' % (op, form, c.name)
        if self_alias:
            key += '/self'
            R.count('same_object')
        det = lambda: '%s and %s' % (ka.tolist(), kb.tolist())  # noqa: E731
        R.count('op_' + op)
        R.count('form_' + form.split(':')[0])
        if form == 'iop':
            x = c.make(ka)
            y = x if self_alias else b
            z = x
            res = iop(op, x, y)
            check(c, res, e, key, det)
            if res is not z:
                R.violation(key + '/identity', 'the in-place operation returned another object')
        else:
            res = call2(form, op, a, b)
            check(c, res, e, key, det)
            if res is a or res is b:
                R.violation(key + '/identity', 'the result is an operand itself')
        if not (same(raw(a), ka) and same(raw(b), kb)):
            R.violation(key + '/operand', 'operand changed: %s %s are now %s %s' % (ka.tolist(), kb.tolist(), show(a), show(b)))
            break
    R.seen((c.name, op, ka.tobytes(), kb.tobytes()))


def scalar_forms(r):
    """a number in one of the types Python programs use, and its value"""
    k = r.randrange(9)
    if k < 3:
        v = sgn(r) * wide(r, 1e-20, 1e20)
        return v, v
    if k == 3:
        v = r.randrange(-9, 10) or 3
        return v, float(v)
    if k == 4:
        v = np.float64(sgn(r) * wide(r, 1e-10, 1e10))
        return v, float(v)
    if k == 5:
        v = np.float32(r.uniform(-4, 4))
        return v, float(v)
    if k == 6:
        v = np.int64(r.randrange(-9, 10) or 2)
        return v, float(v)
    if k == 7:
        v = np.array(r.uniform(-4, 4))
        return v, float(v)
    return True, 1.0


def test_scalar(r, c, op, k):
    fa = sgn(r) * wide(r, 1e-20, 1e20)
    a = jet(c, r, fa)
    s, sv = scalar_forms(r)
    if sv == 0:
        return
    ka = raw(a)
    n = a.size
    ea, es = ref(c, a), const(sv, n)
    key = '%s/scalar/%s' % (op, c.name)
    det = lambda: '%s with %r of %s' % (ka.tolist(), s, type(s).__name__)  # noqa: E731
    right = binary(op, ea, es)
    left = binary(op, es, ea)
    npname = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'div': 'divide'}[op]
    check(c, OPS[op](a, s), right, key + '/right', det)
    check(c, OPS[op](s, a), left, key + '/left', det)
    check(c, getattr(np, npname)(a, s), right, key + '/np_right', det)
    check(c, getattr(np, npname)(s, a), left, key + '/np_left', det)
    if not same(raw(a), ka):
        R.violation(key + '/operand', 'operand changed: %s is now %s' % (ka.tolist(), show(a)))
    x = c.make(ka)
    z = x
    res = iop(op, x, s)
    check(c, res, right, key + '/inplace', det)
    # the object itself is the target of *= and /=; other names of it see the result, or else their old jet
    if res is not z and (op in ('mul', 'div') or not same(raw(z), ka)):
        R.violation(key + '/inplace/identity', 'the in-place operation returned another object; %s' % det())
    R.count('inplace_scalar')
    # the same step twice on the same object
    if r.random() < 0.3:
        x = iop(op, x, s)
        y = OPS[op](OPS[op](a, s), s)
        e2 = binary(op, right, es)
        if op in ('mul', 'div', 'add', 'sub') and type(s) is float:
            x = c.make(ka)
            x = iop(op, x, s)
            x = iop(op, x, s)
            check(c, x, e2, key + '/inplace_twice', det)
            check(c, y, e2, key + '/twice', det)
    R.count('op_scalar_' + op)
    R.count('scalar_' + type(s).__name__)
    R.seen((c.name, op, float(sv), ka.tobytes()))


def test_ternary(r, c, k):
    n = c.size(r)
    v = [sgn(r) * wide(r, 1e-25, 1e25) for _ in range(3)]
    if r.random() < 0.2:
        v[r.randrange(3)] = 0.0
    xs = [jet(c, r, f, n) for f in v]
    if r.random() < 0.2:
        xs[r.randrange(3)] = xs[r.randrange(3)]
    if all(x.f == 0 for x in xs):
        return
    keep = [raw(x) for x in xs]
    e = hypot3(*[ref(c, x) for x in xs])
    det = lambda: ' '.join(map(show, xs))  # noqa: E731
    check(c, xs[0].hypot(xs[1], xs[2]), e, 'hypot3/method/' + c.name, det)
    check(c, hj.hypot(xs[0], xs[1], xs[2]), e, 'hypot3/module/' + c.name, det)
    R.expect(all(same(raw(x), q) for x, q in zip(xs, keep)), 'hypot3/operand/' + c.name, det)
    R.count('op_hypot3')


def test_eval(r, c, k):
    x = jet(c, r, sgn(r) * wide(r, 1e-10, 1e10))
    n = x.size
    keep = raw(x)
    d = coefs(r, n, r.choice([0, 1, 2, 3]))
    forms = [('list', d), ('array', np.array(d)), ('kw', d)]
    forms += r.sample(vector_forms(d), 3)
    if c.n is None:
        forms.append(('tuple', tuple(d)))
    e, tol = taylor(c, ref(c, x), d)
    for name, v in forms:
        got = x.eval(d=v) if name == 'kw' else x.eval(v)
        R.evals += 1
        R.count('op_eval')
        if not (isinstance(got, float) and abs(L(got) - e) <= tol):
            R.violation('eval/%s/%s' % (name, c.name), '%s at %s gave %r instead of %s' % (show(x), d, got, e))
    R.expect(same(raw(x), keep), 'eval/operand/' + c.name, lambda: show(x))


CMP = {
    '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
}
NPCMP = {'<': np.less, '>': np.greater, '<=': np.less_equal, '>=': np.greater_equal, '==': np.equal, '!=': np.not_equal}
SPECIAL = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 5e-324, 1 + 2.0 ** -52, 1e308, 2.0, 2.5]


def test_compare(r, c, k):
    n = c.size(r)
    va = r.choice(SPECIAL) if r.random() < 0.7 else r.uniform(-2, 2)
    vb = va if r.random() < 0.3 else np.nextafter(va, 9e9) if r.random() < 0.2 else r.choice(SPECIAL)
    vb = float(vb)
    a, b = jet(c, r, va, n), jet(c, r, vb, n)
    ka, kb = raw(a), raw(b)
    for s, f in CMP.items():
        e = f(va, vb)
        got = [('jet_jet', f(a, b)), ('jet_float', f(a, vb)), ('float_jet', f(va, b)), ('np', NPCMP[s](a, b)), ('jet_np', f(a, np.float64(vb))), ('np_jet', f(np.float64(va), b))]
        if vb == int(vb) if math.isfinite(vb) else False:
            got.append(('jet_int', f(a, int(vb))))
        for form, v in got:
            R.evals += 1
            if bool(v) != e:
                R.violation('compare/%s/%s/%s' % (form, s, c.name), '%r %s %r gave %r' % (va, s, vb, v))
        if f(a, a) != f(va, va):
            R.violation('compare/self/%s/%s' % (s, c.name), '%r with itself' % va)
        R.count('cmp_' + s)
    R.expect(same(raw(a), ka) and same(raw(b), kb), 'compare/operand/' + c.name, lambda: show(a))
    R.seen((c.name, va, vb))


def run():
    for c in classes():
        if c.T is None:
            R.violation('missing/' + c.name, 'the module has no class ' + c.name)
            continue
        for k in range(R.n(6 if c.n is not None else 24)):
            for op in METHODS:
                R.case('%s/%s/%d' % (c.name, op, k), test_unary, c, op, k)
            for op in BIN:
                R.case('%s/%s/%d' % (c.name, op, k), test_binary, c, op, k)
            for op in OPS:
                R.case('%s/scalar_%s/%d' % (c.name, op, k), test_scalar, c, op, k)
            R.case('%s/hypot3/%d' % (c.name, k), test_ternary, c, k)
            R.case('%s/eval/%d' % (c.name, k), test_eval, c, k)
            R.case('%s/compare/%d' % (c.name, k), test_compare, c, k)


main(run)
