"""C26: numpy programs over object arrays of jets against element-wise evaluation
with the reference, which carries bounds of the rounding error."""
import functools
from hv import *  # noqa: F401,F403


class A:
    """an array of jets together with the array of references"""

    def __init__(self, a, e):
        self.a, self.e = a, e

    @property
    def shape(self):
        return self.a.shape


def obj(shape):
    return np.empty(shape, dtype=object)


def fill(shape, f):
    a = obj(shape)
    for i in np.ndindex(*shape):
        a[i] = f(i)
    return a


def emap(f, *arrays):
    """element-wise evaluation with broadcasting"""
    shape = np.broadcast_shapes(*[x.shape for x in arrays])
    bs = [np.broadcast_to(x, shape) for x in arrays]
    return fill(shape, lambda i: f(*[b[i] for b in bs]))


def add(a, b):
    return binary('add', a, b)


def mul(a, b):
    return binary('mul', a, b)


def esum(xs):
    s = xs[0]
    for x in xs[1:]:
        s = add(s, x)
    # any order of summation is right: bound by the magnitudes of the terms
    k = len(xs)
    s.ef = s.ef + k * EPS * sum((abs(x.f) for x in xs), L(0))
    s.eg = s.eg + k * EPS * sum(np.abs(x.g) for x in xs)
    s.eh = s.eh + k * EPS * sum(np.abs(x.h) for x in xs)
    return s


def eprod(xs):
    s = xs[0]
    for x in xs[1:]:
        s = mul(s, x)
    return s


class Ctx:
    def __init__(self, r, c, n):
        self.r, self.c, self.n = r, c, n

    def jet(self, lo=0.3, hi=2.0):
        x = jet(self.c, self.r, sgn(self.r) * self.r.uniform(lo, hi), self.n)
        if self.r.random() < 0.7:
            d = raw(x)
            d[1:] = [self.r.uniform(-1, 1) for _ in d[1:]]
            x = self.c.make(d)
        return x

    def array(self, shape, lo=0.3, hi=2.0):
        a = fill(shape, lambda i: self.jet(lo, hi))
        return A(a, fill(shape, lambda i: ref(self.c, a[i])))

    def floats(self, shape):
        k = self.r.randrange(3)
        f = fill(shape, lambda i: self.r.uniform(-2, 2)).astype(float) if k else np.array(fill(shape, lambda i: self.r.choice([-3, -2, -1, 1, 2, 3])).astype(int))
        return f, emap(lambda v: const(float(v), self.n), f)

    def positive(self, x):
        """x*x + 1/2"""
        return A(x.a * x.a + 0.5, emap(lambda e: add(mul(e, e), const(0.5, self.n)), x.e))


def compare(ctx, got, want, key, detail):
    """got: array of jets or a single one"""
    g = np.asarray(got, dtype=object) if not isinstance(got, np.ndarray) else got
    w = want if isinstance(want, np.ndarray) else np.array(want, dtype=object) if False else want
    if not isinstance(w, np.ndarray):
        t = obj(())
        t[()] = w
        w = t
    if not isinstance(got, np.ndarray):
        t = obj(())
        t[()] = got
        g = t
    if g.shape != w.shape:
        R.violation(key + '/shape', 'shape %s instead of %s\n  %s' % (g.shape, w.shape, detail()))
        raise Done
    for i in np.ndindex(*w.shape):
        R.count('elements_checked')
        e = w[i]
        if e.ef > abs(e.f) * 1e-3 + 1e-3:
            R.count('skipped_elements')
            continue
        if not check(ctx.c, g[i], e, key, lambda: 'element %s of %s' % (i, detail())):
            raise Done


UFUNC = {'cos': 'cos', 'sin': 'sin', 'arctan': 'atan', 'arcsinh': 'asinh', 'tanh': 'tanh', 'exp': 'exp', 'sinh': 'sinh', 'cosh': 'cosh', 'square': 'square', 'negative': 'neg', 'absolute': 'abs', 'reciprocal': 'reciprocal', 'cbrt': 'cbrt'}
POSITIVE = {'sqrt': 'sqrt', 'log': 'log', 'log2': 'log2', 'log10': 'log10'}
BINU = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'hypot': 'hypot', 'arctan2': 'atan2'}
SHAPES = [(1,), (2,), (3,), (4,), (2, 2), (3, 3), (2, 3), (3, 1), (1, 4), (2, 3, 2), (2, 1, 3), (2, 2, 2, 1), ()]


def det(ctx, *arrays):
    return lambda: '%s: %s' % (ctx.c.name, ' | '.join('%s %s' % (x.shape, ' '.join(show(v) for v in x.ravel()[:6])) for x in arrays))


def ops(ctx):
    r = ctx.r
    c, n = ctx.c, ctx.n
    k = r.choice(OPS)
    R.step(k)
    R.count('op_' + k)
    shape = r.choice(SHAPES[:-1])
    x = ctx.array(shape)
    keep = [raw(v) for v in x.a.ravel()]
    others = []
    d = det(ctx, x.a)

    def inputs_unchanged(*arrays):
        for v, q in zip(x.a.ravel(), keep):
            if not same(raw(v), q):
                R.violation(k + '/inputs', 'an input changed: %s' % d())
                raise Done
        for a, qs in others:
            for v, q in zip(a.ravel(), qs):
                if not same(raw(v), q):
                    R.violation(k + '/inputs', 'an input changed: %s' % d())
                    raise Done

    def other(s, lo=0.3, hi=2.0):
        y = ctx.array(s, lo, hi)
        others.append((y.a, [raw(v) for v in y.a.ravel()]))
        return y

    if k == 'ufunc':
        u = r.choice(sorted(UFUNC))
        key = k + '/' + u
        compare(ctx, getattr(np, u)(x.a), emap(lambda e: unary(UFUNC[u], e), x.e), key, d)
    elif k == 'ufunc_positive':
        u = r.choice(sorted(POSITIVE))
        p = ctx.positive(x)
        compare(ctx, getattr(np, u)(p.a), emap(lambda e: unary(POSITIVE[u], e), p.e), k + '/' + u, d)
    elif k == 'ufunc_out':
        out = obj(shape)
        z = np.sin(x.a, out=out)
        R.expect(z is out, 'ufunc_out/identity', '')
        compare(ctx, out, emap(lambda e: unary('sin', e), x.e), k, d)
    elif k == 'power':
        p = r.choice([0, 1, 2, 3, -1, -2, 2.0, 3.0])
        e = emap(lambda e: unary('pow', e, float(p)), x.e)
        compare(ctx, x.a ** p, e, k, d)
        compare(ctx, np.power(x.a, p), e, k, d)
    elif k == 'power_half':
        q = ctx.positive(x)
        compare(ctx, q.a ** 0.5, emap(lambda e: unary('pow', e, 0.5), q.e), k, d)
    elif k == 'binary':
        u = r.choice(sorted(BINU))
        s2 = r.choice([shape, shape, shape[1:] if len(shape) > 1 else shape, (1,) * len(shape), (2, 1) + shape])
        y = other(s2)
        f = getattr(np, u)
        compare(ctx, f(x.a, y.a), emap(lambda p, q: binary(BINU[u], p, q), x.e, y.e), k + '/' + u, d)
        if u in ('add', 'subtract', 'multiply', 'divide'):
            o = {'add': lambda p, q: p + q, 'subtract': lambda p, q: p - q, 'multiply': lambda p, q: p * q, 'divide': lambda p, q: p / q}[u]
            compare(ctx, o(y.a, x.a), emap(lambda p, q: binary(BINU[u], p, q), y.e, x.e), k + '/op_' + u, d)
    elif k == 'floats':
        u = r.choice(['add', 'subtract', 'multiply', 'divide'])
        s2 = r.choice([shape, shape[1:] if len(shape) > 1 else shape, ()])
        y, ye = ctx.floats(s2)
        if s2 == () and r.random() < 0.5:
            y = y.item()
        f = getattr(np, u)
        o = {'add': lambda p, q: p + q, 'subtract': lambda p, q: p - q, 'multiply': lambda p, q: p * q, 'divide': lambda p, q: p / q}[u]
        e1, e2 = emap(lambda p, q: binary(BINU[u], p, q), x.e, ye), emap(lambda p, q: binary(BINU[u], p, q), ye, x.e)
        compare(ctx, f(x.a, y), e1, k + '/' + u, d)
        compare(ctx, f(y, x.a), e2, k + '/left_' + u, d)
        compare(ctx, o(x.a, y), e1, k + '/op_' + u, d)
        compare(ctx, o(y, x.a), e2, k + '/op_left_' + u, d)
    elif k == 'jet_scalar':
        s = ctx.jet()
        se = ref(c, s)
        q = raw(s)
        compare(ctx, x.a * s, emap(lambda e: mul(e, se), x.e), k, d)
        compare(ctx, s * x.a, emap(lambda e: mul(se, e), x.e), k, d)
        compare(ctx, s - x.a, emap(lambda e: binary('sub', se, e), x.e), k, d)
        compare(ctx, x.a / s, emap(lambda e: binary('div', e, se), x.e), k, d)
        R.expect(same(raw(s), q), k + '/inputs', d)
    elif k == 'float_array_jet':
        s = ctx.jet()
        se = ref(c, s)
        y, ye = ctx.floats(shape)
        compare(ctx, y * s, emap(lambda e: mul(e, se), ye), k, d)
        compare(ctx, y - s, emap(lambda e: binary('sub', e, se), ye), k, d)
        for got, e, name in ((s + y, emap(lambda e: add(e, se), ye), 'add'), (s - y, emap(lambda e: binary('sub', se, e), ye), 'sub'), (s * y, emap(lambda e: mul(se, e), ye), 'mul'), (s / y, emap(lambda e: binary('div', se, e), ye), 'div')):
            if y.size == 1 and not isinstance(got, np.ndarray):
                # a bare jet on the left of a float array of one element: the result
                # is right but has lost its shape
                R.violation('one_element_array/' + name, 'the shape %s was lost: %s' % (y.shape, d()))
                t = obj(shape)
                t[(0,) * len(shape)] = got
                got = t
            compare(ctx, got, e, k, d)
        yf = y.astype(float)
        for name, o in (('less', lambda a, b: a < b), ('greater', lambda a, b: a > b), ('less_equal', lambda a, b: a <= b), ('greater_equal', lambda a, b: a >= b), ('equal', lambda a, b: a == b), ('not_equal', lambda a, b: a != b)):
            got = o(s, y)
            if y.size == 1 and not isinstance(got, np.ndarray):
                R.violation('one_element_array/compare', 'the shape %s was lost: %s' % (y.shape, d()))
                got = np.array(got).reshape(shape)
            R.evals += 1
            R.expect(got.shape == shape and np.array_equal(got.astype(bool), o(s.f, yf)) and np.array_equal(o(y, s).astype(bool), o(yf, s.f)), k + '/' + name, d)
    elif k == 'sum':
        compare(ctx, np.sum(x.a) if r.random() < 0.5 else x.a.sum(), esum(list(x.e.ravel())), k, d)
        ax = r.randrange(len(shape))
        compare(ctx, np.sum(x.a, axis=ax), np_reduce(x.e, ax, esum), k + '/axis', d)
    elif k == 'mean':
        e = mul(esum(list(x.e.ravel())), const(1.0 / x.a.size, n))
        e.ef, e.eg, e.eh = e.ef + EPS * abs(e.f), e.eg + EPS * np.abs(e.g), e.eh + EPS * np.abs(e.h)
        compare(ctx, np.mean(x.a), e, k, d)
    elif k == 'prod':
        compare(ctx, np.prod(x.a) if r.random() < 0.5 else x.a.prod(), eprod(list(x.e.ravel())), k, d)
    elif k == 'cumsum':
        got = np.cumsum(x.a)
        flat = list(x.e.ravel())
        e = obj((len(flat),))
        for i in range(len(flat)):
            e[i] = esum(flat[:i + 1])
        compare(ctx, got, e, k, d)
    elif k == 'cumprod':
        got = np.cumprod(x.a)
        flat = list(x.e.ravel())
        e = obj((len(flat),))
        for i in range(len(flat)):
            e[i] = eprod(flat[:i + 1])
        compare(ctx, got, e, k, d)
    elif k == 'diff' and shape[-1] > 1:
        compare(ctx, np.diff(x.a), emap(lambda p, q: binary('sub', p, q), x.e[..., 1:], x.e[..., :-1]), k, d)
    elif k == 'dot':
        m = r.choice([1, 2, 3, 5])
        u, v = other((m,)), other((m,))
        e = esum([mul(p, q) for p, q in zip(u.e, v.e)])
        for got in (np.dot(u.a, v.a), u.a @ v.a, np.inner(u.a, v.a), np.vdot(u.a, v.a) if False else u.a.dot(v.a), np.sum(u.a * v.a)):
            compare(ctx, got, e, k, det(ctx, u.a, v.a))
    elif k == 'dot_floats':
        m = r.choice([1, 2, 3, 5])
        u = other((m,))
        y, ye = ctx.floats((m,))
        e = esum([mul(p, q) for p, q in zip(u.e, ye)])
        for got in (np.dot(u.a, y), np.dot(y, u.a), y @ u.a, u.a @ y):
            compare(ctx, got, e, k, det(ctx, u.a))
    elif k == 'matmul':
        a, b, m = r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 2, 3])
        u, v = other((a, b)), other((b, m))
        e = fill((a, m), lambda i: esum([mul(u.e[i[0], t], v.e[t, i[1]]) for t in range(b)]))
        for got in (u.a @ v.a, np.matmul(u.a, v.a), np.dot(u.a, v.a)):
            compare(ctx, got, e, k, det(ctx, u.a, v.a))
        y, ye = ctx.floats((b, m))
        e = fill((a, m), lambda i: esum([mul(u.e[i[0], t], ye[t, i[1]]) for t in range(b)]))
        compare(ctx, u.a @ y, e, k + '/floats', det(ctx, u.a))
        w = other((b,))
        e = fill((a,), lambda i: esum([mul(u.e[i[0], t], w.e[t]) for t in range(b)]))
        compare(ctx, u.a @ w.a, e, k + '/vector', det(ctx, u.a, w.a))
    elif k == 'outer':
        u, v = other((2,)), other((3,))
        e = fill((2, 3), lambda i: mul(u.e[i[0]], v.e[i[1]]))
        compare(ctx, np.outer(u.a, v.a), e, k, det(ctx, u.a, v.a))
        compare(ctx, np.multiply.outer(u.a, v.a), e, k, det(ctx, u.a, v.a))
    elif k == 'cross':
        u, v = other((3,)), other((3,))
        ce = cross(u.e, v.e)
        compare(ctx, np.cross(u.a, v.a), ce, k, det(ctx, u.a, v.a))
        w = other((3,))
        e = esum([mul(p, q) for p, q in zip(ce, w.e)])
        compare(ctx, np.dot(np.cross(u.a, v.a), w.a), e, k + '/triple', det(ctx, u.a, v.a, w.a))
    elif k == 'norm':
        m = r.choice([1, 2, 3, 4])
        u = other((m,))
        e = unary('sqrt', esum([mul(p, p) for p in u.e]))
        compare(ctx, np.linalg.norm(u.a), e, k, det(ctx, u.a))
        compare(ctx, np.sqrt(u.a @ u.a), e, k, det(ctx, u.a))
        un = u.a / np.linalg.norm(u.a)
        compare(ctx, un, emap(lambda p: binary('div', p, e), u.e), k + '/unit', det(ctx, u.a))
    elif k == 'trace':
        u = other((3, 3))
        compare(ctx, np.trace(u.a), esum([u.e[i, i] for i in range(3)]), k, det(ctx, u.a))
        compare(ctx, np.diagonal(u.a), fill((3,), lambda i: u.e[i[0], i[0]]), k, det(ctx, u.a))
    elif k == 'det2':
        u = other((2, 2))
        e = binary('sub', mul(u.e[0, 0], u.e[1, 1]), mul(u.e[0, 1], u.e[1, 0]))
        compare(ctx, u.a[0, 0] * u.a[1, 1] - u.a[0, 1] * u.a[1, 0], e, k, det(ctx, u.a))
    elif k == 'einsum':
        u, v = other((2, 3)), other((3, 2))
        e = fill((2, 2), lambda i: esum([mul(u.e[i[0], t], v.e[t, i[1]]) for t in range(3)]))
        compare(ctx, np.tensordot(u.a, v.a, axes=1), e, k, det(ctx, u.a, v.a))
    elif k == 'kron':
        u, v = other((2,)), other((2,))
        compare(ctx, np.kron(u.a, v.a), fill((4,), lambda i: mul(u.e[i[0] // 2], v.e[i[0] % 2])), k, det(ctx, u.a, v.a))
    elif k == 'inplace':
        # in-place array operators; elements of the array are replaced or updated, other arrays are not
        y = other(shape)
        z = A(fill(shape, lambda i: c.make(raw(x.a[i]))), x.e.copy())
        for _ in range(r.randrange(1, 4)):
            o = r.choice(['+', '-', '*', '/', 's*', 's+', 'f*'])
            za = z.a
            if o == '+':
                za += y.a
                z.e = emap(add, z.e, y.e)
            elif o == '-':
                za -= y.a
                z.e = emap(lambda p, q: binary('sub', p, q), z.e, y.e)
            elif o == '*':
                za *= y.a
                z.e = emap(mul, z.e, y.e)
            elif o == '/':
                za /= y.a
                z.e = emap(lambda p, q: binary('div', p, q), z.e, y.e)
            elif o == 's*':
                za *= 2.5
                z.e = emap(lambda p: mul(p, const(2.5, n)), z.e)
            elif o == 's+':
                za += 1
                z.e = emap(lambda p: add(p, const(1.0, n)), z.e)
            else:
                fl, fe = ctx.floats(shape)
                za *= fl
                z.e = emap(mul, z.e, fe)
            R.expect(za is z.a, 'inplace/identity', o)
        compare(ctx, z.a, z.e, k, d)
    elif k == 'at':
        m = x.a.size
        z = fill((m,), lambda i: c.make(raw(x.a.ravel()[i[0]])))
        ze = x.e.ravel().copy()
        idx = [r.randrange(m) for _ in range(4)]
        y = other((4,))
        np.add.at(z, idx, y.a)
        for i, e in zip(idx, y.e):
            ze[i] = add(ze[i], e)
        compare(ctx, z, ze, k, det(ctx, x.a, y.a))
    elif k == 'minmax':
        f = np.array([v.f for v in x.a.ravel()])
        i, j = int(np.argmax(f)), int(np.argmin(f))
        flat = x.a.ravel()
        R.evals += 1
        R.expect(np.max(x.a) == flat[i] and same(raw(np.max(x.a)), keep[i]) and same(raw(np.min(x.a)), keep[j]) and int(np.argmax(flat)) == i and int(np.argmin(flat)) == j, k, d)
        y = other(shape)
        for fn, pick in ((np.maximum, lambda p, q: p if p.f >= q.f else q), (np.minimum, lambda p, q: p if p.f <= q.f else q)):
            compare(ctx, fn(x.a, y.a), emap(pick, x.e, y.e), k + '/elementwise', det(ctx, x.a, y.a))
        compare(ctx, np.maximum(x.a, 0.5), emap(lambda p: p if p.f >= 0.5 else const(0.5, n), x.e), k + '/float', d) if False else None
    elif k == 'compare':
        y = other(shape)
        if r.random() < 0.5:
            y.a.ravel()[0].f = x.a.ravel()[0].f
            y.e[(0,) * len(shape)] = ref(c, y.a.ravel()[0])
            others[-1] = (y.a, [raw(v) for v in y.a.ravel()])
        fx = fill(shape, lambda i: x.a[i].f).astype(float)
        fy = fill(shape, lambda i: y.a[i].f).astype(float)
        for name in ('less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal'):
            u = getattr(np, name)
            R.evals += 3
            R.expect(np.array_equal(u(x.a, y.a).astype(bool), u(fx, fy)) and np.array_equal(u(x.a, fy).astype(bool), u(fx, fy)) and np.array_equal(u(fx, y.a).astype(bool), u(fx, fy)) and np.array_equal(u(x.a, 1.0).astype(bool), u(fx, 1.0)), k + '/' + name, det(ctx, x.a, y.a))
        mask = x.a < y.a
        w = np.where(mask, x.a, y.a)
        compare(ctx, w, emap(lambda p, q: p if p.f < q.f else q, x.e, y.e), k + '/where', det(ctx, x.a, y.a))
    elif k == 'sort':
        m = r.choice([1, 2, 5, 8, 20])
        u = other((m,))
        order = np.argsort([v.f for v in u.a], kind='stable')
        got = np.sort(u.a, kind=r.choice(['stable', 'quicksort', 'heapsort']))
        want = obj((m,))
        for i in range(m):
            want[i] = u.e[order[i]]
        compare(ctx, got, want, k, det(ctx, u.a))
        R.expect(np.array_equal(np.argsort(u.a, kind='stable'), order), k + '/argsort', det(ctx, u.a))
    elif k == 'interp':
        # linear interpolation and polynomial evaluation, mixed with floats
        t = np.linspace(0, 1, 3)
        u, v = other(()), other(())
        a0, a1 = u.a[()], v.a[()]
        got = (1 - t) * a0 + t * a1
        want = fill((3,), lambda i: add(mul(const(1 - t[i[0]], n), u.e[()]), mul(const(t[i[0]], n), v.e[()])))
        compare(ctx, got, want, k, det(ctx, u.a, v.a))
        co = [r.uniform(-1, 1) for _ in range(4)]
        e = const(0.0, n)
        for q in co:
            e = add(mul(e, u.e[()]), const(q, n))
        compare(ctx, np.polyval(co, a0), e, k + '/polyval', det(ctx, u.a))
    elif k == 'reshape':
        y = x.a.reshape(-1)[::-1].reshape(shape) if shape else x.a
        compare(ctx, np.transpose(y), np.transpose(x.e.reshape(-1)[::-1].reshape(shape)), k, d)
        compare(ctx, np.concatenate([x.a, x.a]) * 2, emap(lambda e: mul(e, const(2.0, n)), np.concatenate([x.e, x.e])), k + '/concatenate', d)
        st = np.stack([np.sin(x.a), x.a])
        compare(ctx, st, np.stack([emap(lambda e: unary('sin', e), x.e), x.e]), k + '/stack', d)
    elif k == 'program':
        # a composed formula: |sin(M u) + v| / (1 + w.w)
        m = r.choice([2, 3])
        M, u, v = other((m, m)), other((m,)), other((m,))
        w = np.sin(M.a @ u.a) + v.a * r.choice([2.0, 3])
        got = np.sqrt(np.sum(w * w)) / (1 + np.dot(u.a, u.a))
        R.step('program reference')
        # the factor is read back from the result of the product with the references
        raise_factor = None
        for s in (2.0, 3.0):
            if same(raw((np.sin(M.a @ u.a) + v.a * s)[0]), raw(w[0])):
                raise_factor = s
        we = [add(unary('sin', esum([mul(M.e[i, t], u.e[t]) for t in range(m)])), mul(v.e[i], const(raise_factor, n))) for i in range(m)]
        e = binary('div', unary('sqrt', esum([mul(q, q) for q in we])), add(const(1.0, n), esum([mul(q, q) for q in u.e])))
        compare(ctx, got, e, k, det(ctx, M.a, u.a, v.a))
    inputs_unchanged()
    R.seen((c.name, k, shape, keep[0].tobytes()))
    if r.random() < 0.001:
        R.sample('%s %s' % (k, d()))


def cross(a, b):
    def m(i, j):
        return binary('sub', mul(a[i], b[j]), mul(a[j], b[i]))
    e = obj((3,))
    e[0], e[1], e[2] = m(1, 2), m(2, 0), m(0, 1)
    return e


def np_reduce(e, ax, f):
    m = np.moveaxis(e, ax, -1)
    out = obj(m.shape[:-1])
    for i in np.ndindex(*m.shape[:-1]):
        out[i] = f(list(m[i]))
    return out if out.shape else out[()]


OPS = ['ufunc'] * 4 + ['ufunc_positive', 'ufunc_out', 'power', 'power_half'] + ['binary'] * 3 + ['floats'] * 3 + ['jet_scalar', 'float_array_jet', 'sum', 'mean', 'prod', 'cumsum', 'cumprod', 'diff', 'dot', 'dot_floats', 'matmul', 'outer', 'cross', 'norm', 'trace', 'det2', 'einsum', 'kron', 'inplace', 'inplace', 'at', 'minmax', 'compare', 'sort', 'interp', 'reshape', 'program']


def one(r, c):
    n = c.n if c.n is not None else r.choice([0, 1, 2, 3, 5, 8])
    ops(Ctx(r, c, n))


def solve2(m, v):
    det = m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    return [(v[0] * m[1, 1] - v[1] * m[0, 1]) / det, (m[0, 0] * v[1] - m[1, 0] * v[0]) / det]


def newton_sqrt(a):
    x = a * 0.5 + 0.5
    for _ in range(6):
        x = (x + a / x) * 0.5
    return x


def iadd(u, v):
    w = u.copy()
    w += v
    w *= 2.0
    w -= u * v
    w /= 4.0
    return w


def add_at(u, v):
    w = u * 1.0
    np.add.at(w, [0, 0, -1], v[0])
    return w


# whole programs, written once and run with every kind of jet; u, v: vectors of m jets,
# M: a matrix of jets, y: floats, k: ints, z: one jet
PROGRAMS = {
    'sum': lambda u, v, M, y, k, z: [np.sum(u), sum(u), sum(u, z), sum(list(v), 0.5), np.sum(M, axis=0), np.cumsum(u), np.mean(u)],
    'reduce': lambda u, v, M, y, k, z: [functools.reduce(lambda p, q: p * q, u), functools.reduce(lambda p, q: q - p, v, z), np.multiply.reduce(u), np.prod(u), math.prod(u), np.add.accumulate(v), np.subtract.reduce(u)],
    'products': lambda u, v, M, y, k, z: [np.dot(u, v), u @ v, M @ u, u @ M, M @ M, np.outer(u, v), np.inner(u, v), np.kron(u, v), np.tensordot(M, u, axes=1), np.einsum('i,i->', u, v) if False else np.vdot(u, v) if False else u.dot(v)],
    'floats': lambda u, v, M, y, k, z: [u * y, y * u, u + y, y - u, u / y, y / u, u @ y, y @ u, M @ y, k * u, u * k, k - u, u / k, 2 * u, u - 1, 1 / v, np.float64(0.5) * u, u * np.float32(0.25), y * z, k + z],
    'norm': lambda u, v, M, y, k, z: [np.linalg.norm(u), u / np.linalg.norm(u), np.sqrt(np.sum(u ** 2)), np.linalg.norm(u - v), np.linalg.norm(M), np.trace(M), np.diagonal(M)],
    'cross': lambda u, v, M, y, k, z: [np.cross(u[:3], v[:3]), np.dot(np.cross(u[:3], v[:3]), y[:3])] if len(u) >= 3 else [u[0]],
    'functions': lambda u, v, M, y, k, z: [np.sin(u), np.exp(-u), np.cos(M), np.arctan(v), np.log(u * u + 1.0), np.sqrt(v * v + 0.5), np.tanh(u), np.hypot(u, v), np.arctan2(u, v), np.abs(u), np.square(v), np.negative(u), np.power(u, 2), u ** 3, v ** -1, np.reciprocal(v), np.absolute(M)],
    'order': lambda u, v, M, y, k, z: [np.sort(u), np.array(sorted(v)), np.array(sorted(u, key=lambda q: -q)), np.max(u), np.min(v), max(u), min(v), max(u, key=lambda q: q * q), np.maximum(u, v), np.minimum(u, v), np.where(u < v, u, v), np.where(u > 0, u, -u), u[np.argsort(v)], u[v > 0.0], np.clip(u, v, v + 1.0)],
    'inplace': lambda u, v, M, y, k, z: [iadd(u, v), add_at(u, v)],
    'solve': lambda u, v, M, y, k, z: solve2(M + 3.0 * np.eye(len(u)), u) if len(u) == 2 else [u[0]],
    'newton': lambda u, v, M, y, k, z: [newton_sqrt(z * z + 1.0), newton_sqrt(u * u + 1.0)],
    'layout': lambda u, v, M, y, k, z: [M.T @ u, M[::-1] @ v, M[:, 0] * u, np.concatenate([u, v]) * z, np.stack([u, v]).T * 2.0, np.roll(u, 1) - u, np.flip(v) + u, np.tile(u, 2) / 2.0, np.diff(u), np.repeat(v, 2) * z, np.triu(np.ones((len(u), len(u)))) * z],
    'poly': lambda u, v, M, y, k, z: [np.polyval(y, z), np.polyval(y, u), sum(c * z ** i for i, c in enumerate(y)), (1 - y) * z + y * u, np.linspace(0.0, 1.0, 3) * z],
    'mean': lambda u, v, M, y, k, z: [np.mean(u * v), np.mean(M, axis=1), np.average(u, weights=np.abs(y)), np.mean((u - np.mean(u)) ** 2)],
}
KINDS = ['D', 'DD', 'static', 'dd static', 'sparse']


def flat(x):
    """the jets of a result, in order, and its shape"""
    out = []
    for q in x:
        a = np.asarray(q, dtype=object) if isinstance(q, np.ndarray) else np.array([q], dtype=object)
        out.append((a.shape, list(a.ravel())))
    return out


def together(r):
    """one program with every kind of jet: the same values and derivatives"""
    m = r.choice([2, 2, 3, 4])
    n = m * m + 2 * m + 1
    if n > 16:
        n = 16
    names = ['v%d' % i for i in range(n)]
    r.shuffle(names)
    count = 2 * m + m * m + 1
    f = [sgn(r) * r.uniform(0.5, 2.0) for _ in range(count)]
    seeds = r.random() < 0.5
    g = [[0.0] * n for _ in range(count)]
    for i in range(count):
        if seeds:
            g[i][i % n] = 1.0
        else:
            g[i] = [r.choice([0.0, r.uniform(-1, 1)]) for _ in range(n)]
    y = np.array([sgn(r) * r.uniform(0.5, 2) for _ in range(m)])
    k = np.array([r.choice([-3, -2, -1, 1, 2, 3]) for _ in range(m)])
    zeros = [0.0] * (n * (n + 1) // 2)
    make = {
        'D': lambda i: hj.DScalar([f[i]] + g[i]), 'DD': lambda i: hj.DDScalar([f[i]] + g[i] + zeros),
        'static': lambda i: getattr(hj, 'D%dScalar' % n)([f[i]] + g[i]), 'dd static': lambda i: getattr(hj, 'DD%dScalar' % n)([f[i]] + g[i] + zeros),
        # only the names it has
        'sparse': lambda i: hj.SScalar(f[i], {names[j]: g[i][j] for j in range(n) if g[i][j] != 0}),
    }

    def values(q):
        if isinstance(q, hj.SScalar):
            return np.array([q.f] + [q.d(s) for s in names])
        if isinstance(q, (float, int)):
            return np.array([float(q)] + [0.0] * n)
        return np.concatenate([[q.f], np.array(q.g)])
    name = r.choice(sorted(PROGRAMS))
    R.step(name)
    R.count('program_' + name)
    results = {}
    for kind in KINDS:
        jets = [make[kind](i) for i in range(count)]
        keep = [values(q) for q in jets]
        a = np.array(jets, dtype=object)
        u, v, M, z = a[:m], a[m:2 * m], a[2 * m:2 * m + m * m].reshape(m, m), jets[-1]
        R.step(name + ' with ' + kind)
        results[kind] = flat(PROGRAMS[name](u, v, M, y, k, z))
        R.expect(all(same(values(q), w) for q, w in zip(jets, keep)), 'together/inputs', '%s of %s changed its operands' % (name, kind))
        R.seen((kind, name, tuple(f)))
    for kind in KINDS:
        for t, ((sa, qa), (sb, qb)) in enumerate(zip(results['DD'], results[kind])):
            R.expect(sa == sb, 'together/shape', '%s result %d of %s: shape %s instead of %s' % (name, t, kind, sb, sa))
            big = max([1.0] + [float(np.max(np.abs(values(q)))) for q in qa])
            for p, q in zip(qa, qb):
                R.evals += 1
                R.count('elements_together')
                pv, qv = values(p), values(q)
                ok = np.all(np.abs(pv - qv) <= 1e-9 * big)
                if kind == 'dd static' and type(p) is not float:
                    ph, qh = p.hm(), q.hm()
                    ok = ok and np.all(np.abs(ph - qh) <= 1e-9 * max(big, float(np.max(np.abs(ph)))))
                if big < 1e4 and not ok:
                    R.violation('together/' + name, 'result %d with %s is %s, with DD %s; m=%d f=%s g=%s y=%s k=%s' % (t, kind, qv.tolist(), pv.tolist(), m, f, g, y.tolist(), k.tolist()))
                    raise Done
    # the same program with plain numbers: values, and differences along a direction
    direction = np.array([r.uniform(-1, 1) for _ in range(n)])
    slope = np.array(g) @ direction

    def at(t, jets):
        ft = [f[i] + t * slope[i] for i in range(count)]
        a = np.array([hj.DScalar([ft[i]] + g[i]) for i in range(count)], dtype=object) if jets else np.array(ft)
        res = flat(PROGRAMS[name](a[:m], a[m:2 * m], a[2 * m:2 * m + m * m].reshape(m, m), y, k, a[-1]))
        return [np.array([q.g for q in w]) if jets else np.array(w, dtype=float) for _, w in res]
    h = 1e-5
    R.step(name + ' with plain numbers')
    plain = [at(t, False) for t in (0.0, h, -h, 2 * h, -2 * h)]
    grads = [at(t, True) for t in (h, -h, 2 * h, -2 * h)]
    for t, (_, qa) in enumerate(results['DD']):
        if not qa or any(isinstance(q, float) for q in qa):
            continue
        want = np.array([q.f for q in qa])
        d = np.array([q.g for q in qa]) @ direction
        dd = np.array([q.hm() @ direction for q in qa])
        scale = max(1.0, float(np.max(np.abs(want))), float(np.max(np.abs(d))))
        R.evals += 1
        R.expect(plain[0][t].shape == want.shape and bool(np.all(np.abs(plain[0][t] - want) <= 1e-9 * scale)), 'together/plain/' + name, lambda: 'result %d: %s with jets, %s with numbers; f=%s y=%s k=%s' % (t, want.tolist(), plain[0][t].tolist(), f, y.tolist(), k.tolist()))
        one, two = (plain[1][t] - plain[2][t]) / (2 * h), (plain[3][t] - plain[4][t]) / (4 * h)
        for i in range(len(qa)):
            if abs(one[i] - two[i]) > 1e-6 * scale or scale > 1e3:
                R.count('skipped_differences')
                continue
            R.count('differences')
            R.expect(abs(d[i] - one[i]) <= 1e-4 * scale, 'together/slope/' + name, lambda: 'result %d element %d: slope %r along a direction, differences of the program with numbers %r; f=%s y=%s k=%s' % (t, i, d[i], one[i], f, y.tolist(), k.tolist()))
        one, two = (grads[0][t] - grads[1][t]) / (2 * h), (grads[2][t] - grads[3][t]) / (4 * h)
        scale = max(scale, float(np.max(np.abs(dd))))
        for i in range(len(qa)):
            if np.any(np.abs(one[i] - two[i]) > 1e-6 * scale) or scale > 1e3:
                R.count('skipped_differences')
                continue
            R.count('curvatures')
            R.expect(bool(np.all(np.abs(dd[i] - one[i]) <= 1e-4 * scale)), 'together/curvature/' + name, lambda: 'result %d element %d: Hessian times a direction %s, differences of the gradient %s; f=%s y=%s k=%s' % (t, i, dd[i].tolist(), one[i].tolist(), f, y.tolist(), k.tolist()))


def run():
    for i in range(8):
        if R.mine(i):
            for k in range(R.n(40)):
                R.case('together/%d/%d' % (i, k), together)
    for c in classes():
        if c.T is None:
            R.violation('missing/' + c.name, 'the module has no class ' + c.name)
            continue
        for k in range(R.n(60 if c.n is not None else 250)):
            R.case('%s/%d' % (c.name, k), one, c)


main(run)
