"""C25: the family of dense jet classes in Python: constructors, factories, padding."""
from hv import *  # noqa: F401,F403

VALUES = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 5e-324, 1.7e308, 0.1]


def value(r):
    return r.choice(VALUES) if r.random() < 0.3 else r.uniform(-3, 3)


def number(r):
    """a number of some type and its value"""
    v = r.choice([value(r), value(r), r.randrange(-9, 9), np.float64(value(r)), np.float32(0.5), np.int64(r.randrange(-9, 9)), True])
    return v, float(v)


def is_jet(c, x, d, key, detail):
    R.evals += 1
    R.count('made_' + key)
    n = len(d) - 1 if c.order == 1 else (math.isqrt(1 + 8 * len(d)) - 3) // 2
    ok = type(x) is c.T and x.size == len(x) == n and same(raw(x), d) and x.order == c.order and x.is_dynamic == (c.n is None) and type(x.f) is float
    ok = ok and same([x.f], [d[0]]) and same(x.g, d[1:1 + n])
    if ok and c.order == 2:
        m = np.zeros((n, n))
        m[np.triu_indices(n)] = d[1 + n:]
        m.T[np.triu_indices(n)] = d[1 + n:]
        ok = same(x.hm(), m)
    if not ok:
        R.violation('%s/%s' % (key, c.name), '%s gave %s instead of %r' % (detail, show(x) if type(x) is c.T else repr(x), list(d)))
    return ok


def statics(r, c):
    T = c.T
    R.evals += 1
    R.expect(T.order == c.order and T.is_dynamic == (c.n is None) and isinstance(T.is_dynamic, bool), 'static/' + c.name, 'order %r is_dynamic %r' % (T.order, T.is_dynamic))
    for m in ('pad_left', 'pad_right', 'resize'):
        R.expect(hasattr(T, m) == (c.n is None), 'members/%s/%s' % (m, c.name), '%s on %s: %r' % (m, c.name, hasattr(T, m)))
    for m in ('h', 'set_h', 'hm', 'set_hm') if c.order == 2 else ():
        R.expect(hasattr(T, m), 'members/%s/%s' % (m, c.name), 'no %s on %s' % (m, c.name))
    for m in ('constant', 'empty', 'variable', 'variables', 'zero', 'f', 'g', 'data', 'size', 'eval'):
        R.expect(hasattr(T, m), 'members/%s/%s' % (m, c.name), 'no %s on %s' % (m, c.name))
    R.count('statics')
    # a class of its own, not another one's name
    others = [o for o in CLASSES if o.T is T]
    R.expect(len(others) == 1 and T.__name__ == c.name, 'static/name/' + c.name, repr(T))


def make(r, c):
    T = c.T
    n = c.size(r)
    m = c.length(n)
    zero = [0.0] * m
    a, v = number(r)
    d0 = zero[:]
    d0[0] = v
    n0 = 0 if c.n is None else n
    dd = [0.0] * c.length(n0)
    dd[0] = v
    # default size
    is_jet(c, T(a), dd, 'scalar', '%s(%r)' % (c.name, a))
    is_jet(c, T(f=a), dd, 'scalar_kw', '%s(f=%r)' % (c.name, a))
    is_jet(c, T(), [0.0] * c.length(n0), 'default', c.name + '()')
    is_jet(c, T.constant(a), dd, 'constant', '%s.constant(%r)' % (c.name, a))
    is_jet(c, T.constant(f=a), dd, 'constant_kw', '%s.constant(f=%r)' % (c.name, a))
    is_jet(c, T.zero(), [0.0] * c.length(n0), 'zero', c.name + '.zero()')
    # given size
    is_jet(c, T(a, n), d0, 'scalar_size', '%s(%r, %d)' % (c.name, a, n))
    is_jet(c, T(a, np.int64(n)), d0, 'scalar_size_np', '%s(%r, np.int64(%d))' % (c.name, a, n))
    is_jet(c, T.zero(np.int32(n)), zero, 'zero_size_np', '%s.zero(np.int32(%d))' % (c.name, n))
    is_jet(c, T(f=a, size=n), d0, 'scalar_size_kw', '%s(f=%r, size=%d)' % (c.name, a, n))
    is_jet(c, T(size=n), zero, 'size_kw', '%s(size=%d)' % (c.name, n))
    is_jet(c, T.constant(a, n), d0, 'constant_size', '%s.constant(%r, %d)' % (c.name, a, n))
    is_jet(c, T.constant(size=n, f=a), d0, 'constant_size_kw', '%s.constant(f=%r, size=%d)' % (c.name, a, n))
    is_jet(c, T.zero(n), zero, 'zero_size', '%s.zero(%d)' % (c.name, n))
    is_jet(c, T.zero(size=n), zero, 'zero_size_kw', '%s.zero(size=%d)' % (c.name, n))
    for x in (T.empty(n), T.empty(size=n)) + ((T.empty(),) if c.n is not None else ()):
        R.evals += 1
        R.count('made_empty')
        R.expect(type(x) is T and x.size == len(x) == n and len(x.data) == m, 'empty/' + c.name, lambda: '%s.empty(%d) has size %r and %d data' % (c.name, n, x.size, len(x.data)))
        x.data[:] = d0
        is_jet(c, x, d0, 'empty_filled', 'empty, then filled')
    # data
    d = [value(r) for _ in range(m)]
    for k, arg in (('list', d), ('array', np.array(d)), ('tuple', tuple(d)), ('float64', [np.float64(q) for q in d])):
        is_jet(c, T(arg), d, 'data_' + k, '%s(%r)' % (c.name, arg))
        is_jet(c, T(data=arg), d, 'data_kw', '%s(data=%r)' % (c.name, arg))
    if n:
        big = np.zeros(2 * m)
        big[::2] = d
        is_jet(c, T(big[::2]), d, 'data_strided', 'strided data')
        is_jet(c, T(np.arange(m)), list(map(float, range(m))), 'data_ints', 'integer data')
        for k, arg in r.sample(vector_forms(d), 2):
            is_jet(c, T(arg), d, 'data_form', '%s(%s %r)' % (c.name, k, arg))
        k, arg = r.choice(vector_forms(d[1:1 + n]))
        is_jet(c, T(a, arg) if c.order == 1 else T(a, arg, np.zeros((n, n))), [v] + d[1:1 + n] + [0.0] * (m - 1 - n), 'gradient_form', '%s(%r, %s %r)' % (c.name, a, k, arg))
    # parts
    g = np.array([value(r) for _ in range(n)])
    if c.order == 1:
        for k, arg in (('list', g.tolist()), ('array', g), ('strided', np.stack([g, g], axis=1)[:, 0])):
            is_jet(c, T(a, arg), [v] + g.tolist(), 'parts_' + k, '%s(%r, %r)' % (c.name, a, arg))
            is_jet(c, T(f=a, g=arg), [v] + g.tolist(), 'parts_kw', '%s(f, g)' % c.name)
    else:
        h = np.array([[value(r) for _ in range(n)] for _ in range(n)]).reshape(n, n)
        h = np.triu(np.where(np.isnan(h), 0.5, h))
        h = np.array([[h[min(i, j), max(i, j)] for j in range(n)] for i in range(n)]).reshape(n, n)
        want = [v] + g.tolist() + h[np.triu_indices(n)].tolist()
        forms = [('array', h), ('fortran', np.asfortranarray(h)), ('strided', np.stack([h, h], axis=2)[:, :, 1]), ('big_endian', h.astype('>f8'))] + ([('reversed', h[::-1, ::-1].copy()[::-1, ::-1])] if n > 1 else [])
        if n:
            forms.append(('list', h.tolist()))
        for k, arg in forms:
            is_jet(c, T(a, g, arg), want, 'parts_' + k, '%s(%r, %r, %r)' % (c.name, a, g, arg))
            is_jet(c, T(f=a, hm=arg, g=g.tolist()), want, 'parts_kw', '%s(f, g, hm)' % c.name)
    # variables
    if n:
        i = r.randrange(n)
        want = d0[:]
        want[1 + i] = 1.0
        is_jet(c, T.variable(i, a, n), want, 'variable', '%s.variable(%d, %r, %d)' % (c.name, i, a, n))
        is_jet(c, T.variable(f=a, size=n, i=i), want, 'variable_kw', '%s.variable(i=%d, f=%r, size=%d)' % (c.name, i, a, n))
        if c.n is not None:
            is_jet(c, T.variable(i, a), want, 'variable_static', '%s.variable(%d, %r)' % (c.name, i, a))
            is_jet(c, T.variable(f=a, i=i), want, 'variable_static_kw', '%s.variable(i=%d, f=%r)' % (c.name, i, a))
    vals = [value(r) for _ in range(n)]
    for k, arg in [('list', vals), ('array', np.array(vals)), ('kw', None)] + [('form', f[1]) for f in r.sample(vector_forms(vals), 1)]:
        xs = T.variables(values=vals) if k == 'kw' else T.variables(arg)
        R.expect(isinstance(xs, list) and len(xs) == n, 'variables/count/' + c.name, repr(xs))
        for i, x in enumerate(xs):
            want = zero[:]
            want[0], want[1 + i] = vals[i], 1.0
            if not is_jet(c, x, want, 'variables_' + k, 'element %d of %s.variables(%r)' % (i, c.name, vals)):
                break
    R.seen((c.name, tuple(d), v))
    if r.random() < 0.02:
        R.sample('%s %r' % (c.name, d[:8]))


def padding(r, c):
    n = c.size(r)
    d = [value(r) for _ in range(c.length(n))]
    x = c.make(d)
    m = n + r.choice([0, 0, 1, 2, 3, 7, r.randrange(40)])
    for side in ('left', 'right'):
        f = x.pad_left if side == 'left' else x.pad_right
        y = f(m) if r.random() < 0.7 else f(new_size=m)
        off = m - n if side == 'left' else 0
        g = np.zeros(m)
        g[off:off + n] = d[1:1 + n]
        want = [d[0]] + g.tolist()
        if c.order == 2:
            h, k = np.zeros((m, m)), np.zeros((n, n))
            k[np.triu_indices(n)] = d[1 + n:]
            h[off:off + n, off:off + n] = k
            want += h[np.triu_indices(m)].tolist()
        is_jet(c, y, want, 'pad_' + side, '%s padded to %d' % (show(x), m))
        R.expect(same(raw(x), d) and x.size == n and y is not x, 'pad_source/' + c.name, show(x))
        y.data[:] = 3.0
        R.expect(same(raw(x), d), 'pad_shared/' + c.name, show(x))
    m = c.size(r)
    y = c.make(d)
    y.resize(m) if r.random() < 0.5 else y.resize(size=m)
    R.count('resized')
    R.expect(y.size == len(y) == m and len(y.data) == c.length(m), 'resize/' + c.name, 'resize(%d) gave size %r and %d data' % (m, y.size, len(y.data)))
    if m == n:
        is_jet(c, y, d, 'resize_same', 'resize to the same size')
    want = [value(r) for _ in range(c.length(m))]
    y.data[:] = want
    is_jet(c, y, want, 'resize_filled', 'resized, then filled')


def run():
    for c in classes():
        if c.T is None:
            R.violation('missing/' + c.name, 'the module has no class ' + c.name)
            continue
        R.case('%s/static' % c.name, statics, c)
        for k in range(R.n(24 if c.n is not None else 120)):
            R.case('%s/make/%d' % (c.name, k), make, c)
            if c.n is None:
                R.case('%s/pad/%d' % (c.name, k), padding, c)


main(run)
