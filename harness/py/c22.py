"""C22: seeding with variables and extraction with f, d and dd in Python."""
from hv import *  # noqa: F401,F403

VALUES = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 5e-324, 1.7e308, 0.1, 1 / 3, 123456789.123456789, 2.0 ** 53 + 2]


def value(r):
    return r.choice(VALUES) if r.random() < 0.4 else r.uniform(-3, 3)


def seeded(c, i, f, n):
    d = [0.0] * c.length(n)
    d[0] = f
    d[1 + i] = 1.0
    return d


def seeding(r, n):
    vals = [value(r) for _ in range(n)]
    ints = r.random() < 0.1
    if ints:
        vals = [r.randrange(-9, 9) for _ in range(n)]
    form = r.randrange(5)
    arg = vals if form < 2 else tuple(vals) if form == 2 else np.array(vals, dtype=float) if form == 3 else [np.float64(v) for v in vals]
    if r.random() < 0.4:
        layout, arg = r.choice(vector_forms(vals))
        R.count('layout_' + layout)
    want = [float(v) for v in vals]
    for order in (None, 0, 1, 2):
        R.step('order %r' % order)
        if order is None:
            got = hj.variables(arg) if r.random() < 0.5 else hj.variables(values=arg)
            order = 2
        else:
            got = r.choice([lambda: hj.variables(arg, order), lambda: hj.variables(arg, order=order), lambda: hj.variables(values=arg, order=order)])()
        R.evals += 1
        R.count('seeded_order_%d' % order)
        R.count('length_%d' % n)
        key = 'variables/%d' % order
        if not (isinstance(got, list) and len(got) == n):
            R.violation(key + '/count', 'variables(%r, %d) is %r' % (arg, order, got))
            continue
        if order == 0:
            R.expect(all(type(v) is float for v in got) and same(got, want), key, lambda: 'variables(%r, 0) is %r' % (arg, got))
            continue
        for i, x in enumerate(got):
            ok = type(x).__name__ in ('D' * order + '%dScalar' % n, 'D' * order + 'Scalar') and x.order == order and x.size == n and len(x) == n
            c = Cls(order, n)
            ok = ok and same(raw(x), seeded(c, i, want[i], n))
            ok = ok and same(x.g, np.eye(n)[i]) and (order == 1 or (same(x.hm(), np.zeros((n, n)))))
            if not R.expect(ok, key, lambda: 'element %d of variables(%r, %d) is %s' % (i, arg, order, show(x))):
                break
        # independent of each other, and combinable
        if n > 1:
            got[0].f = 99.0
            got[0].g[...] = 5.0
            R.expect(same(raw(got[1]), seeded(Cls(order, n), 1, want[1], n)), key + '/shared', 'a change of one variable was seen by another')
            s = got[0] + got[1]
            R.expect(s.size == n, key + '/combine', show(s))
        R.seen((n, order, tuple(want)))
    if r.random() < 0.05:
        R.sample('variables(%r) -> %r' % (vals[:5], hj.variables(vals)[:5]))


def refused(r):
    vals = [value(r) for _ in range(r.randrange(0, 20))]
    for order in (-2, -1, 3, 4, 5, 100, 2 ** 40, -2 ** 40):
        R.evals += 1
        R.count('orders_refused')
        try:
            got = hj.variables(vals, order)
        except Exception:
            continue
        R.violation('variables/order', 'variables(%r, %d) gave %r' % (vals, order, got))


def fill(shape, make):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = make()
    return a


SHAPES = [(), (1,), (2,), (3,), (5,), (1, 1), (2, 3), (3, 1), (4, 2), (2, 2, 2), (1, 3, 2)]


def jet_of(r, c, n):
    return c.make([value(r) for _ in range(c.length(n))])


def extract(r, c, fn, a, shape, n, key, elems):
    """one extractor on one array (or nested list) of jets"""
    name = fn.__name__ if hasattr(fn, '__name__') else key
    got = fn(a)
    R.evals += 1
    tail = {'f': (), 'd': (n,), 'dd': (n, n)}[key] if elems == 'jets' else {'f': (), 'd': (0,), 'dd': (0, 0)}[key]
    if key == 'dd' and elems == 'jets' and c.order == 1:
        tail = (0, 0)
    if np.shape(got) != shape + tail:
        R.violation('extract/%s/shape' % key, '%s of an array of shape %s of %s has shape %s instead of %s' % (key, shape, elems, np.shape(got), shape + tail))
        return None
    if np.asarray(got).dtype != np.float64:
        R.violation('extract/%s/dtype' % key, '%s of an array of %s has dtype %s' % (key, elems, np.asarray(got).dtype))
        return None
    return np.asarray(got)


def as_list(a):
    return a.tolist() if isinstance(a, np.ndarray) else a


def jets(r, c):
    n = c.size(r)
    shape = r.choice(SHAPES)
    a = fill(shape, lambda: jet_of(r, c, n))
    if r.random() < 0.15 and len(shape) and shape[0] > 1:
        a[0] = a[1]  # the same objects twice
    keep = {i: raw(a[i]) for i in np.ndindex(*shape)}
    arg = a[()] if shape == () else a if r.random() < 0.5 else a.tolist()
    R.seen((c.name, shape, tuple(np.concatenate([k for k in keep.values()]).tolist())))
    for key, fn in (('f', hj.f), ('d', hj.d), ('dd', hj.dd)):
        got = extract(r, c, fn, arg, shape, n, key, 'jets')
        R.count('extracted_%s' % key)
        if got is None:
            continue
        for i in np.ndindex(*shape):
            d = keep[i]
            if key == 'f':
                want = d[0]
            elif key == 'd':
                want = d[1:1 + n]
            elif c.order == 1:
                want = np.zeros((0, 0))
            else:
                want = np.zeros((n, n))
                want[np.triu_indices(n)] = d[1 + n:]
                want.T[np.triu_indices(n)] = d[1 + n:]
            if not R.expect(same(got[i], want), 'extract/' + key, lambda: '%s at %s of %s is %r instead of %r' % (key, i, c.name, got[i], want)):
                break
        # a copy: does not follow, does not change the jets
        if np.size(got) and key != 'f':
            got = np.array(got)
            got.fill(3.0)
    for i in np.ndindex(*shape):
        R.expect(same(raw(a[i]), keep[i]), 'extract/source', 'extraction changed an element')
    # what was extracted stays when the jets change
    x = jet_of(r, c, n)
    d = raw(x)
    g, h, f = hj.d(x), hj.dd(x), hj.f(x)
    x.data[:] = 42.0
    R.expect(same(f, d[0]) and same(g, d[1:1 + n]) and (c.order == 1 or n == 0 or same(h[0, 0], d[1 + n])), 'extract/later', 'what was extracted follows later changes of the jet')


def numbers(r):
    shape = r.choice(SHAPES)
    k = r.randrange(4)
    if k == 0:
        a = np.array([value(r) for _ in range(int(np.prod(shape)))]).reshape(shape)
    elif k == 1:
        a = np.array([r.randrange(-9, 9) for _ in range(int(np.prod(shape)))], dtype=int).reshape(shape)
    elif k == 2:
        a = fill(shape, lambda: r.choice([1, 2.5, np.float64(0.1), np.int64(3), True, np.float32(0.5)]))
    else:
        a = fill(shape, lambda: r.uniform(-2, 2))
    arg = a if r.random() < 0.5 or shape == () else a.tolist()
    if shape == () and r.random() < 0.7:
        arg = a.item()
    for key, fn in (('f', hj.f), ('d', hj.d), ('dd', hj.dd)):
        got = extract(r, None, fn, arg, shape, 0, key, 'numbers')
        R.count('numbers_%s' % key)
        if key == 'f' and got is not None:
            R.expect(same(got, np.array(a, dtype=float)), 'extract/f/numbers', lambda: 'f of %r is %r' % (arg, got))


def mixed(r, c):
    """f of arrays that hold jets and numbers of several types"""
    n = c.size(r)
    shape = r.choice([s for s in SHAPES if s and int(np.prod(s)) > 1])
    a = fill(shape, lambda: jet_of(r, c, n) if r.random() < 0.5 else r.choice([0, 1, True, 0.1, 1 / 3, np.float64(0.7), np.int64(-3), -2.5, 2 ** 40]))
    k = r.randrange(3)
    if k == 0:
        a[(0,) * len(shape)] = 0
    elif k == 1:
        a[(0,) * len(shape)] = jet_of(r, c, n)
    want = np.zeros(shape)
    for i in np.ndindex(*shape):
        want[i] = a[i].f if isinstance(a[i], c.T) else float(a[i])
    got = extract(r, c, hj.f, a if r.random() < 0.6 else a.tolist(), shape, n, 'f', 'jets')
    R.count('mixed')
    if got is not None:
        R.expect(same(got, want), 'extract/f/mixed', lambda: 'f of %r is %r instead of %r' % (a.tolist(), got.tolist(), want.tolist()))
    # jets of several classes and sparse jets have values too
    b = [c.make([0.25] + [1.0] * (c.length(n) - 1)), hj.D2Scalar(1.5), hj.SScalar(2.5, {'x': 1.0}), 4, 0.1]
    r.shuffle(b)
    want = [v.f if hasattr(v, 'f') else float(v) for v in b]
    R.expect(same(hj.f(b), want), 'extract/f/classes', lambda: 'f of %r is %r' % (b, hj.f(b)))


def run():
    for i, n in enumerate(list(range(0, 41)) + [64, 100]):
        if R.mine(i):
            for k in range(R.n(8)):
                R.case('variables/%d/%d' % (n, k), seeding, n)
    for k in range(R.n(4)):
        R.case('refused/%d.%d' % (R.shard, k), refused)
    for k in range(R.n(60)):
        R.case('numbers/%d.%d' % (R.shard, k), numbers)
    for c in classes():
        if c.T is None:
            R.violation('missing/' + c.name, 'the module has no class ' + c.name)
            continue
        for k in range(R.n(16 if c.n is not None else 60)):
            R.case('jets/%s/%d' % (c.name, k), jets, c)
            R.case('mixed/%s/%d' % (c.name, k), mixed, c)


main(run)
