"""C19: properties and views of dense jets in Python against a shadow of the data."""
import copy
import gc
import pickle
import random
from hv import *  # noqa: F401,F403


class Holder:
    """a jet and the data it has to have; jet is None once its name is gone"""

    def __init__(self, c, jet, data):
        self.c, self.jet, self.data = c, jet, list(data)
        self.views = []

    @property
    def n(self):
        return len(self.data) - 1 if self.c.order == 1 else (math.isqrt(1 + 8 * len(self.data)) - 3) // 2

    def pos(self, i, j):
        i, j = min(i, j), max(i, j)
        n = self.n
        return 1 + n + i * n - i * (i - 1) // 2 + (j - i)


class View:
    """an array that shows data[lo:hi] of a holder"""

    def __init__(self, arr, h, lo, hi, step=1):
        self.arr, self.h, self.lo, self.hi, self.step = arr, h, lo, hi, step

    def want(self):
        return self.h.data[self.lo:self.hi:self.step]


VALUES = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 5e-324, 1e308, 0.1]


def value(r):
    return r.choice(VALUES) if r.random() < 0.25 else r.uniform(-3, 3)


def verify(r, h, key):
    """all accessors of a jet, in random order, against the shadow"""
    c, x, d = h.c, h.jet, h.data
    n = h.n
    if x is not None:
        R.evals += 1
        want = np.array(d)
        checks = ['f', 'g', 'data', 'size']
        if c.order == 2:
            checks += ['h', 'hm', 'zeros']
        r.shuffle(checks)
        for k in checks:
            if k == 'f':
                ok = type(x.f) is float and same([x.f], d[:1])
                got = x.f
            elif k == 'g':
                got = x.g
                ok = isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == (n,) and same(got, want[1:1 + n]) and got.flags.writeable
            elif k == 'data':
                got = x.data
                ok = isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == (len(d),) and same(got, want) and got.flags.writeable
            elif k == 'size':
                got = (x.size, len(x))
                ok = got == (n, n)
            elif k == 'h':
                got, ok = None, True
                for _ in range(min(4, n)):
                    i, j = r.randrange(n), r.randrange(n)
                    got = x.h(i, j) if r.random() < 0.8 else x.h(row=i, col=j)
                    ok = ok and type(got) is float and same([got], [d[h.pos(i, j)]])
            else:
                got = r.choice([lambda: x.hm(), lambda: x.hm('full'), lambda: x.hm(mode='full')])() if k == 'hm' else x.hm('zeros')
                m = np.zeros((n, n))
                m[np.triu_indices(n)] = want[1 + n:]
                if k == 'hm':
                    m.T[np.triu_indices(n)] = want[1 + n:]
                ok = got.shape == (n, n) and same(got, m)
                got.fill(77.0)  # a copy
            if not ok:
                R.violation(key + '/' + k, '%s of %s is %r, the data written was %r' % (k, c.name, got, d))
                raise Done
    for v in h.views:
        R.count('views_checked')
        if not same(v.arr, v.want()):
            R.violation(key + '/view', 'a view of %s (owner %s) shows %r instead of %r' % (c.name, 'alive' if x is not None else 'gone', v.arr.tolist(), v.want()))
            raise Done


def matrix_forms(r, n):
    m = np.array([[value(r) for _ in range(n)] for _ in range(n)]).reshape(n, n)
    k = r.randrange(6)
    R.count('matrix_form_%d' % k)
    if k == 0:
        return m, m
    if k == 1:
        return m, np.asfortranarray(m)
    if k == 2 and n > 1:
        return m, m.tolist()
    if k == 3:
        big = np.zeros((2 * n, 3 * n))
        v = big[::2, ::3]
        v[:] = m
        return m, v
    if k == 4:
        m = np.array([[r.randrange(-5, 5) for _ in range(n)] for _ in range(n)], dtype=np.int64).reshape(n, n)
        return m.astype(float), m
    return m, m.T.copy().T


def new_holder(r, c):
    n = c.size(r)
    d = [value(r) for _ in range(c.length(n))]
    return Holder(c, c.make(d), d)


RESULTS = {
    '+x': lambda c, x, n: x + x, '-': lambda c, x, n: -x, '*2': lambda c, x, n: x * 2.0, 'abs': lambda c, x, n: abs(x), 'm abs': lambda c, x, n: x.abs(), 'np abs': lambda c, x, n: np.abs(x),
    'sin': lambda c, x, n: x.sin(), '-1': lambda c, x, n: x - 1.0, '**1': lambda c, x, n: x ** 1, '**1.0': lambda c, x, n: x ** 1.0, '**0': lambda c, x, n: x ** 0, '*1': lambda c, x, n: x * 1.0, '1*': lambda c, x, n: 1.0 * x,
    '/1': lambda c, x, n: x / 1.0, '+0': lambda c, x, n: x + 0.0, '0+': lambda c, x, n: 0.0 + x, '-0': lambda c, x, n: x - 0.0, 'int *1': lambda c, x, n: x * 1, 'sum': lambda c, x, n: sum([x]), 'np.sum': lambda c, x, n: np.sum(np.array([x, x])),
    'copy': lambda c, x, n: copy.copy(x), 'deepcopy': lambda c, x, n: copy.deepcopy(x), 'data': lambda c, x, n: c.T(x.data), 'hypot': lambda c, x, n: hj.hypot(x, x), 'atan2': lambda c, x, n: x.atan2(x),
    'pad_right': lambda c, x, n: x.pad_right(n) if c.n is None else None, 'pad_left': lambda c, x, n: x.pad_left(n) if c.n is None else None,
    'parts': lambda c, x, n: c.T(x.f, x.g) if c.order == 1 else c.T(x.f, x.g, x.hm()), 'zero': lambda c, x, n: c.T.zero(n), 'constant': lambda c, x, n: c.T.constant(2.0, n),
    'variable': lambda c, x, n: c.T.variable(0, 2.0, n) if n else None, 'variables': lambda c, x, n: c.T.variables([1.0] * n)[-1] if n else None, 'pos zero': lambda c, x, n: c.T(0.0) if c.n is not None else None,
    'multiply': lambda c, x, n: np.multiply(x, 1.0), 'maximum': lambda c, x, n: np.square(x), 'empty*0': lambda c, x, n: c.T.empty(n) * 0.0 if n else None,
}


FUNCTIONS = ['sqrt', 'cbrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'log', 'log2', 'log10', 'reciprocal', 'abs']


def asked(r, c, x, o, n):
    """what a jet answers: depends on what it holds now, not on what was asked or written before"""
    vs = [0.25 * k for k in range(n)]
    out = []
    for k in r.sample(range(14), 5):
        if k == 0:
            q = [repr(x), str(x)]
        elif k == 1:
            q = [x.eval(vs)]
        elif k == 2:
            q = [x == o, x != o, x < o, x <= o, x > o, x >= o, x == 1.0, x < 0.0, 1.0 >= x]
        elif k == 3:
            q = [x * o, o * x]
        elif k == 4:
            q = [x / o, o / x]
        elif k == 5:
            q = [x + o, x - o, o - x]
        elif k in (6, 7, 8):
            f = r.choice(FUNCTIONS)
            q = [getattr(x, f)()]
        elif k == 9:
            q = [x ** 2, x ** 0.5, x ** -1, x ** 3]
        elif k == 10:
            q = [x.hypot(o), x.atan2(o), o.atan2(x), hj.hypot(x, o, x)]
        elif k == 11:
            q = [copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x))]
        elif k == 12:
            q = [2.0 / x, 1 - x, x * 0.5, -x]
        else:
            q = [hj.f(x), hj.d(x)] + ([hj.dd(x)] if c.order == 2 else [])
        for z in q:
            out.append(raw(z).tolist() if isinstance(z, c.T) else np.asarray(z).tolist() if isinstance(z, (float, np.ndarray)) else z)
    return out


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return same([a], [b])
    return type(a) is type(b) and a == b


def history(r, c):
    pool = [new_holder(r, c) for _ in range(3)]
    gone = []
    for stepno in range(24):
        h = r.choice(pool)
        x, n = h.jet, h.n
        op = r.choice(['f', 'g', 'data', 'h', 'hm', 'view_g', 'view_data', 'slice', 'write', 'write', 'iop', 'iop_scalar', 'drop', 'rebind', 'copy', 'from', 'result', 'resize', 'npout', 'reads', 'asked', 'asked'])
        R.step('%d %s on %d of %s' % (stepno, op, n, c.name))
        if op == 'f':
            v = value(r)
            x.f = v
            h.data[0] = v
        elif op == 'g' and n:
            i, v = r.randrange(n), value(r)
            if r.random() < 0.5:
                x.g[i] = v
                h.data[1 + i] = v
            else:
                vs = [value(r) for _ in range(n)]
                x.g[:] = vs
                h.data[1:1 + n] = vs
        elif op == 'data':
            if r.random() < 0.5:
                i, v = r.randrange(len(h.data)), value(r)
                x.data[i] = v
                h.data[i] = v
            else:
                vs = [value(r) for _ in h.data]
                x.data[:] = vs
                h.data[:] = vs
        elif op == 'h' and n and c.order == 2:
            i, j, v = r.randrange(n), r.randrange(n), value(r)
            if r.random() < 0.7:
                x.set_h(i, j, v)
            else:
                x.set_h(value=v, row=i, col=j)
            h.data[h.pos(i, j)] = v
        elif op == 'hm' and c.order == 2:
            m, arg = matrix_forms(r, n)
            keep = np.array(arg, copy=True)
            if r.random() < 0.8:
                x.set_hm(arg)
            else:
                x.set_hm(value=arg)
            h.data[1 + n:] = m[np.triu_indices(n)].tolist()
            R.expect(same(keep, np.array(arg)), 'set_hm/argument', 'set_hm changed its argument')
        elif op in ('view_g', 'view_data'):
            a = x.g if op == 'view_g' else x.data
            h.views.append(View(a, h, 1, 1 + n) if op == 'view_g' else View(a, h, 0, len(h.data)))
        elif op == 'slice' and (h.views or n):
            if not h.views:
                h.views.append(View(x.data, h, 0, len(h.data)))
            v = r.choice(h.views)
            if v.step == 1 and v.hi - v.lo > 1:
                lo = r.randrange(v.hi - v.lo)
                st = r.choice([1, 2])
                h.views.append(View(v.arr[lo::st], h, v.lo + lo, v.hi, st))
        elif op == 'write':
            cand = [(o, v) for o in pool + gone for v in o.views if len(v.want())]
            if cand:
                o, v = r.choice(cand)
                R.count('view_writes' if o.jet is not None else 'view_writes_without_owner')
                k = r.randrange(4)
                w = v.want()
                if k == 0:
                    i, q = r.randrange(len(w)), value(r)
                    v.arr[i] = q
                    w[i] = q
                elif k == 1:
                    w = [value(r) for _ in w]
                    v.arr[:] = w
                elif k == 2:
                    v.arr *= 2
                    w = [q * 2 for q in w]
                else:
                    q = value(r)
                    v.arr.fill(q)
                    w = [q] * len(w)
                o.data[v.lo:v.hi:v.step] = w
        elif op in ('iop', 'iop_scalar'):
            # the values are judged by C17; here the jet, its views and its copies have to agree
            o = r.choice([q for q in pool if q.n == n])
            arg = o.jet if op == 'iop' else r.choice([2.0, -0.5, 3])
            twin = c.make(h.data)
            targ = (twin if o is h else o.jet) if op == 'iop' else arg
            kind = r.choice(['+', '-', '*', '/'] if op == 'iop' else ['*', '/'])
            y, before = x, id(x)
            if kind == '+':
                x += arg
                twin += targ
            elif kind == '-':
                x -= arg
                twin -= targ
            elif kind == '*':
                x *= arg
                twin *= targ
            else:
                x /= arg
                twin /= targ
            R.expect(id(x) == before and x is y, 'inplace/identity', kind)
            h.data = raw(twin).tolist()
            R.count('inplace')
        elif op == 'drop':
            h.jet = None
            x = y = None
            pool.remove(h)
            if h.views:
                gone.append(h)
                R.count('owners_dropped')
            if r.random() < 0.5:
                gc.collect()
            pool.append(new_holder(r, c))
            junk = [c.make([1e99] * len(h.data)) for _ in range(8)]
            del junk
        elif op == 'rebind':
            x = x + 0.0 if r.random() < 0.5 else c.make(h.data)
            pool.append(Holder(c, x, raw(x).tolist()))
            pool = pool[-5:] if len(pool) > 5 else pool
        elif op == 'copy':
            a = np.array(x.data)
            a.fill(5.0)
            np.array(x.g).fill(6.0)
        elif op == 'from':
            d = np.array(h.data)
            y = c.T(d) if r.random() < 0.5 else c.T(data=x.data)
            d.fill(-7.0)
            pool[r.randrange(len(pool))] = Holder(c, y, h.data)
            if h not in pool:
                gone.append(h)
                h.jet = None
        elif op == 'result':
            form = r.choice(sorted(RESULTS))
            R.step('%d result %s of %s' % (stepno, form, c.name))
            made = [RESULTS[form](c, x, n) for _ in range(2)]
            made = [q for q in made if q is not None]
            if made:
                R.count('results')
                y, y2 = made
                R.expect(y is not x and y2 is not x and y is not y2, 'result/' + form, 'gives an object that exists')
                R.expect(not any(np.shares_memory(p.data, q.data) for p, q in ((x, y), (x, y2), (y, y2))), 'result_memory/' + form, 'shares memory')
                d2 = raw(y2).tolist()
                y.data[:] = 5.0
                y.f = 1.0
                if r.random() < 0.5:
                    pool.append(Holder(c, y2, d2))
                    pool = pool[-5:] if len(pool) > 5 else pool
                    if h not in pool and h.views:
                        gone.append(h)
                else:
                    R.expect(same(raw(y2), np.array(d2)), 'result_twice/' + form, 'changing one result changed another')
                y = y2 = made = None
        elif op == 'resize' and c.n is None and not h.views:
            m = c.size(r)
            x.resize(m)
            R.count('resized')
            R.expect(x.size == m == len(x) and len(x.data) == c.length(m) and len(x.g) == m, 'resize/size', 'resize(%d): size %r, %d data' % (m, x.size, len(x.data)))
            new = [value(r) for _ in range(c.length(m))]
            x.data[:] = new
            h.data = new
        elif op == 'npout' and n:
            np.multiply(x.g, 3.0, out=x.g)
            h.data[1:1 + n] = [3.0 * q for q in h.data[1:1 + n]]
        elif op == 'asked':
            o = r.choice([q for q in pool if q.n == n])
            seed = r.random()
            got = asked(random.Random(seed), c, x, o.jet, n)
            fresh = c.make(h.data)
            want = asked(random.Random(seed), c, fresh, fresh if o is h else c.make(o.data), n)
            R.evals += len(got)
            R.count('answers', len(got))
            R.expect(equal(got, want), 'asked', '%s after its history answers %r, a new jet with the same data %r' % (c.name, got, want))
        elif op == 'reads':
            repr(x), x == x, x < 1.0, x.eval([0.0] * n), x.size
        else:
            continue
        x = y = None
        R.count('op_' + op)
        for o in pool:
            verify(r, o, op)
        for o in gone:
            verify(r, o, op + '/gone')
        R.seen((c.name, op, tuple(h.data)))
    if r.random() < 0.02:
        R.sample('%s: %s, %d views' % (c.name, h.data[:6], len(h.views)))


def readonly(r, c):
    """what has no setter refuses to be set and leaves the jet alone"""
    h = new_holder(r, c)
    n = h.n
    for name, v in (('size', n + 1), ('g', np.zeros(n)), ('data', np.zeros(len(h.data)))):
        try:
            setattr(h.jet, name, v)
            if name == 'size':
                R.violation('readonly/' + name, 'size of %s could be assigned' % c.name)
            elif name == 'g':
                h.data[1:1 + n] = [0.0] * n
            else:
                h.data = [0.0] * len(h.data)
        except AttributeError:
            pass
    R.count('readonly')
    verify(r, h, 'readonly')


def run():
    for c in classes():
        if c.T is None:
            R.violation('missing/' + c.name, 'the module has no class ' + c.name)
            continue
        for k in range(R.n(20 if c.n is not None else 120)):
            R.case('%s/history/%d' % (c.name, k), history, c)
        R.case('%s/readonly' % c.name, readonly, c)


main(run)
