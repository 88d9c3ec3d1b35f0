"""C21: every callable of the module with hostile arguments, under AddressSanitizer
and UBSan with every Python object on the sanitized heap; allocation failures;
growth of the heap under repetition."""
import fractions
import gc
import signal

from hv import *  # noqa: F401,F403

MB = 1 << 20
_lib = ctypes.CDLL(hj.__file__)
_lib.hv_fail_after.argtypes = [ctypes.c_long, ctypes.c_size_t]
_lib.hv_limit.argtypes = [ctypes.c_size_t]
_lib.hv_large_allocations.restype = ctypes.c_ulong


class Boom(Exception):
    pass


class BadFloat:
    def __float__(self):
        raise Boom


class BadIndex:
    def __index__(self):
        raise Boom


class BadSeq:
    """says it has more elements than it yields"""

    def __init__(self, n, k):
        self.n, self.k = n, k

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.k:
            raise IndexError(i)
        return 0.5


class Growing(list):
    """a list that changes its length while its elements are converted"""

    class El:
        def __init__(self, owner):
            self.owner = owner

        def __float__(self):
            self.owner.clear()
            return 1.0


class Flt:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


class Idx:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class Arr:
    def __array__(self, dtype=None, copy=None):
        raise Boom


def mutating(r, jet_, how):
    """a number whose conversion changes a jet that takes part in the call"""
    class M:
        def __float__(self):
            how(jet_)
            return 0.5

        def __index__(self):
            how(jet_)
            return 1
    return M()


INTS = [0, 1, -1, 2, 3, 4, 5, 16, 17, 100, -2, -5, 255, 1000, 46340, 46341, 65535, 65536, 2**31 - 1, 2**31, 2**32, 3037000499, 4294967294, 2**62, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 10**400, -10**400, True, False]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 2.5, 1e-300, 5e-324, 1e308, -1e308, math.inf, -math.inf, math.nan, 2.0**53, 2.0**63, -2.0**63, 1e20]
NAMES = ['', 'x', 'full', 'lower', 'upper', 'LOWER', 'full\0', 'zeros', 'x' * 5000, 'ä', '\ud800', '日本']


def number(r):
    k = r.randrange(8)
    if k < 3:
        return r.choice(INTS)
    if k < 6:
        return r.choice(FLOATS)
    return r.choice([np.float32(1.5), np.float64(-2), np.int8(-3), np.int64(2**63 - 1), np.uint64(2**64 - 1), np.int64(-2**63), np.uint8(200), np.bool_(True), 1 + 2j, np.complex128(1), fractions.Fraction(1, 3), np.float16(1), np.datetime64('2020'), np.array(3), np.array(2.5), np.array([7]), np.array([[1.5]])])


def length_of(r, n, big=False):
    """lengths around the meaningful ones"""
    k = [0, 1, n, n, n, 1 + n, 1 + n, (n + 1) * (n + 2) // 2, (n + 1) * (n + 2) // 2, n - 1, n + 1, (n + 1) * (n + 2) // 2 - 1, (n + 1) * (n + 2) // 2 + 1, n * n, 2, 3, 6, 10, 40]
    return max(0, r.choice(k))


def array(r, n, big=False):
    k = r.randrange(20)
    m = length_of(r, n)
    if k < 4:
        return np.array([r.uniform(-2, 2) for _ in range(m)])
    if k == 4:
        return np.arange(3 * m, dtype=float)[::3]
    if k == 5:
        return np.arange(m, dtype=float)[::-1]
    if k == 6:
        return np.full(m, r.choice(FLOATS))
    if k == 7:
        a = np.ones((n, n)) * r.choice([1.0, math.nan, 2.0])
        return np.asfortranarray(a) if r.random() < 0.5 else a
    if k == 8:
        return np.ones(tuple(r.choice([0, 1, 2, n, n + 1]) for _ in range(r.choice([2, 2, 2, 3, 4]))))
    if k == 9:
        return np.ones((m, 2))[:, 0]
    if k == 10:
        return np.broadcast_to(np.float64(r.choice([0.0, 1.0, math.inf])), (m,) if r.random() < 0.5 else (n, n))
    if k == 11:
        a = np.ones(m)
        a.flags.writeable = False
        return a
    if k == 12:
        return np.ones(m, dtype=r.choice(['i1', 'u8', 'f2', 'f4', '>f8', 'c16', '?', 'O', 'S3', 'U2', 'm8[s]']))
    if k == 13:
        return np.array([None, 'a', 1.0], dtype=object)
    if k == 14:
        return np.zeros(m, dtype=[('a', 'f8'), ('b', 'i4')])
    if k == 15 and big:
        return np.broadcast_to(np.float64(0.25), (r.choice([300000, 600000]),))
    if k == 16:
        return np.ma.masked_array(np.ones(m), mask=[i % 2 for i in range(m)])
    if k == 17:
        # (a misaligned array is undefined behaviour in pybind11's caster to Eigen::Ref)
        return np.frombuffer(bytearray(8 * m), dtype=np.float64) if m else np.empty(0)
    if k == 18:
        return np.ones((n, n))[::-1, ::-1]
    return np.triu(np.ones((n, n))).T


def sequence(r, n):
    k = r.randrange(18)
    m = length_of(r, n)
    if k < 5:
        return [r.uniform(-2, 2) for _ in range(m)]
    if k == 5:
        return tuple(r.choice(FLOATS) for _ in range(m))
    if k == 6:
        return [r.choice(INTS) for _ in range(m)]
    if k == 7:
        return [[1.0] * m for _ in range(r.choice([m, n, 1]))]
    if k == 8:
        return (float(i) for i in range(m))
    if k == 9:
        return {float(i) for i in range(m)}
    if k == 10:
        return {r.choice(['x', 'y', 'z', 1, None, '', 2.5, '\ud800']): r.choice([1.0, 2, 'a', None, math.nan]) for _ in range(min(m, 4))}
    if k == 11:
        return [1.0] * m + [r.choice([None, 'a', [], BadFloat(), 10**400])]
    if k == 12:
        return BadSeq(m, r.randrange(m + 2))
    if k == 13:
        g = Growing()
        g.extend([1.0] * m)
        g[0:0] = [Growing.El(g)]
        return g
    if k == 14:
        return [Flt(0.5)] * m
    if k == 15:
        return range(m)
    if k == 16:
        return r.choice(['', '12', b'', b'abcd', bytearray(8), memoryview(b'12345678').cast('d')])
    return [np.float64(1)] * m


def thing(r):
    return r.choice([None, object(), int, hj, Boom, BadFloat(), BadIndex(), Flt(2.5), Flt(math.nan), Idx(3), Idx(-1), Idx(2**63), Idx(2**31), Arr(), lambda: 0, ..., NotImplemented, slice(0, 2), b'x', 'x', [], {}, (), set()])


def clsname(c):
    return c.name if isinstance(c, Cls) else 'SScalar'


# ------------------------------------------------------------------ state

class Pool:
    """properly constructed jets with copies of their data"""

    def __init__(self, r, c):
        self.r, self.c = r, c
        self.jets = []
        self.refresh()

    def fresh(self):
        r, c = self.r, self.c
        if c is None:
            return sparse(r)
        n = c.n if c.n is not None else r.choice([0, 1, 2, 2, 3, 3, 5, 8])
        d = [r.choice(FLOATS) if r.random() < 0.1 else r.uniform(-2, 2) for _ in range(c.length(n))]
        k = r.randrange(6)
        if k == 0 and n:
            return c.T.variable(r.randrange(n), d[0], n)
        if k == 1:
            return c.T.constant(d[0], n)
        return c.make(d)

    def refresh(self):
        self.jets = [self.fresh() for _ in range(4)]
        if self.c is not None and self.c.n is None and self.r.random() < 0.7:
            # jets of the same size
            n = self.jets[0].size
            self.jets[1] = self.c.make([self.r.uniform(-2, 2) for _ in range(self.c.length(n))])
        others = [k for k in (hj.DScalar(2.5), hj.DDScalar(1.5), hj.D2Scalar([1, 2, 3]), hj.DD2Scalar([1, 2, 3, 4, 5, 6]), hj.SScalar.variable('x', 2)) if self.c is None or type(k) is not self.c.T]
        self.foreign = [self.r.choice(others), self.r.choice(others)]
        self.keep = [snapshot(x) for x in self.jets + self.foreign]

    def check(self, key, detail, target=None):
        for x, q in zip(self.jets + self.foreign, self.keep):
            if x is target:
                continue
            if snapshot(x) != q:
                R.violation(key + '/unchanged', 'an operand was changed to %s: %s' % (show(x), detail()))
                raise Done
        self.keep = [snapshot(x) for x in self.jets + self.foreign]


def sparse(r):
    return hj.SScalar(r.uniform(-2, 2), {n: r.uniform(-2, 2) for n in r.sample(['x', 'y', 'z', 'u_1', 'ä'], r.randrange(5))})


def snapshot(x):
    if isinstance(x, hj.SScalar):
        return ('s', np.float64(x.f).tobytes(), x.size, tuple(np.float64(x.d(n)).tobytes() for n in ('x', 'y', 'z', 'u_1', 'ä')))
    return (x.size, raw(x).tobytes())


DENSE = {c.T: c for c in CLASSES if c.T is not None}


def wellformed(v, key, detail, depth=0):
    """the result can be used: sizes, lengths and shapes agree and everything can be read"""
    c = DENSE.get(type(v))
    if c is not None:
        n = v.size
        d = raw(v)
        ok = isinstance(n, int) and n >= 0 and (c.n is None or n == c.n) and len(v) == n and len(d) == c.length(n) and v.g.shape == (n,) and d.dtype == np.float64
        ok = ok and np.float64(v.f).tobytes() == d[:1].tobytes() and isinstance(repr(v), str)
        if ok and c.order == 2 and n <= 64:
            ok = v.hm().shape == (n, n)
        if ok:
            s = float(np.sum(d))
            ok = s == s or s != s
        if not ok:
            R.violation(key + '/malformed', 'class %s size %r len %r data %s: %s' % (c.name, n, len(v), d.shape, detail()))
            raise Done
        R.count('results_dense')
    elif isinstance(v, hj.SScalar):
        t = repr(v)
        if len(v) != v.size or v.size < 0 or not isinstance(t, str):
            R.violation(key + '/malformed', 'size %r len %r: %s' % (v.size, len(v), detail()))
            raise Done
        R.count('results_sparse')
    elif isinstance(v, np.ndarray):
        if v.dtype == object:
            for e in v.ravel()[:50]:
                wellformed(e, key, detail, depth + 1)
        else:
            np.array(v).tobytes()
        R.count('results_array')
    elif isinstance(v, (list, tuple)) and depth < 4:
        for e in v[:50]:
            wellformed(e, key, detail, depth + 1)
    elif isinstance(v, (float, int, str, bool)) or v is None or v is NotImplemented:
        R.count('results_plain')
    else:
        R.count('results_other')


# ------------------------------------------------------------------ calls

SKIP = {'__doc__', '__module__', '__init__', '__setstate__', '__dict__', '__hash__', '__new__', '_pybind11_conduit_v1_'}
MUTATORS = {'set_h', 'set_hm', 'resize', '__iadd__', '__isub__', '__imul__', '__itruediv__'}
OPS2 = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '**': lambda a, b: a ** b, '<': lambda a, b: a < b, '==': lambda a, b: a == b, '>=': lambda a, b: a >= b, '!=': lambda a, b: a != b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b}
KW = ['f', 'g', 'hm', 'size', 'data', 'd', 'i', 'values', 'row', 'col', 'value', 'mode', 'new_size', 'base', 'name', 'variable', 'order', 'memodict', 'nonsense']
NUMPYF = [np.sin, np.sqrt, np.abs, np.exp, np.sum, np.dot, np.add, np.multiply, np.arctan2, np.hypot, np.isnan, np.linalg.norm, np.cross, np.sort, np.asarray, np.isfinite, np.floor]


def pick_argument(r, pool, n, allow_big):
    k = r.random()
    if k < 0.25:
        return r.choice(pool.jets)
    if k < 0.30:
        return r.choice(pool.foreign)
    if k < 0.55:
        return number(r)
    if k < 0.68:
        return sequence(r, n)
    if k < 0.86:
        return array(r, n, allow_big)
    if k < 0.93:
        return r.choice(NAMES)
    return thing(r)


def describe(a):
    try:
        if isinstance(a, np.ndarray):
            return 'array(%s %s strides %s)%s' % (a.dtype, a.shape, a.strides, a.ravel()[:8].tolist() if a.dtype != object else '')
        if type(a) in DENSE or isinstance(a, hj.SScalar):
            return show(a)
        return ('%r' % (a,))[:120]
    except Exception as e:
        return '<%s>' % type(a).__name__


def attempt(f, args, kw, key, detail, target=None, pool=None):
    """one call: a well-formed result or an exception with everything unchanged"""
    R.evals += 1
    try:
        v = f(*args, **kw)
    except SystemError as e:
        R.violation(key + '/system_error', '%s: %s' % (e, detail()))
        raise Done
    except Exception as e:
        R.count('raised')
        R.count('raised_' + type(e).__name__)
        if pool is not None:
            pool.check(key + '/raised', detail)
        return None
    R.count('returned')
    wellformed(v, key, detail)
    if target is not None:
        wellformed(target, key + '/target', detail)
    if pool is not None:
        pool.check(key, detail, target)
    return v


def member_names(T):
    return [k for k in sorted(T.__dict__) if k not in SKIP]


def valid_arguments(r, c, name, x):
    """arguments of the right kind, with hostile values"""
    n = x.size

    def size():
        return r.choice(INTS) if r.random() < 0.7 else n

    def num():
        return r.choice(FLOATS)

    def idx():
        return r.choice([0, n - 1, n, -1, n + 1, 1, 2**31, 2**63 - 1, -2**63, r.choice(INTS)])

    def vec(m=None):
        m = m if m is not None else r.choice([n, n, n - 1 if n else 0, n + 1, 0, 1])
        return r.choice([lambda: np.array([r.uniform(-1, 1)] * m), lambda: [r.choice(FLOATS) for _ in range(m)], lambda: np.arange(2 * m, dtype=float)[::2]])()

    def mat():
        s = r.choice([(n, n), (n, n), (n, n + 1), (n + 1, n), (n + 1, n + 1), (0, 0), (n * n, 1), (1, 1), (n, 1)])
        return np.asfortranarray(np.full(s, r.choice(FLOATS)))
    table = {
        'constant': lambda: [num(), size()] if r.random() < 0.7 else [num()],
        'empty': lambda: [size()] if r.random() < 0.8 else [],
        'zero': lambda: [size()] if r.random() < 0.8 else [],
        'variable': lambda: [idx(), num(), size()] if r.random() < 0.7 else [idx(), num()],
        'variables': lambda: [[num() for _ in range(r.choice([n, n, n + 1, max(n - 1, 0), 0, 30]))]],
        'h': lambda: [idx(), idx()],
        'set_h': lambda: [idx(), idx(), num()],
        'hm': lambda: [r.choice(NAMES)],
        'set_hm': lambda: [mat()],
        'resize': lambda: [size()],
        'pad_left': lambda: [size()],
        'pad_right': lambda: [size()],
        'eval': lambda: [vec()],
        'log': lambda: [] if r.random() < 0.4 else [num()],
        '__pow__': lambda: [num()],
        '__deepcopy__': lambda: [{}],
        'd': lambda: [r.choice(NAMES)],
    }
    return table[name]() if name in table else None


def call_member(r, c, pool):
    T = hj.SScalar if c is None else c.T
    name = r.choice(member_names(T))
    x = r.choice(pool.jets)
    n = x.size
    attr = T.__dict__[name]
    args = valid_arguments(r, c, name, x) if r.random() < 0.5 else None
    if args is None:
        args = [pick_argument(r, pool, n, name in ('eval', 'set_hm', 'variables')) for _ in range(r.choice([0, 1, 1, 1, 1, 2, 2, 3, 4]))]
    kw = {}
    if args and r.random() < 0.06:
        kw[r.choice(KW)] = args.pop()
    if c is None and name == 'variable' and args and r.random() < 0.5:
        args = [r.choice(NAMES), number(r)]
    key = 'call/%s/%s' % (clsname(c) if c is None or c.n is None else 'static', name)

    def detail():
        return '%s.%s(%s %s) on %s' % (clsname(c), name, ', '.join(describe(a) for a in args), {k: describe(v) for k, v in kw.items()}, describe(x))
    R.step('%s(%s)' % (name, ', '.join(describe(a) for a in args)))
    R.count('member_' + name)
    if isinstance(attr, (staticmethod,)) or name in ('constant', 'empty', 'variable', 'zero', 'variables'):
        f = getattr(T if r.random() < 0.5 else x, name)
        attempt(f, args, kw, key, detail, None, pool)
    elif isinstance(attr, property) or not callable(getattr(x, name)):
        v = attempt(lambda: getattr(x, name), [], {}, key + '/get', detail, None, pool)
        if r.random() < 0.7 and args:
            R.step('%s = %s' % (name, describe(args[0])))
            attempt(setattr, [x, name, args[0]], {}, key + '/set', detail, x, pool)
    else:
        target = x if name in MUTATORS else None
        if r.random() < 0.1 and args:
            # the receiver is something else
            key += '/receiver'
            z = args[0]
            if z is None:
                return  # see none_receiver
            attempt(getattr(T, name), args, kw, key, detail, z if name in MUTATORS else None, pool)
        else:
            attempt(getattr(x, name), args, kw, key, detail, target, pool)


def call_constructor(r, c, pool):
    T = hj.SScalar if c is None else c.T
    x = r.choice(pool.jets)
    n = x.size
    k = r.randrange(5)
    if k == 0 and c is not None:
        args = [r.choice([sequence, array])(r, n)]
    elif k == 1 and c is not None:
        args = [number(r), array(r, n, True)] + ([array(r, n)] if c.order == 2 or r.random() < 0.3 else [])
    elif k == 2:
        args = [r.choice(FLOATS), r.choice(INTS)]
    else:
        args = [pick_argument(r, pool, n, True) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
    kw = {}
    if args and r.random() < 0.15:
        kw[r.choice(KW)] = args.pop()
    R.step('constructor(%s)' % ', '.join(describe(a) for a in args))
    R.count('constructor')
    attempt(T, args, kw, 'construct/' + (clsname(c) if c is None or c.n is None else 'static'), lambda: '%s(%s %s)' % (clsname(c), ', '.join(describe(a) for a in args), {q: describe(v) for q, v in kw.items()}), None, pool)


def call_state(r, c, pool):
    """unpickling of a hostile state into an object that has not been constructed"""
    if c is None:
        return
    x = r.choice(pool.jets)
    n = x.size
    state = r.choice([lambda: (r.choice([sequence, array])(r, n),), lambda: (number(r),), lambda: (), lambda: ([], []), lambda: ([r.uniform(-1, 1)] * length_of(r, n),), lambda: [[1.0]], lambda: None, lambda: thing(r), lambda: ([1.0] * c.length(n),)])()
    y = c.T.__new__(c.T)
    R.count('states')
    R.step('__setstate__(%s)' % describe(state))
    before = R.counters.get('raised', 0)
    attempt(c.T.__setstate__, [y, state], {}, 'state', lambda: '%s %s' % (c.name, describe(state)), None, pool)
    if R.counters.get('raised', 0) == before:
        wellformed(y, 'state', lambda: '%s from state %s' % (c.name, describe(state)))


def call_operator(r, c, pool):
    x = r.choice(pool.jets)
    y = pick_argument(r, pool, x.size, False)
    o = r.choice(sorted(OPS2))
    a, b = (x, y) if r.random() < 0.6 else (y, x)
    R.count('operator_' + o)
    R.step('%s %s %s' % (describe(a), o, describe(b)))

    def detail():
        return '%s %s %s' % (describe(a), o, describe(b))
    attempt(OPS2[o], [a, b], {}, 'operator/' + o, detail, None, pool)


def call_inplace(r, c, pool):
    i = r.randrange(len(pool.jets))
    x = pool.jets[i]
    y = pick_argument(r, pool, x.size, False)
    o = r.choice(['+=', '-=', '*=', '/=', '**='])
    R.count('inplace_' + o)
    R.step('%s %s %s' % (describe(x), o, describe(y)))

    def f():
        z = x
        if o == '+=':
            z += y
        elif o == '-=':
            z -= y
        elif o == '*=':
            z *= y
        elif o == '/=':
            z /= y
        else:
            z **= y
        return z
    attempt(f, [], {}, 'inplace/' + o, lambda: '%s %s %s' % (describe(x), o, describe(y)), x, pool)


def call_module(r, c, pool):
    x = r.choice(pool.jets)
    n = x.size
    k = r.randrange(4)
    if k == 0:
        name = r.choice(['hypot', 'variables', 'f', 'd', 'dd'])
        f = getattr(hj, name)
    else:
        f = r.choice(NUMPYF)
        name = f.__name__
    args = [pick_argument(r, pool, n, False) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    if r.random() < 0.3:
        a = np.empty(r.choice([0, 1, 2, 3]), dtype=object)
        for i in range(len(a)):
            a[i] = r.choice(pool.jets + [1.5, 2]) if r.random() < 0.9 else thing(r)
        args[0] = a
    if name == 'variables':
        args = [r.choice([args[0], sequence(r, n), [1.0] * r.randrange(20)])] + ([r.choice(INTS + [None])] if r.random() < 0.7 else [])
    R.count('module_' + name if k == 0 else 'numpy')
    R.step('%s(%s)' % (name, ', '.join(describe(a) for a in args)))
    attempt(f, args, {}, 'module/' + name, lambda: '%s(%s)' % (name, ', '.join(describe(a) for a in args)), None, pool)


def call_reentrant(r, c, pool):
    """arguments whose conversion changes the very jets that take part in the call"""
    if c is None:
        return
    i = r.randrange(len(pool.jets))
    x = pool.jets[i]
    n = x.size

    def how(j):
        k = r.randrange(3)
        if k == 0 and c.n is None:
            j.resize(r.choice([0, 1, 50]))
        elif k == 1:
            j.f = 3.0
        else:
            j *= 2.0
    m = mutating(r, x, how)
    what = r.choice(['eval', '__add__', '__pow__', 'set_hm', 'set_h', 'h', 'f', 'resize', 'log', '__iadd__', '__imul__'])
    R.count('reentrant')
    R.step('reentrant ' + what)
    args = {'eval': [[m] * max(n, 1)], 'set_h': [m, m, m], 'h': [m, m], 'set_hm': [[[m] * n] * n], 'resize': [m]}.get(what, [m])
    try:
        if what == 'f':
            x.f = m
        elif hasattr(x, what):
            getattr(x, what)(*args)
        R.count('returned')
    except Exception:
        R.count('raised')
    R.evals += 1
    wellformed(x, 'reentrant/' + what, lambda: '%s of a jet that its arguments change' % what)
    pool.check('reentrant/' + what, lambda: what, x)


KINDS = [call_member] * 10 + [call_constructor] * 4 + [call_state] + [call_operator] * 3 + [call_inplace] * 2 + [call_module] * 2 + [call_reentrant]


def one(r, c):
    pool = Pool(r, c)
    for _ in range(40):
        r.choice(KINDS)(r, c, pool)
        for i, x in enumerate(pool.jets):
            if c is not None and x.size > 40:
                pool.jets[i] = pool.fresh()
                pool.keep[i] = snapshot(pool.jets[i])
    R.seen((clsname(c), tuple(pool.keep)))
    if r.random() < 0.002:
        R.sample('%s pool at the end: %s' % (clsname(c), ' '.join(show(x) for x in pool.jets)))


# ------------------------------------------------------------------ must raise

def refused(r, c):
    """calls that have no meaning have to raise and change nothing"""
    n = c.n if c.n is not None else r.choice([0, 1, 2, 3, 5])
    x = c.make([r.uniform(0.2, 0.9) for _ in range(c.length(n))])
    q = snapshot(x)
    bad = r.choice([n + 1, n + 2, 2 * n + 3, max(n - 1, 0) if n else 1])
    calls = {
        'eval': lambda: x.eval([1.0] * bad),
        'constant_negative': lambda: c.T.constant(1.0, r.choice([-1, -2, -2**31, -2**63])),
        'zero_negative': lambda: c.T.zero(r.choice([-1, -2, -2**31, -2**63])),
        'empty_negative': lambda: c.T.empty(r.choice([-1, -2, -2**31, -2**63])),
        'size_fraction': lambda: c.T.zero(1.5),
        'size_huge': lambda: c.T.zero(r.choice([2**62, 2**63 - 1, 2**40])),
        'variable_index': lambda: c.T.variable(r.choice([n, n + 1, -1, 2**62, -2**63]), 1.0, n),
        'create_empty': lambda: c.T([]),
        'g_readonly': lambda: setattr(x, 'g', np.zeros(n)),
        'data_readonly': lambda: setattr(x, 'data', np.zeros(1)),
        'size_readonly': lambda: setattr(x, 'size', 3),
        'f_text': lambda: setattr(x, 'f', 'a'),
        'pow_jet': lambda: x ** x,
        'add_none': lambda: x + None,
        'state': lambda: c.T.__setstate__(c.T.__new__(c.T), r.choice([(), ([],), (1.0,), ([1.0], [1.0]), (None,)])),
    }
    if c.n is not None:
        calls['create'] = lambda: c.T([1.0] * r.choice([c.length(n) + 1, c.length(n) - 1, 2 * c.length(n) + 1, 0]))
        calls['constant_size'] = lambda: c.T.constant(1.0, bad)
        calls['zero_size'] = lambda: c.T.zero(bad)
        calls['variables'] = lambda: c.T.variables([1.0] * bad)
        calls['init_size'] = lambda: c.T(1.0, bad)
    else:
        y = c.make([r.uniform(0.2, 0.9) for _ in range(c.length(bad))])
        qy = snapshot(y)
        calls['variables_none'] = lambda: c.T.variables(None)
        for o in ('+', '-', '*', '/'):
            calls['size_' + o] = lambda o=o: OPS2[o](x, y)
        for o in ('__iadd__', '__isub__', '__imul__', '__itruediv__'):
            calls['size_' + o] = lambda o=o: getattr(x, o)(y)
        for o in ('atan2', 'arctan2', 'hypot'):
            calls['size_' + o] = lambda o=o: getattr(x, o)(y)
        calls['size_hypot3'] = lambda: x.hypot(x, y)
        calls['size_hypot3_second'] = lambda: x.hypot(y, x)
        calls['size_mhypot'] = lambda: hj.hypot(x, y)
        calls['size_mhypot3'] = lambda: hj.hypot(y, x, x)
        calls['resize_negative'] = lambda: x.resize(r.choice([-1, -2, -2**63]))
        calls['resize_huge'] = lambda: x.resize(r.choice([2**62, 2**40, 2**31]))
        calls['pad_huge'] = lambda: x.pad_left(r.choice([2**62, 2**40, 2**63 - 1]))
        if n:
            calls['pad_smaller'] = lambda: x.pad_right(n - 1)
            calls['pad_left_smaller'] = lambda: x.pad_left(r.choice([n - 1, 0, -1]))
        if c.order == 2:
            calls['create_length'] = lambda: c.T([1.0] * r.choice([2, 4, 5, 7, 8, 9, 11]))
    if c.order == 1:
        if c.n is not None:
            calls['gradient'] = lambda: c.T(1.0, np.ones(bad if bad != 1 else bad + 1 + n))
    else:
        for k in range(3):
            calls['h_%d' % k] = lambda: x.h(*r.choice([(n, 0), (0, n), (-1, 0), (0, -1), (n + 1, n + 1), (2**62, 0), (0, -2**63)]))
            calls['set_h_%d' % k] = lambda: x.set_h(*r.choice([(n, 0, 1.0), (0, n, 1.0), (-1, 0, 1.0), (0, -1, 1.0), (2**62, 2**62, 1.0), (-2**63, 0, 1.0)]))
        calls['set_hm'] = lambda: x.set_hm(np.ones(r.choice([(n + 1, n + 1), (n, n + 1), (n + 1, n), (n + 2, n + 2)])))
        calls['mode'] = lambda: x.hm(r.choice(['', 'Full', 'low', 'x', 'full ']))
        calls['arrays'] = lambda: c.T(1.0, np.ones(n), np.ones((n + 1, n + 1)))
        calls['arrays_short'] = lambda: c.T(1.0, np.ones(n + 2), np.ones((n, n)))
    for name, f in calls.items():
        R.evals += 1
        R.count('refusals')
        R.count('refused_' + name)
        R.step(name)
        try:
            v = f()
        except Exception:
            v = None
        else:
            R.violation('refused/' + name, 'returned %s instead of raising: %s of size %d, bad size %d' % (describe(v), c.name, n, bad))
            raise Done
        if snapshot(x) != q or (c.n is None and snapshot(y) != qy):
            R.violation('refused/%s/unchanged' % name, '%s changed an operand to %s' % (name, show(x)))
            raise Done
    wellformed(x + x, 'refused/usable', lambda: c.name)


# ------------------------------------------------------------------ allocation failures

def failing(r, c):
    """every large allocation of an operation on a large dynamic jet fails once"""
    n = r.choice([40, 60, 90]) if c.order == 2 else r.choice([700, 1000, 2000])

    def new():
        return c.make(np.array([r.uniform(0.2, 0.9) for _ in range(c.length(n))]))
    x, y = new(), new()
    z = c.T.zero(2)
    d = raw(x)
    g = raw(x)[1:1 + n]
    hm = np.ones((n, n)) if c.order == 2 else None
    ops = {
        'add': lambda: x + y, 'mul': lambda: x * y, 'div': lambda: x / y, 'sub': lambda: x - y, 'neg': lambda: -x, 'scalar': lambda: 2.0 * x, 'rsub': lambda: 1.0 - x, 'rdiv': lambda: 1.0 / x,
        'sin': lambda: x.sin(), 'sqrt': lambda: x.sqrt(), 'pow': lambda: x ** 2.5, 'hypot': lambda: x.hypot(y), 'hypot3': lambda: hj.hypot(x, y, x), 'atan2': lambda: x.atan2(y), 'abs': lambda: abs(x), 'log': lambda: x.log(2.0),
        'pad_right': lambda: x.pad_right(n + 5), 'pad_left': lambda: x.pad_left(n + 5), 'constant': lambda: c.T.constant(1.5, n), 'zero': lambda: c.T.zero(n), 'variable': lambda: c.T.variable(1, 2.5, n),
        'create': lambda: c.make(d), 'copy': lambda: x.__copy__(), 'deepcopy': lambda: x.__deepcopy__({}), 'repr': lambda: repr(x), 'eval': lambda: x.eval(g), 'eq': lambda: x == y,
        'state': lambda: x.__getstate__(), 'iadd': lambda: x.__iadd__(y), 'imul': lambda: x.__imul__(y), 'idiv': lambda: x.__itruediv__(y), 'resize_up': lambda: z.resize(n), 'resize': lambda: x.resize(n + 3), 'variables': lambda: c.T.variables([1.0] * n) if c.order == 2 and n < 50 else None,
    }
    if c.order == 2:
        ops.update({'hm': lambda: x.hm(), 'set_hm': lambda: x.set_hm(hm), 'arrays': lambda: c.T(1.0, g, hm), 'set_h': lambda: x.set_h(1, 2, 3.0)})
    else:
        ops.update({'gradient': lambda: c.T(1.0, g)})
    name = r.choice(sorted(ops))
    f = ops[name]
    R.step(name)
    R.count('failing_' + name)
    changes = name in ('iadd', 'imul', 'idiv', 'resize', 'resize_up', 'set_hm', 'set_h')
    qx, qy, qz = snapshot(x), snapshot(y), snapshot(z)
    if not changes:
        want = f()
    for k in range(6):
        b = _lib.hv_large_allocations()
        _lib.hv_fail_after(k, 4096)
        try:
            got = f()
            err = None
        except Exception as e:
            got, err = None, e
        finally:
            _lib.hv_fail_after(-1, 4096)
        R.evals += 1
        asked = _lib.hv_large_allocations() - b
        if err is not None:
            R.count('failed_allocations')
            if not isinstance(err, MemoryError):
                R.count('failed_other_' + type(err).__name__)
            if (snapshot(x), snapshot(y), snapshot(z)) != (qx, qy, qz):
                R.violation('failing/%s/unchanged' % name, 'an operand was changed by a failing %s: sizes %d %d' % (name, x.size, len(raw(x))))
                raise Done
            for j in (x, y, z):
                wellformed(j, 'failing/' + name, lambda: name)
        else:
            wellformed(got, 'failing/' + name, lambda: name)
            if asked > k:
                R.violation('failing/%s/ignored' % name, 'the call returned although its allocation %d failed' % k)
                raise Done
            break
    if not changes:
        got = f()
        if isinstance(got, c.T):
            R.expect(snapshot(got) == snapshot(want), 'failing/%s/afterwards' % name, lambda: 'another result after a failed call of %s' % name)


# ------------------------------------------------------------------ leaks

def leaks(r, c):
    """the heap does not grow when a call is repeated"""
    pool = Pool(r, c)
    kind = r.choice([call_member, call_member, call_constructor, call_operator, call_inplace, call_module, call_state])
    # conversions of half the calls fail; the same call every time
    sub = random.Random(r.random())
    s = sub.getstate()

    def again():
        sub.setstate(s)
        e, cc, vv = R.evals, dict(R.counters), R.nviol
        p = pool
        kind(sub, c, p)
        R.evals, R.counters = e, cc
        return vv == R.nviol
    pool.r = r
    size0 = [snapshot(x) for x in pool.jets]
    for _ in range(3):
        if not again():
            return
    if any(x.size > 200 for x in pool.jets):
        return
    def growth(m):
        gc.collect()
        a = allocated()
        for _ in range(m):
            again()
        gc.collect()
        return allocated() - a
    m = 30
    R.evals += 1
    for k in range(4):
        R.count('leak_rounds')
        R.count('leak_calls', m)
        if growth(m) < 16 * m:
            return
    # a leak grows for ever, the caches of the interpreter do not
    m = 200
    grown = []
    R.count('leak_suspects')
    for k in range(8):
        grown.append(growth(m))
        if grown[-1] < 16 * m:
            return
    R.violation('leak/' + kind.__name__, 'the heap grew by %s bytes in rounds of %d calls: %s' % (grown, m, R.buf and bytes(R.buf[:600]).split(b'\0')[0].decode('utf-8', 'replace')))


# ------------------------------------------------------------------ children

def in_child(what, f):
    """(exit status, text) of f in a child process"""
    out = os.path.join(os.path.dirname(R.json or '/tmp/x'), 'child_%s_%d.txt' % (what, os.getpid()))
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
            os.dup2(fd, 1)
            f()
        except Exception:
            pass
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    with open(out, errors='replace') as s:
        text = s.read()
    os.unlink(out)
    return st, text


def view_after_resize(r, c):
    """a view taken before the data of the jet moved"""
    x = c.make([2.5] * c.length(3))
    which = r.choice(['g', 'data'])

    def f():
        v = getattr(x, which)
        x.resize(30)
        float(np.sum(np.array(v)))
    R.evals += 1
    R.count('views_after_resize')
    st, text = in_child('view_' + c.name, f)
    if st:
        R.violation('view_after_resize/' + ('use_after_free' if 'heap-use-after-free' in text else 'other'), '%s of class %s, exit status %d\n%s' % (which, c.name, st, text[:1500]))


def none_receiver(r, c):
    """methods called on the class with None in the place of the jet"""
    T = hj.SScalar if c is None else c.T

    def f():
        for name in names:
            for args in ([None], [None, 1.0], [None, r.choice([T(1.0)])]):
                try:
                    getattr(T, name)(*args)
                except TypeError:
                    pass
                except Exception as e:
                    print(type(e))
    members = [k for k in member_names(T) if callable(getattr(T, k)) and k not in ('constant', 'empty', 'variable', 'zero', 'variables', '__neg__')]
    for names in [[k] for k in members]:
        R.evals += 1
        R.count('none_receivers')
        st, text = in_child('none_' + clsname(c), f)
        if st:
            R.violation('none_receiver/' + ('null_pointer' if 'null pointer' in text else 'other'), '%s.%s(None), exit status %d\n%s' % (clsname(c), names[0], st, text[:1500]))


def run():
    _lib.hv_limit(4 * MB)
    k = -1
    for c in classes() + ([None] if R.mine(0) else []):
        dyn = c is None or c.n is None
        for k in range(R.n(60 if dyn else 14)):
            R.case('%s/fuzz/%d' % (clsname(c), k), one, c)
        if c is not None:
            for k in range(R.n(100 if dyn else 12)):
                R.case('%s/refused/%d' % (c.name, k), refused, c)
        for k in range(R.n(60 if dyn else 12)):
            R.case('%s/leak/%d' % (clsname(c), k), leaks, c)
    for c in CLASSES[:2]:
        for k in range(R.n(60)):
            if R.mine(k):
                R.case('%s/failing/%d' % (c.name, k), failing, c)
    for i, c in enumerate(CLASSES[:2]):
        if R.mine(i):
            for k in range(2):
                R.case('%s/view/%d' % (c.name, k), view_after_resize, c)
    for i, c in enumerate([None] + CLASSES[:6]):
        if R.mine(i):
            R.case('%s/none' % clsname(c), none_receiver, c)


main(run)
