"""Common machinery of the Python monitors: deterministic case generation, a
reference for jets in extended precision with running error bounds, result
checkers and reporting.  The module under test is only used through its public
API."""
import copy
import ctypes
import hashlib
import json
import math
import mmap
import os
import pickle
import random
import sys
import traceback

sys.dont_write_bytecode = True
MODDIR = os.environ['HV_MODULE']
sys.path.insert(0, MODDIR)
import numpy as np  # noqa: E402

np.seterr(all='ignore')
import hyperjet as hj  # noqa: E402

if os.path.dirname(os.path.abspath(hj.__file__)) != os.path.abspath(MODDIR):
    print('wrong module %s' % hj.__file__)
    sys.exit(3)

L = np.longdouble
EPS = L(2) ** -52
TOLC = L(1024)
MAXV = L(np.finfo(float).max) * L(1e-6)
MINV = L(np.finfo(float).tiny) * L(1e6)
CASELEN = 8192


class Done(Exception):
    pass


class Run:
    def __init__(self):
        self.counters, self.distinct, self.samples, self.viols = {}, set(), [], []
        self.nviol = self.evals = 0
        self.perkey = {}
        self.cur = ''
        self.only = None
        self.rng = random.Random(0)

    def init(self, argv):
        o = dict(zip(argv[1::2], argv[2::2]))
        self.seed = int(o.get('--seed', '1'))
        self.thorough = o.get('--tier') == 'thorough'
        self.scale = float(o.get('--scale', '1'))
        self.only = o.get('--only')
        self.json = o.get('--json')
        self.shard = int(os.environ.get('HV_SHARD', '0'))
        self.shards = int(os.environ.get('HV_SHARDS', '1'))
        self.buf = None
        if o.get('--case'):
            with open(o['--case'], 'wb') as s:
                s.write(b'\0' * CASELEN)
            self.casefd = open(o['--case'], 'r+b')
            self.buf = mmap.mmap(self.casefd.fileno(), CASELEN)

    def note(self, t):
        if self.buf is not None:
            b = t.encode('utf-8', 'replace')[:CASELEN - 1]
            self.buf[:len(b) + 1] = b + b'\0'

    def n(self, k):
        return max(1, int(k * self.scale))

    def mine(self, i):
        return i % self.shards == self.shard

    def step(self, what):
        self.note(self.cur + ' :: ' + what)

    def case(self, cid, fn, *args):
        """runs fn(rng, *args) as one case with a generator of its own"""
        if self.nviol >= 40 or (self.only and self.only != cid):
            return
        self.cur = cid
        self.note(cid)
        self.rng = random.Random(int.from_bytes(hashlib.sha256(('%d/%s' % (self.seed, cid)).encode()).digest()[:8], 'big'))
        try:
            fn(self.rng, *args)
        except Done:
            pass
        except Exception as e:
            self.violation('exception/%s/%s' % (cid.split('/')[0], type(e).__name__), ''.join(traceback.format_exception(e))[-2500:])

    def count(self, k, d=1):
        self.counters[k] = self.counters.get(k, 0) + d

    def seen(self, x):
        self.distinct.add(hash(x))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s[:400])

    def violation(self, key, detail):
        self.perkey[key] = self.perkey.get(key, 0) + 1
        if self.perkey[key] > 2:
            return
        self.nviol += 1
        if len(self.viols) < 100:
            self.viols.append([key, 'case %s\n%s' % (self.cur, detail)])
            print('MISMATCH %s\n  case %s\n  %s' % (key, self.cur, detail), flush=True)

    def expect(self, ok, key, detail):
        if not ok:
            self.violation(key, detail() if callable(detail) else detail)
        return ok

    def finish(self):
        if self.json:
            with open(self.json + '.part', 'w') as s:
                json.dump({'evaluations': self.evals, 'counters': self.counters, 'distinct': len(self.distinct), 'samples': self.samples,
                           'digests': {}, 'nviol': self.nviol, 'violations': self.viols}, s)
            os.rename(self.json + '.part', self.json)
        sys.stdout.flush()
        os._exit(0)


R = Run()

# ---------------------------------------------------------------- classes


class Cls:
    """one dense jet class; n is None for dynamic ones"""

    def __init__(self, order, n):
        self.order, self.n = order, n
        self.name = 'D' * order + ('' if n is None else str(n)) + 'Scalar'
        self.T = getattr(hj, self.name, None)

    def length(self, n):
        return 1 + n if self.order == 1 else (n + 1) * (n + 2) // 2

    def size(self, r):
        if self.n is not None:
            return self.n
        k = r.random()
        if k < 0.02:  # rarely large
            return int(math.exp(r.uniform(math.log(34), math.log(500 if self.order == 1 else 120))))
        if k < 0.15:
            return r.randrange(34)
        return r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12, 17, 20])

    def make(self, data):
        return self.T(list(map(float, data)))


CLASSES = [Cls(o, n) for n in [None] + list(range(17)) for o in (1, 2)]


def classes():
    return [c for i, c in enumerate(CLASSES) if R.mine(i)]


def raw(x):
    """a copy of the data of a jet"""
    return np.array(x.data, dtype=float, copy=True).reshape(-1)


def same(a, b):
    """bitwise equal up to the payload of NaNs"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    return bool(np.all(na == nb) and np.all((a == b) | na) and np.all((np.signbit(a) == np.signbit(b)) | na))


def show(x):
    try:
        return '%s%s' % (type(x).__name__, [float(v).hex() if v != int(v) else float(v) for v in raw(x)] if np.all(np.isfinite(raw(x))) else raw(x).tolist())
    except Exception:
        return repr(x)


# ---------------------------------------------------------------- reference


class Ref:
    """value, gradient and Hessian in extended precision, with bounds e* of the
    rounding error that a correct double precision implementation of the same
    program may have accumulated"""
    __slots__ = ('f', 'g', 'h', 'ef', 'eg', 'eh')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, f, g, h, ef=None, eg=None, eh=None):
        self.f, self.g, self.h = L(f), g, h
        self.ef = L(0) if ef is None else ef
        self.eg = np.zeros_like(g) if eg is None else eg
        self.eh = np.zeros_like(h) if eh is None else eh

    @property
    def n(self):
        return len(self.g)


def ref(c, x):
    """reference copy of a jet; second order part zero for first order jets"""
    d = raw(x).astype(L)
    return ref_data(c, d)


def ref_data(c, d):
    d = np.asarray(d).astype(L)
    n = len(d) - 1 if c.order == 1 else int((math.isqrt(1 + 8 * len(d)) - 3) // 2)
    h = np.zeros((n, n), dtype=L)
    if c.order == 2:
        h[np.triu_indices(n)] = d[1 + n:]
        h = h + np.triu(h, 1).T
    return Ref(d[0], d[1:1 + n].copy(), h)


def const(v, n):
    return Ref(L(v), np.zeros(n, dtype=L), np.zeros((n, n), dtype=L))


def refdata(c, e, which=''):
    """packed data of a reference"""
    f, g, h = getattr(e, which + 'f'), getattr(e, which + 'g'), getattr(e, which + 'h')
    parts = [np.array([f]), g]
    if c.order == 2:
        parts.append(h[np.triu_indices(len(g))])
    return np.concatenate(parts)


def apply(args, p):
    """chain rule; p = (f, fm, d, dm, dd, ddm, ddd) with d[u], dd[u][v] and
    ddd[u] a bound of the third derivatives, m the magnitudes of the terms"""
    f, fm, d, dm, dd, ddm, ddd = p
    k = len(args)
    n = args[0].n
    aa = [np.abs(a.g) for a in args]
    g = np.zeros(n, dtype=L)
    eg = np.zeros(n, dtype=L)
    h = np.zeros((n, n), dtype=L)
    eh = np.zeros((n, n), dtype=L)
    ef = EPS * fm
    inexact = any(a.ef or a.eg.any() or a.eh.any() for a in args)
    for u in range(k):
        a = args[u]
        g += d[u] * a.g
        eg += EPS * dm[u] * aa[u]
        h += d[u] * a.h
        eh += EPS * dm[u] * np.abs(a.h)
        for v in range(k):
            if dd[u][v] or ddm[u][v]:
                h += dd[u][v] * np.outer(a.g, args[v].g)
                eh += EPS * ddm[u][v] * np.outer(aa[u], aa[v])
        if inexact:
            ef = ef + abs(d[u]) * a.ef
            eg += abs(d[u]) * a.eg
            eh += abs(d[u]) * a.eh
            for v in range(k):
                b = args[v]
                eg += abs(dd[u][v]) * b.ef * aa[u]
                eh += abs(dd[u][v]) * (b.ef * np.abs(a.h) + np.outer(a.eg, aa[v] + b.eg) + np.outer(aa[u], b.eg))
                for w in range(k):
                    eh += ddd[u] * args[w].ef * np.outer(aa[u], aa[v])
    return Ref(f, g, h, ef, eg, eh)


def powi(x, p):
    if p == int(p) and abs(p) <= 64:
        r = L(1)
        for _ in range(int(abs(p))):
            r = r * x
        return 1 / r if p < 0 else r
    return np.power(x, L(p)) if x > 0 else (L(0) if x == 0 and p > 0 else L('nan'))


def phi(op, x, p=0.0):
    """f, d, dd and the magnitudes fm, dm, ddm of their terms"""
    one = L(1)
    dm = ddm = None
    if op == 'sqrt':
        f = np.sqrt(x)
        d, dd = L(0.5) / f, L(-0.25) / (f * x)
    elif op == 'cbrt':
        f = np.cbrt(x)
        d, dd = f / (3 * x), -2 * f / (9 * x * x)
    elif op == 'reciprocal':
        f, d, dd = 1 / x, -1 / (x * x), 2 / (x * x * x)
    elif op == 'pow':
        f = powi(x, p)
        d = L(0) if p == 0 else L(p) * powi(x, p - 1)
        dd = L(0) if p in (0, 1) else L(p) * (L(p) - 1) * powi(x, p - 2)
        if x != 0:
            l = 1 + 4 * abs(np.log(abs(x)))
            dm, ddm = l * abs(d), l * abs(dd)
    elif op == 'cos':
        f, d, dd = np.cos(x), -np.sin(x), -np.cos(x)
    elif op == 'sin':
        f, d, dd = np.sin(x), np.cos(x), -np.sin(x)
    elif op == 'tan':
        c = np.cos(x)
        f, d, dd = np.tan(x), 1 / (c * c), 2 * np.sin(x) / (c * c * c)
    elif op in ('acos', 'asin'):
        w = (1 - x) * (1 + x)
        q, k = np.sqrt(w), 1 / w
        s = one if op == 'asin' else -one
        f = np.arcsin(x) if op == 'asin' else np.arccos(x)
        d, dd = s / q, s * x / (w * q)
        dm, ddm = k * abs(d), k * abs(dd)
    elif op == 'atan':
        f, d, dd = np.arctan(x), 1 / (1 + x * x), -2 * x / ((1 + x * x) * (1 + x * x))
    elif op == 'cosh':
        f, d, dd = np.cosh(x), np.sinh(x), np.cosh(x)
    elif op == 'sinh':
        f, d, dd = np.sinh(x), np.cosh(x), np.sinh(x)
    elif op == 'tanh':
        c = 1 / np.cosh(x)
        f, d = np.tanh(x), c * c
        dd = -2 * f * d
        dm, ddm = one, 2 * abs(f)
    elif op == 'acosh':
        w = (x - 1) * (x + 1)
        q, k = np.sqrt(w), x * x / w
        f, d, dd = np.arccosh(x), 1 / q, -x / (w * q)
        dm, ddm = k * abs(d), k * abs(dd)
    elif op == 'asinh':
        w = 1 + x * x
        q = np.sqrt(w)
        f, d, dd = np.arcsinh(x), 1 / q, -x / (w * q)
    elif op == 'atanh':
        w = (1 - x) * (1 + x)
        k = 1 / w
        f, d, dd = np.arctanh(x), 1 / w, 2 * x / (w * w)
        dm, ddm = k * abs(d), k * abs(dd)
    elif op == 'exp':
        f = d = dd = np.exp(x)
    elif op == 'log':
        f, d, dd = np.log(x), 1 / x, -1 / (x * x)
    elif op in ('log_base', 'log2', 'log10'):
        l = np.log(L(p) if op == 'log_base' else L(2) if op == 'log2' else L(10))
        f, d, dd = np.log(x) / l, 1 / (x * l), -1 / (x * x * l)
    elif op == 'neg':
        f, d, dd = -x, -one, L(0)
    elif op == 'abs':
        s = -one if x < 0 else one
        f, d, dd = abs(x), s, L(0)
    elif op == 'square':
        f, d, dd = x * x, 2 * x, L(2)
    else:
        raise KeyError(op)
    return f, abs(f), d, abs(d) if dm is None else dm, dd, abs(dd) if ddm is None else ddm


UNARY = ['sqrt', 'cbrt', 'reciprocal', 'pow', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'cosh', 'sinh', 'tanh', 'acosh', 'asinh', 'atanh', 'exp', 'log', 'log_base', 'log2', 'log10']


def unary(op, a, p=0.0):
    f, fm, d, dm, dd, ddm = phi(op, a.f, p)
    ddd = L(0)
    if a.ef:
        s = max(abs(a.f), L(1e-3)) * L(1e-5)
        if op in ('acos', 'asin', 'atanh'):
            s = min(s, (1 - abs(a.f)) / 4)
        if op == 'acosh':
            s = min(s, (a.f - 1) / 4)
        for t in (a.f - s, a.f + s):
            q = phi(op, t, p)[4]
            ddd = max(ddd, 4 * abs(q - dd) / s)
    return apply([a], (f, fm, [d], [dm], [[dd]], [[ddm]], [ddd]))


def psi(op, a, b):
    z = L(0)
    if op == 'add':
        return a + b, abs(a) + abs(b), [L(1), L(1)], None, [[z, z], [z, z]], None
    if op == 'sub':
        return a - b, abs(a) + abs(b), [L(1), L(-1)], None, [[z, z], [z, z]], None
    if op == 'mul':
        return a * b, abs(a * b), [b, a], None, [[z, L(1)], [L(1), z]], None
    if op == 'div':
        m = -1 / (b * b)
        return a / b, abs(a / b), [1 / b, -a / (b * b)], None, [[z, m], [m, 2 * a / (b * b * b)]], None
    if op == 'atan2':
        s = a * a + b * b
        m = (a * a - b * b) / (s * s)
        dd = [[-2 * a * b / (s * s), m], [m, 2 * a * b / (s * s)]]
        f = np.arctan2(a, b)
        return f, abs(f), [b / s, -a / s], None, dd, [[abs(dd[0][0]), 1 / s], [1 / s, abs(dd[1][1])]]
    if op == 'hypot':
        f = np.sqrt(a * a + b * b)
        f3 = f * f * f
        dd = [[b * b / f3, -a * b / f3], [-a * b / f3, a * a / f3]]
        return f, f, [a / f, b / f], None, dd, [[1 / f, abs(dd[0][1])], [abs(dd[0][1]), 1 / f]]
    raise KeyError(op)


BINARY = ['add', 'sub', 'mul', 'div', 'atan2', 'hypot']


def binary(op, a, b):
    f, fm, d, dm, dd, ddm = psi(op, a.f, b.f)
    dm = [abs(v) for v in d] if dm is None else dm
    ddm = [[abs(v) for v in w] for w in dd] if ddm is None else ddm
    if op == 'div':
        i = 1 / abs(b.f)
        ddd = [2 * i ** 3, 2 * i ** 3 + 6 * abs(a.f) * i ** 4]
    elif op in ('atan2', 'hypot'):
        s = np.sqrt(a.f * a.f + b.f * b.f)
        ddd = [8 / s ** (3 if op == 'atan2' else 2)] * 2
    else:
        ddd = [L(0), L(0)]
    return apply([a, b], (f, fm, d, dm, dd, ddm, ddd))


def hypot3(a, b, c):
    v = [a.f, b.f, c.f]
    s = sum(x * x for x in v)
    f = np.sqrt(s)
    f3 = f * s
    d = [x / f for x in v]
    dd = [[((s - v[i] * v[i]) if i == j else -v[i] * v[j]) / f3 for j in range(3)] for i in range(3)]
    for i in range(3):
        dd[i][i] = sum(v[j] * v[j] for j in range(3) if j != i) / f3
    ddm = [[1 / f if i == j else abs(dd[i][j]) for j in range(3)] for i in range(3)]
    return apply([a, b, c], (f, f, d, [abs(x) for x in d], dd, ddm, [8 / s] * 3))


def taylor(c, e, dx):
    """(value, tolerance) of the Taylor polynomial"""
    dx = np.asarray(dx, dtype=L)
    v = e.f + np.dot(dx, e.g)
    m = abs(e.f) + np.dot(abs(dx), abs(e.g))
    if c.order == 2:
        v += L(0.5) * np.dot(dx, np.dot(e.h, dx))
        m += L(0.5) * np.dot(abs(dx), np.dot(abs(e.h), abs(dx)))
    return v, TOLC * EPS * m


# ---------------------------------------------------------------- judging


def judge(got, exp, err):
    """index of the first wrong component or None; skips components out of range"""
    exp, err = np.asarray(exp), np.asarray(err)
    m = np.where(err > 0, err / EPS, np.abs(exp))
    skip = ~np.isfinite(exp) | ~np.isfinite(err) | (m > MAXV) | ((m != 0) & (m < MINV))
    ok = np.abs(got.astype(L) - exp) <= TOLC * err
    bad = ~ok & ~skip
    k = int(np.count_nonzero(skip))
    if k:
        R.count('skipped_components', k)
    R.count('components_checked', len(exp) - k)
    return int(np.argmax(bad)) if bad.any() else None


def check(c, x, e, key, detail):
    """compares a jet with the reference, component by component"""
    R.evals += 1
    if type(x) is not c.T:
        R.violation(key + '/type', 'result is %r of %s instead of %s\n  %s' % (x, type(x), c.name, detail()))
        return False
    d = raw(x)
    exp = refdata(c, e)
    if len(d) != len(exp) or x.size != e.n or len(x) != e.n:
        R.violation(key + '/size', 'size %r, len %r, %d data instead of size %d and %d data\n  %s' % (x.size, len(x), len(d), e.n, len(exp), detail()))
        return False
    i = judge(d, exp, refdata(c, e, 'e'))
    if i is not None:
        R.violation(key + ('/f' if i == 0 else '/g' if i <= e.n else '/h'), 'data[%d] = %r instead of %s (result %s)\n  %s' % (i, d[i], np.format_float_scientific(exp[i]), show(x), detail()))
        return False
    return True


# ---------------------------------------------------------------- generators


def sgn(r):
    return 1.0 if r.random() < 0.5 else -1.0


def logu(r, lo, hi):
    return math.exp(r.uniform(math.log(lo), math.log(hi)))


def wide(r, lo, hi):
    k = r.randrange(10)
    if k < 3:
        v = r.uniform(0.1, 4)
    elif k < 5:
        v = logu(r, max(lo, 1e-3), min(hi, 1e3))
    elif k < 7:
        v = logu(r, lo, hi)
    else:
        v = r.choice([1, 2, 3, 0.5, 4, 10, 100, 0.25, 1.5, 1e-3, 7, 1 + 2.0 ** -20, 1 - 2.0 ** -20])
    return float(min(max(v, lo), hi))


def exponent(r):
    if r.random() < 0.7:
        return float(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -3, -4, 0.5, -0.5, 1.5, 2.5, -1.5, 3.5, 1 / 3, 2 / 3, 0.25, 0.1, 10, -7, 1.0001, 12]))
    return r.uniform(-4, 4)


def base(r):
    if r.random() < 0.6:
        return float(r.choice([2, 10, math.e, 0.5, 3, 16, 0.1, 100]))
    return r.uniform(1.2, 50) if r.random() < 0.5 else r.uniform(0.05, 0.8)


def point(op, r):
    """(argument, parameter) at which op is twice differentiable"""
    if op == 'sqrt':
        return wide(r, 1e-60, 1e60), 0.0
    if op == 'cbrt':
        return sgn(r) * wide(r, 1e-40, 1e40), 0.0
    if op == 'reciprocal':
        return sgn(r) * wide(r, 1e-60, 1e60), 0.0
    if op == 'pow':
        p = exponent(r)
        if r.random() < 0.08 and ((p == math.floor(p) and p >= 0) or p > 2):
            return 0.0, p
        x = wide(r, 1e-9, 1e9)
        return (-x if p == math.floor(p) and r.random() < 0.5 else x), p
    if op in ('cos', 'sin', 'tan'):
        k = r.random()
        return (0.0 if k < 0.05 else r.uniform(-10, 10) if k < 0.4 else sgn(r) * wide(r, 1e-12, 1e5)), 0.0
    if op in ('acos', 'asin', 'atanh'):
        k = r.randrange(10)
        if k == 0:
            return 0.0, 0.0
        if k == 1:
            return sgn(r) * r.choice([0.5, 0.25, 0.125, 0.75, 0.9, 0.99]), 0.0
        if k == 2:
            return sgn(r) * (1 - 2.0 ** (-2 - r.randrange(40))), 0.0
        if k == 3:
            return sgn(r) * logu(r, 1e-15, 1e-2), 0.0
        return r.uniform(-0.999, 0.999), 0.0
    if op in ('atan', 'asinh'):
        return (0.0 if r.random() < 0.05 else sgn(r) * wide(r, 1e-20, 1e20)), 0.0
    if op in ('cosh', 'sinh', 'tanh', 'exp'):
        k = r.random()
        return (0.0 if k < 0.05 else r.uniform(-200, 200) if k < 0.25 else sgn(r) * wide(r, 1e-15, 40)), 0.0
    if op == 'acosh':
        return (1 + 2.0 ** (-1 - r.randrange(36)) if r.random() < 0.2 else 1 + wide(r, 1e-8, 1e15)), 0.0
    if op in ('log', 'log2', 'log10'):
        return wide(r, 1e-60, 1e60), 0.0
    if op == 'log_base':
        return wide(r, 1e-60, 1e60), base(r)
    return sgn(r) * wide(r, 1e-30, 1e30), 0.0


def point2(op, r):
    a, b = sgn(r) * wide(r, 1e-35, 1e35), sgn(r) * wide(r, 1e-35, 1e35)
    k = r.randrange(16)
    if k == 0:
        b = a
    elif k == 1:
        b = -a
    elif k == 2 and op != 'atan2':
        a = 0.0
    elif k == 3 and op != 'div':
        b = 0.0
    elif k == 4 and op in ('add', 'sub', 'mul'):
        a = b = 0.0
    elif k == 5 and op == 'atan2':
        a, b = 0.0, abs(b)
    elif k == 6:
        b = a * r.uniform(0.3, 3)
    return a, b


def coefs(r, m, style=None):
    """derivative data"""
    if style is None:
        style = r.choice([0, 0, 0, 1, 1, 2, 3, 4])
    if style == 0:
        return [r.uniform(-3, 3) for _ in range(m)]
    if style == 1:
        return [0.0 if r.random() < 0.5 else r.uniform(-2, 2) for _ in range(m)]
    if style == 2:
        return [float(r.randrange(7) - 3) for _ in range(m)]
    if style == 3:
        return [sgn(r) * wide(r, 1e-8, 1e8) for _ in range(m)]
    return [0.0] * m


def vector_forms(v):
    """the same numbers as arrays of different layout and type"""
    v = [float(x) for x in v]
    n = len(v)
    a = np.array(v, dtype=float)
    big = np.full((2 * n + 1, 3), 7.5)
    big[1::2, 1] = a
    ro = a.copy()
    ro.flags.writeable = False
    forms = [('strided', big[1::2, 1]), ('column', np.asfortranarray(np.stack([a + 1, a, a - 1])).T[:, 1]),
             ('big_endian', a.astype('>f8')), ('readonly', ro), ('longdouble', a.astype(np.longdouble)), ('numpy_scalars', [np.float64(x) for x in v])]
    if n > 1:  # pybind11 refuses single elements with a negative stride
        forms.append(('reversed', a[::-1].copy()[::-1]))
    if all(math.isfinite(x) and x == int(x) and abs(x) < 100 and (x != 0 or math.copysign(1, x) > 0) for x in v):  # integers have no -0.0
        forms += [('ints', [int(x) for x in v]), ('int8', a.astype(np.int8)), ('int64', a.astype(np.int64)), ('float32', a.astype(np.float32))]
    return forms


def assemble(c, r, d):
    """a jet with the given components; what it does may not depend on the way it came about"""
    T = c.T
    k = r.randrange(14)
    if k < 3:
        return c.make(d)
    x = c.make(d)
    n = x.size
    if k == 3:
        return -(-x)
    if k == 4:
        return x * 1.0
    if k == 5:
        x *= 1.0
        return x
    if k == 6:
        return copy.copy(x)
    if k == 7:
        return pickle.loads(pickle.dumps(x, 2 + r.randrange(4)))
    g = np.array(d[1:1 + n], dtype=float)
    if c.order == 2:
        h = np.zeros((n, n))
        iu = np.triu_indices(n)
        h[iu] = d[1 + n:]
        h.T[iu] = d[1 + n:]
    if k == 8:
        return T(d[0], g) if c.order == 1 else T(d[0], g, h)
    if k == 9 and n:
        y = T.variable(r.randrange(n), d[0], n)
    elif k == 10 and c.n is None:
        y = T.constant(1.5)
        y.resize(n)
    else:
        y = T.constant(d[0], n)
    if r.random() < 0.5:
        y.data[...] = np.array(d, dtype=float).reshape(y.data.shape)
        return y
    y.f = d[0]
    y.g[...] = g.reshape(y.g.shape)
    if c.order == 2:
        if r.random() < 0.5:
            y.set_hm(h)
        else:
            for i in range(n):
                for j in range(i, n):
                    if r.random() < 0.5:
                        y.set_h(i, j, h[i, j])
                    else:
                        y.set_h(j, i, h[i, j])
    return y


def jet(c, r, f, n=None):
    if n is None:
        n = c.size(r)
    if r.random() < 0.1 and n:
        d = [0.0] * c.length(n)
        d[1 + r.randrange(n)] = 1.0
        d[0] = f
    else:
        d = [f] + coefs(r, c.length(n) - 1)
    return assemble(c, r, [float(v) for v in d])


# ---------------------------------------------------------------- memory

try:
    _bytes = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    _bytes.restype = ctypes.c_size_t
except (AttributeError, OSError):
    _bytes = None


def allocated():
    return _bytes()


def main(fn):
    R.init(sys.argv)
    try:
        fn()
    except BaseException as e:
        print('HARNESS: ' + ''.join(traceback.format_exception(e))[-3000:], flush=True)
        os._exit(3)
    R.finish()
