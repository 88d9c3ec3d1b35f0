"""C20: copies and pickle round trips of dense jets in Python."""
import copy
import gc
import io
import pickle
import subprocess
from hv import *  # noqa: F401,F403

VALUES = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3]


def value(r):
    return r.choice(VALUES) if r.random() < 0.4 else r.uniform(-3, 3)


def fresh(r, c):
    n = c.size(r)
    if c.n is None and r.random() < 0.1:
        n = r.choice([33, 60, 101])
    d = [value(r) for _ in range(c.length(n))]
    x = c.make(d)
    if r.random() < 0.2:  # a result of an operation
        x = x * r.choice([2.0, 1.0, -1.0])
    return x


PROTO = [2, 3, 4, 5]


def pickler(r):
    p = r.choice(PROTO)
    k = r.randrange(3)
    R.count('protocol_%d' % p)
    if k == 0:
        return lambda o: pickle.loads(pickle.dumps(o, p))
    if k == 1:
        return lambda o: pickle.loads(pickle.dumps(o, protocol=p, fix_imports=False))

    def through_file(o):
        f = io.BytesIO()
        pickle._Pickler(f, p).dump(o)  # the implementation in Python
        f.seek(0)
        return pickle._Unpickler(f).load()
    return through_file


def same_object_ok(c, x, y, d, key, detail):
    R.evals += 1
    n = x.size
    ok = type(y) is c.T and y is not x and y.size == n and len(y) == n and same(raw(y), d) and y.order == c.order
    if ok and c.order == 2:
        ok = same(y.hm(), x.hm())
    ok = ok and same(y.g, x.g) and same([y.f], [x.f])
    R.expect(ok, key + '/' + c.name, lambda: '%s became %s, %s' % (d.tolist(), show(y), detail))
    return ok


def independent(r, c, x, y, key):
    """changes of one are not seen by the other, in both directions, and both stay usable"""
    for a, b in ((x, y), (y, x)):
        keep = raw(b)
        k = r.randrange(5)
        if k == 0:
            a.f = 17.0
        elif k == 1:
            a.data[:] = 3.5
        elif k == 2:
            a *= 2.0
        elif k == 3:
            a += a
        elif c.order == 2 and a.size:
            a.set_h(a.size - 1, 0, 9.0)
        else:
            a.g[...] = 4.0
        R.expect(same(raw(b), keep), key + '/shared/' + c.name, lambda: 'a change of one was seen by the other: %s became %s' % (keep.tolist(), show(b)))
    R.count('mutations')
    if c.n is None and r.random() < 0.5:
        keep = raw(x)
        y.resize(y.size + 3)
        R.expect(same(raw(x), keep), key + '/shared_resize/' + c.name, show(x))
        y = c.make(keep)
    a, b = raw(x + y), raw(x)  # usable after it
    R.expect(len(a) == len(b), key + '/usable/' + c.name, show(x))


def single(r, c):
    x = fresh(r, c)
    d = raw(x)
    for key, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy), ('__copy__', lambda o: o.__copy__()), ('__deepcopy__', lambda o: o.__deepcopy__({})), ('deepcopykw', lambda o: o.__deepcopy__(memodict={})), ('pickle', pickler(r))):
        R.step(key)
        y = f(x)
        R.count(key)
        if same_object_ok(c, x, y, d, key, '') and c.n in (2, None):
            R.sample('%s %s %s -> %s' % (c.name, key, d[:6].tolist(), show(y)[:100]))
        R.expect(same(raw(x), d), key + '/source/' + c.name, show(x))
        z = f(y)
        same_object_ok(c, y, z, d, key + '/again', '')
        independent(r, c, c.make(d) if r.random() < 0.1 else x, y, key)
        x = c.make(d)
    # the original may die first
    y = copy.deepcopy(x)
    p = pickle.dumps(x, 4)
    del x
    gc.collect()
    junk = [c.make([1e99] * len(d)) for _ in range(4)]
    R.expect(same(raw(y), d) and same(raw(pickle.loads(p)), d), 'outlives/' + c.name, show(y))
    # the same pickle twice
    a, b = pickle.loads(p), pickle.loads(p)
    independent(r, c, a, b, 'loads_twice')
    del junk
    R.seen((c.name, d.tobytes()))


class Node:
    pass


def containers(r, c):
    n = c.size(r)
    xs = [c.make([value(r) for _ in range(c.length(n))]) for _ in range(3)]
    if r.random() < 0.5:  # equal, yet two objects
        xs[1] = c.make(raw(xs[0]).tolist())
        R.count('equal_objects')
    ds = [raw(x) for x in xs]
    a = np.empty((2, 2), dtype=object)
    a[0, 0], a[0, 1], a[1, 0], a[1, 1] = xs[0], xs[1], xs[2], xs[0]
    node = Node()
    node.u, node.v = xs[0], {'w': xs[1]}
    obj = {'list': [xs[0], xs[1], xs[0]], 'tuple': (xs[2], [xs[2]]), 'array': a, 'node': node, 'float': 1.5}
    f = copy.deepcopy if r.random() < 0.4 else pickler(r)
    R.step('container')
    o = f(obj)
    R.count('containers')
    leaves = [(o['list'][0], 0), (o['list'][1], 1), (o['list'][2], 0), (o['tuple'][0], 2), (o['tuple'][1][0], 2), (o['node'].u, 0), (o['node'].v['w'], 1),
              (o['array'][0, 0], 0), (o['array'][0, 1], 1), (o['array'][1, 0], 2), (o['array'][1, 1], 0)]
    for y, i in leaves:
        same_object_ok(c, xs[i], y, ds[i], 'container', '')
    R.expect(o['array'].shape == (2, 2) and o['array'].dtype == object and o['float'] == 1.5, 'container/array/' + c.name, repr(o))
    # one object stays one object, two objects stay two
    R.expect(o['list'][0] is o['list'][2] and o['list'][0] is o['node'].u and o['tuple'][0] is o['tuple'][1][0] and o['list'][0] is not o['list'][1] and o['list'][1] is not o['tuple'][0],
             'container/identity/' + c.name, 'sharing inside of the container was not kept')
    independent(r, c, xs[0], o['list'][0], 'container')
    R.expect(same(raw(o['list'][1]), ds[1]) and same(raw(o['tuple'][0]), ds[2]), 'container/others/' + c.name, '')
    # shallow copies share the elements
    lst = [xs[1], xs[2]]
    cp = copy.copy(lst)
    R.expect(cp[0] is xs[1] and cp[1] is xs[2], 'container/shallow', '')
    b = copy.copy(a)
    R.expect(b[0, 1] is a[0, 1], 'container/shallow_array', '')


def corrupted(r, c):
    """a state which is not one of the class is refused"""
    n = c.size(r)
    x = c.make([value(r) for _ in range(c.length(n))])
    d = raw(x).tolist()
    fn, args, state = x.__reduce_ex__(2)[:3]
    good = fn(*args)
    good.__setstate__(state)
    same_object_ok(c, x, good, np.array(d), 'reduce', '')
    bad = [(), (d, d), (d, 1), ('abc',), (None,), (1.5,), (d + ['x'],), ({},) if c.n is not None else ({'a': 1},), (d[:-1] + [None],), d, None, 3, 'state', [[d]], ([d],), (d[:-1] + ['1.0'],), (d[:-1] + [[]],)]
    if c.n is not None:
        bad += [(d + [0.0],), (d[:-1],), ([],), (d * 3,)]
    elif c.order == 2:
        bad += [([],), ([1.0] * 2,), ([1.0] * 4,), ([1.0] * 5,), ([1.0] * 7,), ([1.0] * 11,)]
    else:
        bad += [([],)]
    bad = [b for b in bad if not (isinstance(b, tuple) and len(b) == 1 and b[0] == d)]
    for b in bad:
        R.step('state %r' % (b,))
        y = fn(*args)
        R.evals += 1
        R.count('corrupted')
        try:
            y.__setstate__(b)
        except Exception:
            R.count('corrupted_refused')
            continue
        R.violation('state/' + c.name, 'the state %r was accepted as %s' % (b, show(y)))
    # truncated and damaged pickles never give a jet of another size without an exception
    p = pickle.dumps(x, r.choice(PROTO))
    for _ in range(12):
        q = bytearray(p)
        if r.random() < 0.5:
            del q[r.randrange(len(q)):]
        else:
            # only the numbers: everything else would ask pickle to call something else
            at = [i for i in range(len(q)) if q[i:i + 1] == b'G' and i + 9 <= len(q)]
            if not at:
                continue
            i = r.choice(at) + 1 + r.randrange(8)
            q[i] = r.randrange(256)
        R.step('pickle %s' % bytes(q).hex()[:3000])
        R.count('damaged')
        try:
            y = pickle.loads(bytes(q))
        except Exception:
            R.count('damaged_refused')
            continue
        if type(y) is c.T:
            R.expect(len(raw(y)) == c.length(y.size) and len(y) == y.size and (c.n is None or y.size == c.n), 'damaged/' + c.name, lambda: show(y))
    R.expect(same(raw(x), d), 'corrupted/source', '')


CHILD = """
import os, pickle, sys
sys.path.insert(0, os.environ['HV_MODULE'])
import hyperjet
import numpy as np
out = []
for p in pickle.load(sys.stdin.buffer):
    x = pickle.loads(p)
    out.append((type(x).__name__, x.size, np.array(x.data).tobytes(), pickle.dumps(x, 2 + len(out) % 4)))
sys.stdout.buffer.write(pickle.dumps(out))
sys.stdout.buffer.flush()
os._exit(0)
"""


def other_process(r):
    """pickles made here are read by another process and the other way round"""
    jets = [(c, fresh(r, c)) for c in classes() if c.T is not None for _ in range(R.n(5))]
    p = subprocess.run([sys.executable, '-c', CHILD], input=pickle.dumps([pickle.dumps(x, r.choice(PROTO)) for _, x in jets]), capture_output=True, timeout=120)
    if p.returncode != 0:
        R.violation('other_process/failed', p.stderr.decode('utf-8', 'replace')[-2000:])
        return
    res = pickle.loads(p.stdout)
    R.expect(len(res) == len(jets), 'other_process/count', '')
    for (c, x), (name, size, data, back) in zip(jets, res):
        R.evals += 1
        R.count('other_process')
        d = raw(x)
        R.expect(name == c.name and size == x.size and same(np.frombuffer(data, dtype=float), d), 'other_process/' + c.name, lambda: '%s became a %s of size %d in another process' % (show(x), name, size))
        same_object_ok(c, x, pickle.loads(back), d, 'other_process/back', 'through another process')


def run():
    R.case('other_process', other_process)
    for c in classes():
        if c.T is None:
            R.violation('missing/' + c.name, 'the module has no class ' + c.name)
            continue
        for k in range(R.n(16 if c.n is not None else 80)):
            R.case('%s/single/%d' % (c.name, k), single, c)
            R.case('%s/container/%d' % (c.name, k), containers, c)
            if k % 4 == 0:
                R.case('%s/corrupted/%d' % (c.name, k), corrupted, c)


main(run)
