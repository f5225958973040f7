"""C07: pickling and copying reproduce the type."""
import copy
import os
import pickle

import datashape
from datashape import coretypes as T

from vf import child, gen as G, model as M, text
from vf.checks import c01

RULE = ('random types, hashed before or not, pickled at protocols 0 to 5, '
        'copied, deep-copied, and sent through another process with another '
        'hash seed; the results and every part of them are compared with the '
        'original and used.  Non-trivial: distinct type texts.')
BIG = (160, 1100)
COUNT = {'quick': 5600, 'thorough': 100000}
REQUIRED = ('reproduced', 'usable', 'part', 'other-process', 'dimension')
g = G.Gen(most_cats=14)
_child = []


def fixed(tier):
    for i, m in enumerate(c01.small()):
        yield (m, bool(i & 1), i % 5 == 0)


def gen(r):
    m = c01.gen(r)[1] if r.random() < .05 else g.top(r)
    return (m, bool(r.getrandbits(1)), r.random() < .3)


def mutate(r, case):
    return (G.near(r, case[0], g), case[2], True)


def attrs(x):
    """What the object shows of itself."""
    out = {}
    names = ['shape', 'measure', 'parameters', 'itemsize', 'alignment', 'name',
             'composite', 'ty', 'fields', 'names', 'types', 'dict', 'dshapes',
             'key', 'value', 'restype', 'argtypes', 'unit', 'tp', 'tz',
             'fixlen', 'encoding', 'precision', 'scale', 'categories', 'type',
             'ordered', 'val', 'symbol', 'typevar', 'cls']
    for n in names:
        try:
            out[n] = repr(getattr(x, n))
        except AttributeError:
            pass
        except Exception as e:
            out[n] = type(e)
    return out


def uses(x):
    """Results of using x, as text."""
    out = []

    def use(f):
        try:
            r = f()
            out.append(repr(r))
        except Exception as e:
            out.append('%s: %s' % (type(e).__name__, e))

    use(lambda: len(x))
    use(lambda: x[0])
    use(lambda: x.info())
    use(lambda: 3 * x)
    use(lambda: T.Var() * x)
    use(lambda: T.Option(x))
    use(lambda: T.Record([('a', x)]))
    use(lambda: T.Tuple([x]))
    use(lambda: datashape.dshape(x))
    use(lambda: datashape.pprint(x, 20))
    use(lambda: x.subarray(1))
    use(lambda: x.subarray(0))
    use(lambda: datashape.to_numpy(x))
    use(lambda: x.to_numpy_dtype())
    use(lambda: datashape.to_numpy_dtype(x))
    use(lambda: x.subshape[0])
    use(lambda: x.subshape[:2])
    use(lambda: x.subshape[[0]])
    use(lambda: datashape.isscalar(x))
    use(lambda: datashape.isfixed(x))
    use(lambda: datashape.has_var_dim(x))
    use(lambda: x.names)
    return out


def compare(x, y, mon, how, oracle='reproduced'):
    mon.check(oracle, type(y) is type(x), how, type(y), type(x))
    mon.check(oracle, y == x and x == y and not y != x and not x != y, how,
              'unequal', x, y)
    mon.check(oracle, hash(y) == hash(x), how, 'hash')
    mon.check(oracle, str(y) == str(x) and repr(y) == repr(x), how, repr(y),
              repr(x))
    mon.check(oracle, M.of(y) == M.of(x), how, M.of(y), M.of(x))
    mon.check(oracle, attrs(y) == attrs(x), how, attrs(y), attrs(x))


def run(case, mon):
    m, hashed, fresh = case
    x = M.build(m, True) if fresh else datashape.dshape(text.canonical(m))
    h = hash(x) if hashed else None
    before = None
    objs = [x]
    if m[0] != 'ds':
        objs.append(x[0])
    for o in objs:
        used = uses(o)
        for proto in range(6):
            y = pickle.loads(pickle.dumps(o, proto))
            compare(o, y, mon, 'protocol %d' % proto)
            mon.check('usable', uses(y) == used, 'protocol', proto, uses(y),
                      used)
        for how, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy),
                       ('deepcopy in a list', lambda o: copy.deepcopy(
                           [o, o])[1])):
            y = f(o)
            compare(o, y, mon, how)
            mon.check('usable', uses(y) == used, how, uses(y), used)
        # again, from the reproduction
        y = pickle.loads(pickle.dumps(copy.copy(pickle.loads(
            pickle.dumps(o, 2))), 4))
        compare(o, y, mon, 'twice')
    # the parts, on their own
    for p in set(M.walk(m)) if M.size(m) < 10 else ():
        o = M.build(p)
        compare(o, pickle.loads(pickle.dumps(o, len(str(m)) % 6)), mon, 'part',
                'part')
        compare(o, copy.deepcopy(o), mon, 'part', 'part')
        for d in M.dims(p):
            o = M.build_dim(d)
            for proto in range(6):
                y = pickle.loads(pickle.dumps(o, proto))
                mon.check('dimension', type(y) is type(o) and y == o and
                          hash(y) == hash(o) and repr(y) == repr(o) and
                          str(y) == str(o) and M.dim_of(y) == d, o, y)
    if h is not None:
        mon.check('hash-kept', hash(x) == h)
    if mon.counts.get('cases', 0) % 4 == 0 or M.size(m) < 3:
        if not _child:
            _child.append(child.Child(1 + os.getpid() % 1000))
        if h is None:
            hash(x)
        r = _child[0].call('vf.checks.c07', 'elsewhere',
                           (m, [pickle.dumps(x, p) for p in range(6)]))
        mon.check('other-process', r[0] is None, r[0])
        for data in r[1]:
            compare(x, pickle.loads(data), mon, 'through another process')
    mon.count('cases')
    mon.seen(str(x))


def elsewhere(arg):
    """In the other process: unpickle, compare with the type built here."""
    m, pickles = arg
    fresh = M.build(m, True)
    out = []
    for data in pickles:
        y = pickle.loads(data)
        if not (y == fresh and fresh == y and hash(y) == hash(fresh) and
                type(y) is type(fresh) and repr(y) == repr(fresh) and
                str(y) == str(fresh) and len({y, fresh}) == 1 and
                M.of(y) == m and attrs(y) == attrs(fresh)):
            return 'unpickled %r, hash %d, for %r, hash %d' % (
                y, hash(y), fresh, hash(fresh)), []
        out.append(pickle.dumps(y, 2))
    return None, out


def worker_end(mon, i, n):
    while _child:
        _child.pop().close()
