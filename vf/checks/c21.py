"""C21: validation accepts exactly the conforming values."""
import datetime as dt
import random
import zlib
from collections import OrderedDict

import numpy as np

import datashape
from datashape import coretypes as T

from vf import data, gen as G, model as M, npref, text
from vf.checks import c12, c18

RULE = ('random option-free schemas with a conforming value, the same value '
        'with one thing wrong at a random place, and values of unrelated '
        'schemas; alternatives; Python types; arrays against their own, a '
        'nearby and an unrelated type; pairs of types for issubschema.  '
        'Non-trivial: distinct (schema, value).')
COUNT = {'quick': 60000, 'thorough': 900000}
REQUIRED = ('accepted', 'rejected', 'alternatives', 'python types', 'array',
            'array rejected', 'issubschema', 'unequal', 'unchanged',
            'deep flaw', 'long', 'derived classes')

CTS = ('bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint64', 'float32',
       'float64', 'complex[float64]', 'int64', 'float64')
g = G.Gen(kinds=('ct', 'ct', 'ct', 'string', 'date', 'time', 'datetime', 'rec',
                 'rec'), ct=CTS, dims=('fix', 'fix', 'var'), small=True)


g2 = G.Gen(most_cats=14)


def printing_alike(r):
    m = ('cat', tuple(range(r.choice((10, 11, 12, 20)))), ('ct', 'int64'),
         False)
    return r.choice((m, ('opt', m), ('rec', (('a', m),)), ('tup', (m,)),
                     ('ds', (('fix', 3),), m)))


class Subset(G.Gen):
    def scalar(self, r, k=None):
        m = G.Gen.scalar(self, r, k)
        if m[0] == 'string':
            return ('string', None, r.choice(('U8', 'U8', 'A')))
        return (m[0], None) if m[0] in ('time', 'datetime') else m


g = Subset(kinds=g.kinds, ct=CTS, dims=g.dims, small=True)

# values of each scalar type
VALUES = {
    ('ct', 'bool'): [True, False, np.bool_(True)],
    ('ct', 'int64'): [0, 5, -1, 2 ** 62, np.int64(3)],
    ('ct', 'float64'): [0.0, 1.5, float('nan'), np.float64(2)],
    ('ct', 'complex[float64]'): [1j, 0j, np.complex128(2)],
    ('date',): [dt.date(2014, 1, 1)],
    ('time', None): [dt.time(12, 0)],
    ('datetime', None): [dt.datetime(2014, 1, 1), dt.datetime(1, 1, 1, 2)],
    ('string', None, 'U8'): ['', 'a', 'naïve', '1', '2014-01-01'],
}
for _k, _t in data.NP.items():
    if _t not in VALUES:
        VALUES[_t] = [np.dtype(_k).type(1), np.dtype(_k).type(0)]
VALUES[('string', None, 'A')] = VALUES[('string', None, 'U8')]
OTHERS = [None, b'a', {}, [], (), {'a': 1}, [1], object, 1 + 0j, dt.timedelta(1),
          np.float32(1), np.int8(1), np.uint64(1), np.datetime64('2014-01-01'),
          set(), frozenset((1,)), range(3), np.zeros(2), 3, 'x', 1.0, True,
          dt.date(2000, 1, 1), dt.time(0), dt.datetime(2000, 1, 1)]


def scalar_ok(m, v):
    """Whether v is of the scalar type m; None: unspecified."""
    if type(v) is np.ndarray:
        return None
    if m[0] == 'ct':
        if isinstance(v, np.generic):
            if not isinstance(v, (np.number, np.bool_)):
                return False
            return data.NP.get(v.dtype.str[1:], ('ct', 'bool')) == m
        return m == {bool: ('ct', 'bool'), int: ('ct', 'int64'),
                     float: ('ct', 'float64'),
                     complex: ('ct', 'complex[float64]')}.get(type(v))
    if m[0] == 'string':
        return isinstance(v, str)
    if m == ('date',):
        if isinstance(v, dt.datetime):
            return None
        return isinstance(v, dt.date)
    return isinstance(v, dt.time if m[0] == 'time' else dt.datetime)


class Unspecified(Exception):
    pass


def ok(m, v):
    if m[0] == 'ds':
        if type(v) is np.ndarray:
            raise Unspecified
        if not isinstance(v, (list, tuple)):
            if isinstance(v, (set, frozenset)):
                raise Unspecified
            return False
        d = m[1][0]
        if d[0] == 'fix' and d[1] != len(v):
            return False
        rest = M.array(m[1][1:], m[2])
        return all([ok(rest, x) for x in v])
    if m[0] == 'rec':
        if isinstance(v, dict):
            return all([n in v and ok(t, v[n]) for n, t in m[1]])
        if isinstance(v, (list, tuple)):
            return len(v) == len(m[1]) and all(
                [ok(t, x) for (_, t), x in zip(m[1], v)])
        if type(v) is np.ndarray:
            raise Unspecified
        return False
    if m[0] in ('cat',):
        raise Unspecified
    if type(v) is np.ndarray:
        raise Unspecified
    x = scalar_ok(m, v)
    if x is None:
        raise Unspecified
    return x


def value(r, m):
    if m[0] == 'ds':
        d = m[1][0]
        n = d[1] if d[0] == 'fix' else r.choice((0, 1, 2, 3))
        rest = M.array(m[1][1:], m[2])
        return (list, tuple)[r.random() < .3](value(r, rest)
                                              for _ in range(n))
    if m[0] == 'rec':
        if r.random() < .6:
            items = [(n, value(r, t)) for n, t in m[1]]
            r.shuffle(items)
            d = (dict, OrderedDict)[r.random() < .2](items)
            if r.random() < .15:
                d.setdefault('extra', 1)
            return d
        return (list, tuple)[r.random() < .5](value(r, t) for _, t in m[1])
    vs = VALUES.get(m)
    return r.choice(vs) if vs else r.choice(OTHERS)


def flawed(r, v, m):
    """v with one thing changed somewhere, and how deep."""
    k = r.random()
    if isinstance(v, (list, tuple)) and m[0] in ('ds', 'rec'):
        xs = list(v)
        inner = (M.array(m[1][1:], m[2]) if m[0] == 'ds' else None)
        if xs and k < .65:
            i = r.randrange(len(xs))
            t = inner or m[1][i][1]
            xs[i], n = flawed(r, xs[i], t)
            return type(v)(xs), n + 1
        if k < .75 and xs:
            xs.pop(r.randrange(len(xs)))
        elif k < .85:
            xs.append(value(r, inner) if inner else r.choice(OTHERS))
        elif k < .9:
            r.shuffle(xs)
        else:
            return r.choice(OTHERS), 0
        return type(v)(xs), 0
    if isinstance(v, dict) and m[0] == 'rec':
        d = type(v)(v)
        names = [n for n, _ in m[1]]
        if names and k < .65:
            n = r.choice(names)
            d[n], depth = flawed(r, d[n], dict(m[1])[n])
            return d, depth + 1
        if names and k < .85:
            n = r.choice(names)
            x = d.pop(n)
            if r.random() < .5:
                d[n.upper() + '_'] = x
            return d, 0
        return r.choice(OTHERS), 0
    if k < .75:
        return r.choice(VALUES[r.choice(sorted(VALUES, key=repr))]), 0
    return r.choice(OTHERS), 0


def schema(r):
    m = g.measure(r, r.choice((0, 1, 1, 2, 3)))
    if r.random() < .6:
        m = M.array(G.dims(r, ('fix', 'fix', 'var'), 3, small=True), m)
    while M.size(m) >= 25 or volume(m) >= 400:
        m = g.measure(r, r.choice((0, 1)))
    return m


def volume(m):
    n = 1
    for d in M.dims(m):
        n *= max(d[1] if d[0] == 'fix' else 3, 1)
    return n * (1 + sum(map(volume, M.children(M.measure(m)))))


def gen(r):
    k = r.random()
    if k < .12:
        return ('array', r.getrandbits(40))
    if k < .24:
        a = g2.top(r) if r.random() < .9 else printing_alike(r)
        b = a if r.random() < .3 else G.near(r, a, g2) if r.random() < .7 \
            else g2.top(r)
        return ('types', a, b, r.getrandbits(30))
    if k < .27:
        return ('long', r.getrandbits(40))
    return ('value', schema(r), r.getrandbits(40))


def fixed(tier):
    for m in sorted(VALUES, key=repr):
        yield ('all', m)
        yield ('all', ('ds', (('fix', 1),), m))
        yield ('all', ('rec', (('a', m),)))
    for k, (a, b) in enumerate(G.alike()):
        yield ('types', a, b, k)
    for n in (2000, 5000, 12000, 70000):
        for seed in range(12):
            yield ('long', seed, n)


def mutate(r, case):
    if case[0] == 'value':
        m = G.near(r, case[1], g)
        if all(x[0] in ('ct', 'string', 'date', 'time', 'datetime', 'rec', 'ds')
               for x in M.walk(m)) and volume(m) < 400:
            return ('value', plain(m), r.getrandbits(40))
    return gen(r)


def plain(m):
    m = M.rebuild(m, map(plain, M.children(m)))
    if m[0] in ('time', 'datetime'):
        return (m[0], None)
    return ('string', None, m[2]) if m[0] == 'string' else m


def judge(mon, schema, m, v, depth=0):
    try:
        want = ok(m, v)
    except Unspecified:
        mon.outcome(datashape.validate, schema, v)
        return None
    r = random.Random(zlib.crc32(repr(v).encode('utf-8', 'replace')))
    if r.random() < .1:
        v = data.dressed(v, r, scalars=(str, dt.date, dt.time, dt.datetime))
        mon.count('derived classes')
    old = repr(v)
    got = datashape.validate(schema, v)
    mon.check('accepted' if want else 'rejected', bool(got) == want and
              (got is True or not want), schema, v, 'gives', got)
    mon.check('unchanged', repr(v) == old, v)
    if not want and depth > 1:
        mon.count('deep flaw')
    return want


def run_long(mon, r, n=0):
    """Long sequences and wide records, with one flaw at any place."""
    n = n or r.choice((10, 33, 65, 101, 129, 257, 500, 1001))
    t = ('ct', r.choice(CTS)) if r.random() < .7 else g.scalar(r)
    if r.random() < .3 and n < 200:
        m = ('rec', tuple(('f%d' % i, t) for i in range(n)))
    else:
        m = ('ds', (r.choice((('var',), ('fix', n))),), t)
        if r.random() < .3:
            m = ('rec', (('a', t), ('b', m)))
    s = M.build(m, True) if r.random() < .6 else text.spell(m, r)
    x = r.choice(VALUES[t]) if t in VALUES else 1
    v = [x] * n if r.random() < .5 else (x,) * n
    if m[0] == 'rec' and m[1][1:] and m[1][1][1][0] == 'ds':
        wrap = lambda xs: {'b': xs, 'a': x}
    elif m[0] == 'rec' and r.random() < .7:
        wrap = lambda xs: {'f%d' % i: y for i, y in enumerate(xs)}
    else:
        wrap = lambda xs: xs
    judge(mon, s, m, wrap(v))
    for _ in range(3):
        i = r.choice((0, n - 1, r.randrange(n), r.randrange(n)))
        w = list(v)
        w[i] = r.choice(OTHERS)
        judge(mon, s, m, wrap(type(v)(w)))
        judge(mon, s, m, wrap(type(v)(w[:i] + w[i + 1:])))
    mon.count('long')
    mon.seen('long', m, n)


def run(case, mon):
    if case[0] == 'types':
        _, a, b, seed = case
        r = random.Random(seed)
        x = M.build(a, r.random() < .6) if r.random() < .6 else text.spell(a, r)
        y = M.build(b, r.random() < .6) if r.random() < .6 else text.spell(b, r)
        got = datashape.issubschema(x, y)
        mon.check('issubschema' if a == b else 'unequal',
                  bool(got) == (a == b), x, y, 'gives', got)
        got = datashape.issubschema(y, x)
        mon.check('issubschema' if a == b else 'unequal',
                  bool(got) == (a == b), y, x, 'gives', got)
        mon.seen(a, b)
        return
    if case[0] == 'array':
        r = random.Random(case[1])
        d = c12.desc(r, r.choice((0, 0, 1, 2)), 0)
        shp = c18.shape(r)
        try:
            dtype = c12.make(d)
            if dtype.itemsize > 10 ** 5:
                return
            x = np.zeros(shp, dtype)
            m = npref.model_of(x.dtype)
        except (ValueError, MemoryError, npref.Unspecified, npref.Refused):
            return
        m = M.array(tuple(('fix', n) for n in shp), m)
        x = c18.lay(x, r.choice(('C', 'F', 'T', 'step', 'reversed')), r)
        other = G.near(r, m, g)
        k = r.random()
        if k < .3 and M.dims(m):
            i = r.randrange(len(shp))
            ds = M.dims(m)
            other = M.array(ds[:i] + (r.choice((('var',), ('fix', shp[i] + 1),
                                                )),) + ds[i + 1:],
                            M.measure(m))
        for n in (m, other):
            s = M.build(n, True)
            if r.random() < .3:
                s = text.canonical(n)
            got = datashape.validate(s, x)
            mon.check('array' if n == m else 'array rejected',
                      bool(got) == (n == m), s, x.dtype, shp, 'gives', got)
        mon.seen(shp, d)
        return
    if case[0] == 'long':
        return run_long(mon, random.Random(case[1]), *case[2:])
    m = case[1]
    if case[0] == 'all':
        for s in (M.build(m, True), text.canonical(m)):
            for vs in list(VALUES.values()) + [OTHERS]:
                for v in vs:
                    if m[0] == 'ds':
                        v = [v]
                    elif m[0] == 'rec':
                        judge(mon, s, m, [v])
                        v = {'a': v}
                    judge(mon, s, m, v)
        return
    r = random.Random(case[2])
    s = M.build(m, True)
    if r.random() < .4:
        s = text.spell(m, r)
    v = value(r, m)
    judge(mon, s, m, v)
    for _ in range(3):
        w, depth = flawed(r, v, m)
        judge(mon, s, m, w, depth)
    # alternatives
    ms = [schema(r) for _ in range(r.randrange(0, 3))]
    pos = r.randrange(len(ms) + 1)
    ms.insert(pos, m)
    alts = tuple(M.build(x, True) for x in ms)
    try:
        want = any([ok(x, w) for x in ms])
        got = datashape.validate(alts, w)
        mon.check('alternatives', bool(got) == want, alts, w, 'gives', got)
        t = r.choice((int, float, str, list, dict, tuple, dt.date, object,
                      np.ndarray))
        got = datashape.validate(t, w)
        mon.check('python types', bool(got) == isinstance(w, t), t, w)
        got = datashape.validate(alts + (t,), w)
        mon.check('alternatives', bool(got) == (want or isinstance(w, t)),
                  alts, t, w, 'gives', got)
    except Unspecified:
        pass
    mon.seen(m, repr(v))
