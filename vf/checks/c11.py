"""C11: indexing a type gives the type of the indexed data."""
import itertools
import random
import zlib

import datashape
from datashape import coretypes as T

from vf import data, gen as G, model as M, text

RULE = ('random arrays of fixed and var dimensions over measures and records, '
        'indexed by integers, slices, lists, None, names and tuples of these; '
        'all slices with small bounds on all small sizes; subarray for every '
        'number of dimensions; unsupported indices.  Non-trivial: distinct '
        '(type, index) pairs.')
COUNT = {'quick': 60000, 'thorough': 900000}
REQUIRED = ('subshape', 'subarray', 'refused', 'unchanged', 'array-agrees',
            'derived index', 'field twice')
g = G.Gen(arrays=False, most_cats=4)
REFUSED = (TypeError, ValueError, IndexError, KeyError)


class Unspecified(Exception):
    pass


def decode(i):
    """The index object; slices are ('slice', a, b, c)."""
    if isinstance(i, tuple):
        if i and i[0] == 'slice':
            return slice(*i[1:])
        return tuple(map(decode, i[1:]))          # ('tuple', ...)
    return list(i) if isinstance(i, list) else i


def selected(size, a, b, c):
    """The number of elements a slice selects, sizes being unbounded."""
    c = 1 if c is None else c

    def clip(x, default):
        if x is None:
            return default
        if x < 0:
            x += size
        low, high = (0, size) if c > 0 else (-1, size - 1)
        return min(max(x, low), high)
    if c > 0:
        a, b = clip(a, 0), clip(b, size)
        return max(0, (b - a + c - 1) // c)
    a, b = clip(a, size - 1), clip(b, -1)
    return max(0, (a - b - c - 1) // -c)


def index(m, i):
    """The type of data of type m indexed by i."""
    ds, x = M.dims(m), M.measure(m)
    if isinstance(i, tuple) and i[0] == 'tuple':
        parts = i[1:]
        if not parts:
            return m
        if parts[0] is None:
            return M.array((('fix', 1),), index(m, ('tuple',) + parts[1:]))
        if len(parts) == 1:
            return index(m, parts[0])
        if not ds:
            raise Unspecified
        rest = index(M.array(ds[1:], x), ('tuple',) + parts[1:])
        return index(M.array(ds[:1], rest), parts[0])
    if ds:
        rest = M.array(ds[1:], x)
        if isinstance(i, int):
            return rest
        if isinstance(i, list):
            return M.array((('fix', len(i)),), rest)
        if isinstance(i, tuple):
            a, b, c = i[1:]
            if ds[0][0] == 'fix':
                n = selected(ds[0][1], a, b, c)
                return M.array((('fix', n),), rest)
            if a is None and (c is None or c > 0):
                a = 0
            if a is not None and b is not None and a >= 0 and b >= 0:
                n = selected(max(a, b) + 1, a, b, c)
                return M.array((('fix', n),), rest)
            return M.array((('var',),), rest)
        raise Unspecified
    if x[0] != 'rec':
        raise Unspecified
    fs = x[1]
    if isinstance(i, str):
        return dict(fs)[i]
    if isinstance(i, int):
        return fs[i][1]
    if isinstance(i, list):
        d = dict(fs)
        return ('rec', tuple((k, d[k]) if isinstance(k, str) else fs[k]
                             for k in i))
    return ('rec', fs[slice(*i[1:])])


for _n in range(5):
    for _a, _b, _c in itertools.product((None, -3, 0, 1, 2, 7), (
            None, -9, -1, 0, 2, 5), (None, 1, 2, 3, -1, -2, -3)):
        assert selected(_n, _a, _b, _c) == len(range(_n)[_a:_b:_c])


def fixed(tier):
    i32 = ('ct', 'int32')
    b = (None, -9, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9)
    steps = (None, 1, 2, 3, 5, -1, -2, -3, -5)
    for n in range(0, 5) if tier == 'quick' else range(0, 9):
        for a, c, s in itertools.product(b, b, steps):
            yield ('i', ('ds', (('fix', n),), i32), ('slice', a, c, s))
    for a, c, s in itertools.product(b, b, steps):
        yield ('i', ('ds', (('var',),), i32), ('slice', a, c, s))
    rec = ('rec', (('a', i32), ('b c', ('ds', (('var',),), i32)),
                   ('d', ('rec', (('x', i32),))), ('a2', ('bytes',))))
    for a, c, s in itertools.product((None, -5, -1, 0, 1, 2, 4, 9), (
            None, -5, -1, 0, 1, 2, 4, 9), (None, 1, 2, -1, -2)):
        yield ('i', rec, ('slice', a, c, s))
        yield ('i', ('ds', (('fix', 3),), rec), ('tuple', ('slice', None, None,
                                                           None),
                                                 ('slice', a, c, s)))
    for n in range(-4, 4):
        yield ('i', rec, n)
    for i in ('a', 'b c', 'd', 'a2', [], ['a'], ['d', 'a'], [0, 'a2'], [3, 1],
              [-1], ['a2', 'd', 'b c', 'a']):
        yield ('i', rec, i)
    for n in range(0, 8):
        m = M.array(tuple(('fix', k) if k % 2 else ('var',)
                          for k in range(n)), rec)
        for k in range(0, n + 4):
            yield ('s', m, k)


def bound(r, n=None):
    k = r.random()
    if k < .25:
        return None
    if k < .8:
        return r.randrange(-7, 8)
    if n is not None and k < .9:
        return r.choice((n, n - 1, n + 1, -n, -n - 1, -n + 1, n // 2))
    return r.choice((1, -1)) * G.nat(r)


def sl(r, n=None):
    s = r.choice((None, None, 1, 1, 2, 3, -1, -1, -2, 7, 10 ** 6, -100))
    return ('slice', bound(r, n), bound(r, n), s)


def axis(r, d):
    k = r.random()
    n = d[1] if d[0] == 'fix' else 5
    if k < .3:
        if d[0] == 'fix' and n == 0:
            return sl(r, n)
        return r.randrange(-n, n) if n < 2 ** 40 else r.randrange(5)
    if k < .8:
        return sl(r, d[1] if d[0] == 'fix' else None)
    return [r.randrange(max(n, 1)) if n < 2 ** 40 else 0
            for _ in range(G.count(r, (0, 1, 2, 3, 5), grows=True))] if n else []


def field(r, x):
    fs = x[1]
    k = r.randrange(4)
    if not fs:
        return sl(r, 0)
    if k == 0:
        return r.choice(fs)[0]
    if k == 1:
        return r.randrange(-len(fs), len(fs))
    if k == 2:
        picks = r.sample(range(len(fs)), r.randrange(0, len(fs) + 1))
        return [fs[i][0] if r.random() < .5 else i - len(fs)
                if r.random() < .3 else i for i in picks]
    return sl(r, len(fs))


def gen(r):
    n = G.count(r, (0, 1, 1, 1, 2, 2, 3, 4), grows=True)
    n = min(n, 100)
    ds = tuple(G.dim(r, ('fix', 'fix', 'var'), r.random() < .6)
               for _ in range(n))
    x = g.measure(r, 2) if r.random() < .4 else ('rec', tuple(
        (s, g.any(r, 1)) for s in sorted({
            g.name(r) for _ in range(r.randrange(0, 6) if not G.big(r)
                                     else G.size(r))})))
    m = M.array(ds, x)
    if r.random() < .15:
        return ('s', m, r.randrange(0, n + 3))
    if r.random() < .12:
        return ('bad', m, r.choice(sorted(BAD)))
    if x[0] == 'rec' and x[1] and r.random() < .06:
        picks = [r.randrange(len(x[1])) for _ in range(r.randrange(1, 5))]
        picks.insert(r.randrange(len(picks)), r.choice(picks))
        return ('twice', m, [x[1][i][0] if r.random() < .5 else
                             i - len(x[1]) if r.random() < .3 else i
                             for i in picks])
    if n and r.random() < .4:
        return ('i', m, axis(r, ds[0]))
    if not n and x[0] == 'rec' and r.random() < .5:
        return ('i', m, field(r, x))
    parts = ['tuple']
    k = r.randrange(0, n + 1)
    for d in ds[:k]:
        if r.random() < .15:
            parts.append(None)
        parts.append(axis(r, d))
    if r.random() < .15:
        parts.append(None)
    if k == n and x[0] == 'rec' and r.random() < .7:
        parts.append(field(r, x))
    return ('i', m, tuple(parts))


BAD = {'float': 1.5, 'dict': {}, 'object': object(), 'bytes': b'a',
       'set': frozenset(), 'none-name': 'no such field \u2603',
       'type': int, 'complex': 1j, 'list-name': ['no such field \u2603'],
       'beyond': 10 ** 6}


def run(case, mon):
    kind, m, i = case
    t = M.build(m, True)
    before = (M.of(t), str(t), hash(t))
    if kind == 's':
        n = len(M.dims(m))
        if i > n:
            mon.refused('refused', IndexError, t.subarray, i, detail=(t, i))
            mon.refused('refused', IndexError, M.build(M.measure(m)).subarray,
                        max(i, 1), detail=(t, i))
        else:
            want = M.array(M.dims(m)[i:], M.measure(m))
            got = t.subarray(i)
            mon.check('subarray', M.of(got) == want and type(got) is
                      T.DataShape and got == M.build(want), got, 'expected',
                      want)
            x = M.build(M.measure(m))
            mon.check('subarray', x.subarray(0) == x, x)
    elif kind == 'bad':
        bad = BAD[i]
        if i in ('none-name', 'list-name') and M.dims(m):
            if i == 'list-name':
                return
        if i == 'beyond':
            if M.dims(m):
                return
        mon.refused('refused', REFUSED, lambda: t.subshape[bad],
                    detail=(t, i))
        mon.refused('refused', REFUSED, lambda: t.subshape[
            (slice(None),) * (len(M.dims(m)) + 1) + (0,)], detail=(t, i))
    elif kind == 'twice':
        # a record cannot have a field twice
        j = i
        if M.dims(m):
            j = (slice(None),) * len(M.dims(m)) + (i,)
        mon.refused('field twice', REFUSED, lambda: t.subshape[j],
                    detail=(t, i))
    else:
        try:
            want = index(m, i)
        except Unspecified:
            return
        j = decode(i)
        got = t.subshape[j]
        mon.check('subshape', M.of(got) == want, t, 'indexed by', decode(i),
                  'gives', got, 'expected', want)
        mon.check('unchanged', repr(j) == repr(decode(i)), j, decode(i))
        seed = zlib.crc32(repr(case).encode('utf-8', 'replace'))
        if seed % 8 == 0:       # of a derived class, as its names and numbers
            j = data.dressed(j, random.Random(seed))
            got = t.subshape[j]
            mon.check('derived index', M.of(got) == want, t, 'indexed by', j,
                      'gives', got, 'expected', want)
        mon.check('subshape', got == M.build(want) and
                  hash(got) == hash(M.build(want)), got)
        mon.check('subshape', str(datashape.dshape(got)) ==
                  str(M.build(want, True)), got)
        # the fixed dimensions against a real array
        ds = M.dims(m)
        if all(d[0] == 'fix' and d[1] < 20 for d in ds) and len(ds) < 5 and \
                M.dims(want) is not None:
            parts = i[1:] if isinstance(i, tuple) and i[0] == 'tuple' else (i,)
            parts = [p for p in parts if not isinstance(p, (str,))]
            axes = sum(p is not None for p in parts)
            lists = sum(isinstance(p, list) for p in parts)
            if axes <= len(ds) and not lists and M.measure(m)[0] == 'ct':
                import numpy as np
                a = np.zeros([d[1] for d in ds], np.int8)
                shape = a[tuple(map(decode, parts))].shape
                mon.check('array-agrees', tuple(
                    d[1] for d in M.dims(want)) == shape, want, shape)
    mon.check('unchanged', (M.of(t), str(t), hash(t)) == before, t)
    mon.seen(m, repr(i))
