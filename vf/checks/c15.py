"""C15: a discovered type describes the data it was discovered from."""
import random
import zlib

import datashape

from vf import data, gen as G, model as M
from vf.checks import c16

RULE = ('random nests of lists, tuples, sets, dictionaries, ordered '
        'dictionaries and scalars, ragged and regular, homogeneous and mixed, '
        'with missing values anywhere; regular nests of one scalar type.  '
        'Non-trivial: distinct values.')
BIG = (160, 1100)
COUNT = {'quick': 120000, 'thorough': 1800000}
REQUIRED = ('describes', 'value unchanged', 'regular', 'mapping', 'fixed size',
            'var', 'component', 'scalar', 'widened', 'missing', 'record keys',
            'fits option', 'set of several types', 'derived classes', 'merged',
            'merged rows', 'long')

HASHABLE = ('int', 'float', 'str', 'bool', 'date', 'datetime', 'time',
            'timedelta', 'complex', 'bytes', 'none')


def value(r, depth, kinds=data.SCALARS, hashable=False):
    k = r.random()
    if depth <= 0 or k < .15:
        return data.scalar(r, kinds)
    if hashable:
        q = r.choice('TF')
    else:
        q = r.choice('LLLLTTTSFDDDO') if r.random() < .97 else 'P'
    n = G.count(r, (0, 1, 1, 2, 2, 3, 3, 4, 6), 40, grows=depth > 1)
    if n > 6:
        depth = min(depth, 2)
    if q in 'SF':       # their members are matched in any order
        n = min(n, 60)
    if q in data.MAPS:
        names = data.names(r, n)
        return (q,) + tuple((s, value(r, depth - 1, kinds)) for s in names)
    inner = hashable or q in 'SF'
    return (q,) + tuple(items(r, n, depth - 1, kinds, inner))


def items(r, n, depth, kinds, hashable):
    k = r.random()
    if k < .3:      # unrelated
        return [value(r, depth, kinds, hashable) for _ in range(n)]
    if k < .45:     # one kind of scalar
        ks = (r.choice(kinds),) + (('none',) if r.random() < .4 else ())
        return [data.scalar(r, ks) for _ in range(n)]
    if k < .6:
        return [data.scalar(r, kinds) for _ in range(n)]
    first = value(r, depth, kinds, hashable)
    if k < .75:     # alike but for one of them
        out = [first if r.random() < .7 else again(r, first)
               for _ in range(n)]
        if n > 1:
            i = r.choice((n - 1, n - 1, r.randrange(n)))
            out[i] = like(r, first, kinds) if r.random() < .6 else \
                value(r, depth, kinds, hashable)
        return out
    out = [first]
    for _ in range(n - 1):
        out.append(like(r, first, kinds))
    return out[:n]


def again(r, x):
    """Another value of the same types."""
    if x[0] in data.SEQ:
        return (x[0],) + tuple(again(r, y) for y in x[1:])
    if x[0] in data.MAPS:
        return (x[0],) + tuple((n, again(r, y)) for n, y in x[1:])
    return data.scalar(r, (x[0],)) if x[0] in ('int', 'float', 'date') else x


def like(r, x, kinds):
    """A value of (mostly) the same form."""
    k = r.random()
    if k < .04:
        return ('none', 0)
    if x[0] in data.SEQ:
        xs = [like(r, y, kinds) for y in x[1:]]
        if k < .12 and xs:
            xs.pop(r.randrange(len(xs)))
        elif k < .2 and xs:
            xs.append(like(r, r.choice(x[1:]), kinds))
        return (x[0] if k < .95 or x[0] not in 'LT' else 'LT'[x[0] == 'L'],
                ) + tuple(xs)
    if x[0] in data.MAPS:
        xs = [(n, like(r, y, kinds)) for n, y in x[1:]]
        if k < .3:
            r.shuffle(xs)
        if k < .15 and xs:
            xs.pop()
        elif k > .9:
            s = G.ident(r)
            if s not in [n for n, _ in xs]:
                xs.append((s, data.scalar(r, kinds)))
        return (x[0],) + tuple(xs)
    return data.scalar(r, (x[0],) if k < .8 and x[0] in kinds else kinds)


def regular(r):
    shape = [r.choice((1, 1, 2, 2, 3, 4)) for _ in range(r.choice(
        (1, 2, 2, 3, 4)))]
    kind = r.choice([k for k in data.SCALARS if k not in ('str', 'none')] +
                    ['i4', 'f4', 'u1', 'i2'])
    return ('regular', tuple(shape), kind, r.getrandbits(30))


def ragged(r):
    """Sequences of one element type and several lengths."""
    kinds = (r.choice([k for k in data.SCALARS if k != 'str']),) \
        if r.random() < .7 else ('int', 'float', 'none')
    row = [data.scalar(r, kinds) for _ in range(r.choice((1, 1, 2, 3)))]
    x = row[0] if r.random() < .6 else (r.choice('LT'),) + tuple(row)
    for _ in range(r.choice((1, 1, 2))):
        x = (r.choice('LT'),) + tuple(
            (r.choice('LT'),) + tuple(again(r, x) for _ in range(
                r.choice((1, 1, 2, 3, 5))))
            for _ in range(r.choice((2, 2, 3, 4))))
    if r.random() < .3:         # rows alike
        x = (r.choice('LT'),) + tuple(again(r, x) for _ in range(
            r.choice((1, 2, 2, 3, 5))))
    return x


def gen(r):
    if r.random() < .1:
        return regular(r)
    if r.random() < .04:
        return ('value', clean(ragged(r)))
    x = value(r, r.choice((1, 2, 2, 3, 4)))
    if x[0] not in data.SEQ and x[0] not in data.MAPS:
        x = ('L', x, data.scalar(r))
    return ('value', clean(x))


def mutate(r, case):
    if case[0] == 'regular':
        return regular(r)
    if case[0] == 'long':
        return gen(r)
    x = like(r, case[1], data.SCALARS)
    if r.random() < .3:
        x = (r.choice('LT'), x, like(r, x, data.SCALARS))
    if x[0] not in data.SEQ and x[0] not in data.MAPS:
        x = ('L', x)
    return ('value', clean(x))


def clean(x, hashable=False):
    """Sets hold hashable values only, and no text whose unit is unspecified."""
    if x[0] in data.SEQ:
        k = {'L': 'T', 'S': 'F'}.get(x[0], x[0]) if hashable else x[0]
        inner = hashable or k in 'SF'
        return (k,) + tuple(clean(y, inner) for y in x[1:])
    if x[0] in data.MAPS:
        if hashable:
            return ('T',) + tuple(clean(y, True) for _, y in x[1:])
        return (x[0],) + tuple((n, clean(y)) for n, y in x[1:])
    if data.base(x) is None:
        return ('none', 0)
    return x


def fixed(tier):
    for s in (('L',), ('T',), ('S',), ('F',), ('D',), ('O',), ('P',),
              ('L', ('L',)), ('L', ('L',), ('L',)), ('L', ('T',), ('T',)),
              ('L', ('D',)), ('L', ('D',), ('D',)), ('L', ('L',), ('int', 1)),
              ('L', ('none', 0)), ('L', ('none', 0), ('L', ('int', 1))),
              ('D', ('a', ('none', 0))), ('L', ('none', 0), ('D',)),
              ('L', ('D',), ('D', ('a', ('int', 1)))),
              ('L', ('L', ('int', 1)), ('L', ('int', 1), ('int', 2))),
              ('L', ('L', ('none', 0)), ('L', ('L', ('int', 1)))),
              ('L', ('D', ('a', ('L', ('int', 1)))),
               ('D', ('a', ('L', ('int', 1), ('int', 2))))),
              ('L', ('D', ('a', ('D', ('b', ('int', 1))))),
               ('D', ('a', ('none', 0)))),
              ('S', ('T', ('int', 1), ('str', 'a')))):
        yield ('value', s)
    one, two = ('int', 1), ('float', '1.5')
    pairs = [(('L', one, one), ('L', one)), (('L', one, one), ('L',)),
             (('L', one, one), ('T', one, two)),
             (('L', one, one), ('L', one, ('none', 0))),
             (('L', one), ('L', ('L', one))), (('L', one), one),
             (('D', ('a', one)), ('D', ('b', one))),
             (('D', ('a', one)), ('D', ('a', one), ('b', ('L', one)))),
             (('D', ('a', ('L', one))), ('D', ('a', ('L', one, one)))),
             (('D', ('a', ('D', ('b', one)))), ('D', ('a', ('D',))))]
    for i, (n, (x, y)) in enumerate(
            (n, p) for n in (2000, 5000, 12000, 70000) for p in pairs):
        yield ('long', n, x, y, (n - 1, n // 2, n - n // 7)[i % 3])


class Check(object):
    def __init__(self, mon):
        self.mon, self.keys = mon, {}

    def conforms(self, v, m, at=()):
        """What is wrong with m as the description of the value v."""
        mon, k = self.mon, m[0]
        if k == 'opt':
            if is_missing(v):
                mon.count('missing')
                return None
            mon.count('fits option')
            return self.conforms(v, m[1], at + ('?',))
        if k == 'ds':
            if not isinstance(v, (list, tuple, set, frozenset)):
                return 'no sequence at %r: %r' % (at, v)
            d = m[1][0]
            if d[0] == 'fix':
                mon.count('fixed size')
                if d[1] != len(v):
                    return 'size %d at %r of %r' % (d[1], at, v)
            elif d[0] == 'var':
                mon.count('var')
            else:
                return 'dimension %r' % (d,)
            rest = M.array(m[1][1:], m[2])
            for x in v:
                bad = self.conforms(x, rest, at + ('*',))
                if bad:
                    return bad
            return None
        if k == 'tup':
            if not isinstance(v, (list, tuple, set, frozenset)) or \
                    len(v) != len(m[1]):
                return 'tuple of %d at %r for %r' % (len(m[1]), at, v)
            if isinstance(v, (set, frozenset)):
                return self.any_order(list(v), m[1], at)
            for i, (x, t) in enumerate(zip(v, m[1])):
                mon.count('component')
                bad = self.conforms(x, t, at + (i,))
                if bad:
                    return bad
            return None
        if k == 'rec':
            if not hasattr(v, 'keys'):
                return 'record at %r for %r' % (at, v)
            names = [n for n, _ in m[1]]
            if not set(v) <= set(names):
                return 'record %r at %r for %r' % (names, at, v)
            self.keys.setdefault(at, (set(), set(names)))[0].update(v)
            for n, t in m[1]:
                if n in v:
                    bad = self.conforms(v[n], t, at + (n,))
                elif t[0] not in ('opt', 'null'):
                    bad = 'field %r at %r is not optional' % (n, at)
                else:
                    bad = None
                if bad:
                    return bad
            return None
        if k == 'null':
            mon.count('missing')
            return None if is_missing(v) else 'null at %r for %r' % (at, v)
        if isinstance(v, (list, tuple, set, frozenset)) or hasattr(v, 'keys'):
            return 'scalar at %r for %r' % (at, v)
        if is_missing(v):
            return 'not optional at %r: %r' % (at, m)
        t = scalar_type(v)
        mon.count('scalar')
        if t == m:
            return None
        mon.count('widened')
        return None if m in data.widens(t) else \
            '%r at %r for %r' % (m, at, v)


    def any_order(self, vs, ts, at):
        """Do the types describe the members of a set, in some order?"""
        self.mon.count('set of several types')
        fits = [[self.conforms(v, t, at + (i,)) is None
                 for i, t in enumerate(ts)] for v in vs]
        owner = {}

        def place(j, tried):
            for i, ok in enumerate(fits[j]):
                if ok and i not in tried:
                    tried.add(i)
                    if i not in owner or place(owner[i], tried):
                        owner[i] = j
                        return True
            return False
        for j, v in enumerate(vs):
            if not place(j, set()):
                return 'no type left at %r for %r' % (at, v)
        return None


def merged(v, m, mon):
    """Arrays of one element type but several lengths are one array."""
    if not isinstance(v, (list, tuple, set, frozenset)):
        return
    if all(isinstance(x, (list, tuple)) for x in v) and \
            len(set(map(len, v))) > 1:
        ms = [M.of(datashape.discover(x)) for x in v]
        if all(M.dims(x) for x in ms):
            rests = set(M.array(M.dims(x)[1:], M.measure(x)) for x in ms)
            if len(rests) == 1:
                rest, = rests
                want = M.array((('fix', len(v)), ('var',)) + M.dims(rest),
                               M.measure(rest))
                mon.check('merged', m == want, v, 'gives', m, 'expected', want)
    elif isinstance(v, (list, tuple)) and v and all(
            isinstance(x, (list, tuple)) for x in v) and len(v[0]) > 1:
        # rows alike
        rows = [[M.of(datashape.discover(y)) for y in x] for x in v]
        ms = rows[0]
        if all(x == ms for x in rows) and all(M.dims(x) for x in ms) and \
                len(set(M.array(M.dims(x)[1:], M.measure(x)) for x in ms)
                    ) == 1 and len(set(M.dims(x)[0] for x in ms)) > 1:
            want = M.array((('fix', len(v)), ('fix', len(ms)), ('var',)) +
                           M.dims(ms[0])[1:], M.measure(ms[0]))
            mon.check('merged', m == want, v, 'gives', m, 'expected', want)
            mon.count('merged rows')
    for x in v:
        if isinstance(x, (list, tuple)) and len(x) < 9:
            merged(x, M.of(datashape.discover(x)), mon)


def is_missing(v):
    return v is None or isinstance(v, str) and v == '' or v is datashape.null


def scalar_type(v):
    import numpy as np
    if isinstance(v, str):
        return c16.classify(v)[1]
    for k, t in data.NP.items():
        if type(v) is np.dtype(k).type:
            return t
    for c in type(v).__mro__:
        name = 'none' if c is type(None) else c.__name__
        if name in c16.VALUES:
            return c16.VALUES[name]


def run(case, mon):
    if case[0] == 'regular':
        r = random.Random(case[3])
        shape, kind = case[1], case[2]

        def make(i):
            if i == len(shape):
                return data.scalar(r, (kind,))
            return (r.choice('LT'),) + tuple(make(i + 1)
                                             for _ in range(shape[i]))
        x = make(0)
        y = x
        while y[0] in data.SEQ:
            y = y[1]
        want = M.array(tuple(('fix', n) for n in shape), data.base(y))
        v = data.decode(x)
        if r.random() < .2:
            v = data.dressed(v, r)
        got = datashape.discover(v)
        mon.check('regular', M.of(got) == want, x, 'gives', got)
        mon.seen(shape, kind)
        return
    if case[0] == 'long':       # one odd element among many
        _, n, x, y, at = case
        v = [data.decode(x) for _ in range(n)]
        v[at] = data.decode(y)
        t = datashape.discover(v)
        m = M.of(t)
        c = Check(mon)
        bad = c.conforms(v, m)
        mon.check('long', bad is None, str(bad)[:300], ':', n, 'of', x,
                  'with', y, 'at', at, 'give', repr(m)[:300])
        for where, (used, names) in c.keys.items():
            mon.check('record keys', used == names, names, 'at', where)
        mon.seen(n, x, y)
        return
    x = case[1]
    v = data.decode(x)
    seed = zlib.crc32(repr(x).encode('utf-8', 'replace'))
    if seed % 8 == 0:   # the same from instances of derived classes
        v = data.dressed(v, random.Random(seed))
        mon.count('derived classes')
    old = snapshot(v)
    t = datashape.discover(v)
    m = M.of(t)
    c = Check(mon)
    bad = c.conforms(v, m)
    mon.check('describes', bad is None, bad, ':', v, 'gives', t)
    if len(repr(x)) < 1500:
        merged(v, m, mon)
    for at, (used, names) in c.keys.items():
        mon.check('record keys', used == names, names, 'at', at, 'of', v)
    mon.check('value unchanged', snapshot(v) == old, v)
    if x[0] in data.MAPS:
        names = list(v) if x[0] == 'O' else sorted(v)
        want = ('rec', tuple((n, M.of(datashape.discover(v[n])))
                             for n in names))
        mon.check('mapping', m == want, v, 'gives', t, 'expected', want)
    mon.seen(x)


def snapshot(v):
    """The value with the identities of its containers."""
    if isinstance(v, (list, tuple)):
        return (id(v), [snapshot(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return (id(v), sorted(repr(x) for x in v))
    if hasattr(v, 'keys'):
        return (id(v), [(k, snapshot(v[k])) for k in v])
    return (id(v), repr(v))
