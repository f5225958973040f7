"""C13: types are exported to NumPy faithfully or refused."""
import datashape
from datashape import coretypes as T
import numpy as np

from vf import gen as G, model as M, npref

RULE = ('random types, mostly of parts NumPy knows, with no or one '
        'inexpressible part at a random place; every scalar type.  '
        'Non-trivial: distinct types exported or refused.')
COUNT = {'quick': 200000, 'thorough': 4000000}
REQUIRED = ('shape', 'dtype', 'refused', 'dtype only', 'item size',
            'sub-arrays', 'integral decimals', 'numpy data', 'any length')
FIXED = ('fix',)
g = G.Gen(kinds=('ct', 'ct', 'ct', 'date', 'datetime', 'timedelta', 'string',
                 'string', 'decimal', 'rec', 'rec', 'rec', 'tup', 'opt'),
          dims=FIXED, small=True)
wild = G.Gen(most_cats=3)


class Sane(G.Gen):
    """Options over what NumPy can mark as missing only, mostly."""

    def measure(self, r, depth):
        m = G.Gen.measure(self, r, depth)
        if m[0] == 'opt' and r.random() < .95:
            return ('opt', self.scalar(r, r.choice(('date', 'datetime',
                                                    'timedelta'))))
        return m


sane = Sane(kinds=g.kinds, dims=FIXED, small=True)


def fixed(tier):
    for n in M.CT_NAMES:
        yield ('ct', n)
        yield ('opt', ('ct', n))
        yield ('ds', (('fix', 3), ('tv', 'N')), ('ct', n))
    for p in range(0, 45):
        for s in (0, 1, 2, 5, -1):
            yield ('decimal', p, s)
    for n in list(range(0, 300)) + [2 ** 29 - 1, 2 ** 29, 2 ** 31 - 1, 2 ** 31,
                                    2 ** 32, 2 ** 63, 2 ** 64, 10 ** 30]:
        for e in G.ENCODINGS:
            yield ('string', n, e)
    for u in G.UNITS:
        yield ('timedelta', u)
        yield ('opt', ('timedelta', u))
    for x in (('null',), ('date',), ('time', None), ('datetime', None),
              ('datetime', 'UTC'), ('bytes',), ('json',), ('tv', 'T'),
              ('units', 'm', ('ct', 'int8')), ('fn', (), ('ct', 'int8')),
              ('cat', ('a',), ('string', None, 'U8'), False),
              ('string', None, 'U8'), ('string', None, 'A'), ('rec', ()),
              ('tup', ())):
        for y in (x, ('opt', x), ('rec', (('a', x),)), ('tup', (x,)),
                  ('rec', (('a', ('ct', 'int8')), ('b', ('opt', x)))),
                  ('ds', (('fix', 2),), x), ('ds', (('var',),), x),
                  ('ds', (('ell', None),), x), ('ds', (('ell', 'A'),), x),
                  ('ds', (('tv', 'A'),), x),
                  ('rec', (('a', ('ds', (('fix', 2), ('fix', 0)), x)),)),
                  ('rec', (('a', ('ds', (('var',),), x)),)),
                  ('rec', (('a', ('ds', (('tv', 'A'),), x)),)),
                  ('rec', (('a', ('rec', (('b', x),))),)),
                  ('opt', ('ds', (('fix', 2),), x)), ('opt', ('opt', x))):
            yield y
    # field by field expressible, too large (or just not) together
    big = 1500000000

    def block(n):
        return ('ds', (('fix', n),), ('ct', 'int8'))
    for n in (647483646, 647483647, 647483648, big):
        x = block(big), block(n)
        two = ('rec', (('a', x[0]), ('b', x[1])))
        for y in (two, ('tup', x), ('rec', (('a', two),)),
                  ('rec', (('a', x[0]), ('b', ('tup', (x[1],))))),
                  ('tup', (block(1), block(big - 1), x[1]))):
            yield y
    for n in (1, 2 ** 28 - 1, 2 ** 28, 2 ** 29 - 1):
        for e in G.ENCODINGS:
            x = ('string', n, e), ('string', 2 ** 28, e)
            yield ('tup', x)
            yield ('rec', (('a', x[0]), ('b', x[1]), ('c', ('ct', 'int8'))))


def gen(r):
    k = r.random()
    if k < .12:
        return wild.top(r)
    m = sane.measure(r, r.choice((0, 1, 1, 2, 2, 3))) if not G.big(r) else \
        M.measure(sane.big(r))
    if r.random() < .7:
        m = M.array(G.dims(r, r.choice((FIXED, FIXED, ('fix', 'tv'),
                                        ('fix', 'tv', 'var', 'ell')))), m)
    if k < .45:
        p = r.choice(list(M.paths(m)))
        m2 = M.replace(m, p, r.choice((
            wild.measure(r, 1), M.array(G.dims(r, most=2), M.at(m, p)),
            M.array(G.dims(r, ('fix',)), M.at(m, p)),
            ('opt', M.at(m, p)))))
        if not any(sum(d[0] == 'ell' for d in M.dims(x)) > 1
                   for x in M.walk(m2)):
            m = m2
    return m


def mutate(r, case):
    return G.near(r, case, sane if r.random() < .8 else wild)


def decimals(m):
    return any(x[0] == 'decimal' and not x[2] for x in M.walk(m))


def run(m, mon):
    t = M.build(m, bool(len(repr(m)) % 2))
    ds, x = M.dims(m), M.measure(m)
    before = (M.of(t), str(t))
    try:
        npref.check_dtype(x, None)
        ok = True
    except AttributeError:
        ok = True
    except npref.Refused:
        ok = False
    except npref.Unspecified:
        mon.outcome(datashape.to_numpy, t)
        return
    if len(ds) > 32:
        return
    if not ok:
        mon.refused('refused', TypeError, datashape.to_numpy, t)
        mon.refused('refused', TypeError, datashape.to_numpy_dtype, t)
    else:
        dt = datashape.to_numpy_dtype(t)
        mon.check('dtype only', isinstance(dt, np.dtype) and
                  npref.check_dtype(x, dt) is None, t, 'gives', dt)
        if any(d[0] in ('var', 'ell') for d in ds):
            mon.refused('refused', TypeError, datashape.to_numpy, t)
        else:
            shape, dt = datashape.to_numpy(t)
            mon.check('shape', shape == tuple(
                d[1] if d[0] == 'fix' else -1 for d in ds) and
                all(type(n) is int for n in shape), t, 'gives', shape)
            bad = isinstance(dt, np.dtype) and npref.check_dtype(x, dt)
            mon.check('dtype', bad is None, t, 'gives', dt, bad)
            if x[0] == 'string' and x[1] is None:
                # as h5py tells text of any length from other objects
                mon.check('any length', dt.kind == 'O' and dt.metadata and
                          dt.metadata.get('vlen') is str, t, dt, dt.metadata)
            mon.count('sub-arrays', int(dt.names is not None and any(
                f[0].subdtype for f in dt.fields.values())))
            mon.count('integral decimals', int(decimals(x)))
            # the export describes an array of the type
            if all(d[0] == 'fix' and d[1] < 6 for d in ds) and \
                    len(ds) < 4 and dt.itemsize < 4000:
                a = np.empty(shape, dt)
                mon.check('numpy data', a.shape == shape and
                          (dt.itemsize == 0 or a.dtype == dt), t, a.dtype)
        if x[0] == 'ct':
            o = M.build(x)
            mon.check('item size', o.itemsize == dt.itemsize and
                      T.Option(o).itemsize == dt.itemsize, o, o.itemsize)
            mon.check('item size', o.alignment <= max(o.itemsize, 1) and
                      (o.alignment == dt.alignment or x[1] in (
                          'void', 'char')), o, o.alignment)
    mon.check('dtype', (M.of(t), str(t)) == before, t)
    mon.seen(m)
