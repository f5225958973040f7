"""C33: nothing a call was given, made or returned is kept alive by the library.

The same operation is called on fresh, different arguments over and over; after
each batch everything is dropped and collected, and the memory blocks the
process holds and the objects the collector knows are counted.  Bounded caches
are allowed: only growth that goes on for thousands of calls is a leak.
"""
import collections
import gc
import pickle
import random
import sys
import weakref

import numpy as np

import datashape
from datashape import coretypes as T, parser, type_symbol_table as S, typesets
from datashape.util import testing

from vf import badtext, data, gen as G, model as M, text
from vf.checks import c32

RULE = ('an operation, called hundreds of times on types, texts, values, '
        'arrays and tables made anew and all different, its results dropped, '
        'and refused calls among them; a suspect is called up to 12000 times '
        'more.  Non-trivial: distinct (operation, arguments).')
BIG = (0, 0)
COUNT = {'quick': 240, 'thorough': 9000}
REQUIRED = ('flat', 'released', 'returned', 'given', 'refused')
BATCH, BATCHES, MORE = 250, 3, 48
RATE = .25              # blocks per call, less than which is noise

g = G.Gen(most_cats=3)
h = G.Gen(kinds=('ct', 'ct', 'string', 'date', 'bytes', 'timedelta', 'decimal',
                 'rec', 'tup', 'opt'), dims=('fix', 'var'), small=True)


class List(list):
    pass


class Dict(dict):
    pass


class Text(str):
    pass


class Thing(object):
    def __init__(self, n):
        self.n = n


@datashape.discover.register(Thing)
def _thing(x):
    return T.Record([('thing%d' % x.n, T.int8)])


@datashape.validate.register(T.JSON, Thing)
def _validate_thing(schema, x):
    return x.n % 2 == 0


COUNTER = [0]


def unique():
    COUNTER[0] += 1
    return COUNTER[0]


def model(r, gg=g):
    """A model that was never made before."""
    m = gg.any(r, r.choice((0, 1, 1, 2)))
    k = unique()
    q = r.random()
    if q < .2:
        m = r.choice((('string', k, r.choice(('A', 'U8', 'U32'))),
                      ('time', 'zone %d' % k), ('datetime', 'zone %d' % k),
                      ('decimal', k, 2), ('units', 'unit%d' % k, ('date',)),
                      ('tv', 'A%d' % k),
                      ('cat', ('c%d' % k,), ('ct', 'int8'), False)))
        return m if r.random() < .7 else ('opt', m)
    if q < .4:
        return ('rec', (('field%d' % k, m), ('b', ('ct', 'int8'))))
    if q < .55:
        return M.array((('fix', k),), m)
    if q < .7:
        return ('tup', (('string', k, 'U8'), m))
    if q < .8:
        return ('map', ('string', k, 'A'), m)
    return ('rec', (('b', m), ('a', ('ds', (('fix', k), ('var',)),
                                     ('ct', 'float64')))))


def value(r):
    k = unique()
    q = r.random()
    s = data.decode(data.scalar(r))
    if q < .25:
        return Dict([('key%d' % k, s), ('b', 'text %d' % k)])
    if q < .5:
        return List([s, 'text %d' % k, {'key%d' % k: k}])
    if q < .65:
        return Thing(k)
    if q < .8:
        return List([Dict(a=k, b='x%d' % k), Dict(a=k, b=s)])
    if q < .9:
        return Text('text %d' % k)
    return List([Thing(k), Thing(k)])


def types(op):
    def make(r):
        m = model(r)
        n = M.replace(m, r.choice(list(M.paths(m))), ('date',)) \
            if r.random() < .5 else model(r)
        try:
            x, y, z = M.build(m), M.build(m), M.build(n)
        except (TypeError, ValueError):
            x, y, z = M.build(m), M.build(m), T.date_
        return [x, y, z], lambda: op(x, y, z)
    return make


def parse(r):
    s = Text(text.spell(model(r), r))
    return [s], lambda: datashape.dshape(s)


def parse_bad(r):
    s = Text(text.spell(model(r), r))
    s = Text(r.choice((s[:-1], s + ')', s + ' unknown%d' % unique(), s[1:],
                       'unknown%d' % unique(), s[:len(s) // 2],
                       'unknown%d[1]' % unique(), 'a%d:' % unique())))
    return [s], lambda: datashape.dshape(s)


def parse_own(r):
    """With a symbol table of the caller's."""
    sym = S.TypeSymbolTable()
    sym.dtype['mine'] = T.Record([('f%d' % unique(), T.int8)])
    s = Text('3 * {a%d: mine, b: %s}' % (unique(), text.spell(model(r), r)))
    return [sym, s], lambda: parser.parse(s, sym)


def discover(r):
    v = value(r)
    return [v], lambda: datashape.discover(v)


def discover_bad(r):
    v = List([object(), unique(), 'x%d' % unique()])
    w = Dict(a=r.choice((v, object)), b=unique())
    return [v, w], lambda: datashape.discover(w)


def discover_text(r):
    k = unique()
    s = Text(r.choice(('%d' % k, '%d days' % k, 'a%d' % k, '%d.5' % k,
                       '2014-01-%02d' % (k % 28 + 1), '%d:00:00' % (k % 24),
                       'x %d y' % k, '-%de5' % k)))
    return [s], lambda: datashape.discover(List([s, s]))


def validate(r):
    k = unique()
    schema = T.Record([('f%d' % k, T.int64), ('b', T.json)])
    v = Dict([('f%d' % k, k), ('b', Thing(k))])
    s = r.choice((schema, T.DataShape(T.Var(), schema), Text(schema),
                  (T.int8, schema)))
    w = List([v]) if isinstance(s, T.DataShape) else v
    return [s, w], lambda: datashape.validate(s, w)


def arrays(r):
    k = unique()
    a = np.zeros((r.randrange(3), k % 7), dtype=[('f%d' % k, 'i4'), (
        'b', 'S%d' % (k % 99 + 1))])
    if r.random() < .3:
        a = np.array(['text %d' % k, k, None], dtype=object)
    return [a], lambda: (datashape.discover(a), datashape.from_numpy(
        a.shape, a.dtype), datashape.validate(T.Record([('f', T.int8)]), a))


def records(r):
    k = unique()
    x = T.Record([('f%d' % k, T.int8), ('g', M.build(model(r)))])
    fields = List([('f%d' % k, x), ('h%d' % k, T.date_)])
    return [x, fields], lambda: (T.Record(fields), x['f%d' % k], x['missing'])


def sets(r):
    k = unique()
    x, y = T.Decimal(k, 1), T.String(k)
    ts = typesets.TypeSet(x, y, T.int8)
    return [ts, x], lambda: (x in ts, ts | typesets.TypeSet(T.String(k + 1)),
                             hash(ts), repr(ts), list(ts), typesets.maxtype(x),
                             datashape.matches_typeset([x], [ts]))


def promote(r):
    k = unique()
    x, y = T.String(k), T.Option(T.String(k + 1, 'A'))
    return [x, y], lambda: (datashape.promote(x, y),
                            datashape.optionify(x, y, x))


def construct_bad(r):
    k = unique()
    v = List([('f%d' % k, T.int8), ('f%d' % k, T.date_)])
    f = r.choice((lambda: T.Record(v), lambda: T.DataShape(T.int8, T.Fixed(k)),
                  lambda: T.Record(List([('f%d' % k, object)])),
                  lambda: T.Fixed(-k), lambda: T.String(k, 'no%d' % k),
                  lambda: T.TimeDelta('no%d' % k), lambda: T.TypeVar('no%d' % k),
                  lambda: T.Time(k), lambda: T.Units(k, T.int8)))
    return [v], f


def pickled(r):
    x = M.build(model(r))
    s = pickle.dumps(x)
    return [x], lambda: (pickle.loads(s), pickle.loads(pickle.dumps(x, 0)))


WAYS = collections.OrderedDict(
    [('on types: ' + k, types(op)) for k, op in c32.OPERATIONS.items()])
for _f in (parse, parse_bad, parse_own, discover, discover_bad, discover_text,
           validate, arrays, records, sets, promote, construct_bad, pickled):
    WAYS[_f.__name__] = _f


def batch(mon, way, r, n):
    """Calls n times, and gives references to some of what was involved."""
    refs = []
    for i in range(n):
        given, call = WAYS[way](r)
        try:
            result = call()
        except RecursionError:
            raise
        except Exception:
            result = None
            mon.count('refused')
        if i % 5 == 0:
            for kind, xs in (('given', given), ('returned', result if type(
                    result) in (tuple, list) else [result])):
                for x in xs:
                    try:
                        refs.append((kind, weakref.ref(x)))
                    except TypeError:
                        continue
        del given, call, result
    return refs


def held():
    gc.collect()
    return sys.getallocatedblocks(), len(gc.get_objects())


def alive(refs):
    return sum(1 for _, x in refs if x() is not None and not isinstance(
        x(), (T.CType, type)))


def gen(r):
    return ('leak', r.choice(list(WAYS)), r.getrandbits(30))


def fixed(tier):
    for i, k in enumerate(WAYS):
        yield ('leak', k, i)


def run(case, mon):
    _, way, seed = case
    r = random.Random(seed)
    COUNTER[0] = seed % 10 ** 6 * 1000 + 1
    batch(mon, way, r, BATCH)
    before = first = held()
    calm = 0
    for i in range(BATCHES + MORE):
        refs = batch(mon, way, r, BATCH)
        after = held()
        still = alive(refs)
        for kind, _ in refs:
            mon.count(kind)
        del refs
        mon.count('events', BATCH)
        if after[0] - before[0] <= RATE * BATCH and \
                after[1] - before[1] <= RATE * BATCH and \
                still <= .1 * BATCH / 5:
            mon.count('flat')
            mon.count('released')
            calm += 1
            if calm == 2:
                mon.seen(way, seed)
                return
        else:
            calm = 0
        before = after
    total = (BATCHES + MORE) * BATCH
    mon.fail('released', way, 'keeps', after[0] - first[0], 'memory blocks and',
             after[1] - first[1], 'objects of', total, 'calls; of the objects '
             'in the last', BATCH, 'calls', still, 'are alive')
