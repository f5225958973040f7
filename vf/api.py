"""The public calls as operations on a pool of types, texts and values, with
comparable results.  Used by the checks about histories, threads and
processes."""
import copy
import pickle
import random
import re

import numpy as np

import datashape
from datashape import coretypes as T, discovery, typesets, util, validation
from datashape.util.testing import assert_dshape_equal

from . import badtext, data, gen as G, model as M, npref, routes, text
from .checks import c12, c18

ADDRESS = re.compile(r'0x[0-9a-f]{4,}')
PREDICATES = tuple(n for n in (
    'isdimension', 'ishomogeneous', 'isfixed', 'istabular', 'iscollection',
    'isrecord', 'isscalar', 'isnumeric', 'isboolean', 'isdatelike', 'isreal',
    'has_var_dim', 'has_ellipsis'))
KINDS = (T.Record, T.Option, T.CType, T.String, T.TypeVar, T.Var, T.Fixed,
         T.Ellipsis, T.DataShape, T.Tuple, T.Mono)
FLAGS = ('check_dim', 'check_tz', 'check_timedelta_unit', 'check_str_encoding',
         'check_str_fixlen', 'check_record_order')


def norm(x):
    """A comparable account of a result."""
    if isinstance(x, typesets.TypeSet):
        return ('typeset', x.name, tuple(map(norm, x.types)))
    if isinstance(x, T.Mono):
        if isinstance(x, (T.Fixed, T.Var, T.Ellipsis)):
            return ('dim', M.dim_of(x), str(x))
        try:
            return ('type', type(x).__name__, M.of(x), str(x), repr(x))
        except M.Malformed as e:
            return ('type', type(x).__name__, 'malformed', repr(x), str(e))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(map(norm, x))
    if isinstance(x, dict):
        return (type(x).__name__,) + tuple(
            (norm(k), norm(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(map(norm, x), key=repr))
    if isinstance(x, np.dtype):
        return ('dtype', repr(x), x.itemsize, repr(x.fields and [
            (n, x.fields[n][1]) for n in x.names]))
    if isinstance(x, np.ndarray):
        return ('ndarray', x.shape, repr(x.dtype))
    if isinstance(x, (str, int, float, complex, bool, bytes, type(None))):
        return (type(x).__name__, repr(x))
    return ('other', type(x).__name__)


def message(e):
    s = str(e)
    return ADDRESS.sub('0x', s)


# ---------------------------------------------------------------- operations
# name: (argument kinds, function, result is a type to go on with)

OPS = {}


def op(kinds, name=None):
    def add(f):
        OPS[name or f.__name__] = (kinds, f)
        return f
    return add


for _n in ('shape', 'ndim', 'measure', 'parameters', 'names', 'types', 'dict',
           'fields', 'argtypes', 'restype', 'ty', 'key', 'value', 'dshapes',
           'categories', 'itemsize', 'unit', 'tz', 'encoding', 'fixlen'):
    op('t', _n)(lambda t, n=_n: getattr(t, n))
for _n in PREDICATES:
    op('t', _n)(getattr(datashape, _n))
op('t', 'str')(str)
op('t', 'repr')(repr)
op('t', 'itself')(lambda t: t)
op('t', 'hash')(lambda t: hash(t) == hash(M.build(M.of(t), type(t) is
                                                  T.DataShape)))
op('t', 'len')(len)
op('t', 'list')(list)
op('t', 'to_numpy')(datashape.to_numpy)
op('t', 'to_numpy_dtype')(datashape.to_numpy_dtype)
op('t', 'maxtype')(datashape.maxtype)
op('t', 'supertype')(typesets.supertype)
op('t', 'dshape of type')(datashape.dshape)
op('t', 'pickle')(lambda t: pickle.loads(pickle.dumps(t)))
op('t', 'copy')(copy.copy)
op('t', 'deepcopy')(copy.deepcopy)
op('t', 'option')(T.Option)
op('t', 'record of')(lambda t: T.Record([('x', t), ('y', 'int32')]))
op('t', 'tuple of')(lambda t: T.Tuple([t, t]))
op('t', 'times')(lambda t: 3 * t)
op('t', 'pprint')(datashape.pprint)
op('t', 'traverse')(lambda t: validation.traverse(
    lambda x, acc: len(acc), t))
op('ti', 'subshape')(lambda t, i: t.subshape[i])
op('tn', 'subarray')(lambda t, n: t.subarray(n))
op('tn', 'getitem')(lambda t, n: t[n])
op('tc', 'collect')(lambda t, k: util.collect(
    lambda x: isinstance(x, k), t))
op('tt', 'eq')(lambda a, b: a == b)
op('tt', 'ne')(lambda a, b: a != b)
op('tt', 'promote')(datashape.promote)
op('ttt', 'optionify')(datashape.optionify)
op('tt', 'issubschema')(datashape.issubschema)
op('tt', 'cat_dshapes')(lambda a, b: datashape.cat_dshapes([a, b]))
op('tt', 'map of')(T.Map)
op('tt', 'function of')(T.Function)
op('tt', 'common')(lambda a, b: discovery.lowest_common_dshape(
    [datashape.dshape(a), datashape.dshape(b)]))
op('tt', 'unite')(lambda a, b: discovery.unite_identical(
    [datashape.dshape(a), datashape.dshape(b)]))
op('ttf', 'assert_dshape_equal')(lambda a, b, f: assert_dshape_equal(
    a, b, **dict.fromkeys(f, False)))
op('tg', 'in')(lambda t, g: t in g)
op('tg', 'matches')(datashape.matches_typeset)
op('s', 'dshape')(datashape.dshape)
op('s', 'parse')(lambda s: datashape.parser.parse(s, datashape.sym))
op('s', 'dshape again')(lambda s: str(datashape.dshape(str(
    datashape.dshape(s)))))
op('ss', 'issubschema of texts')(datashape.issubschema)
op('s', 'unit of')(datashape.normalize_time_unit)
op('s', 'dshapes')(lambda s: datashape.dshapes(s, '3 * ' + s))
op('s', 'product')(lambda s: T.Fixed(4) * s)
op('tv', 'validate')(datashape.validate)
op('sv', 'validate text')(datashape.validate)
op('ttv', 'validate either')(lambda a, b, v: datashape.validate((a, b), v))
op('v', 'discover')(datashape.discover)
op('vv', 'discover both')(lambda v, w: datashape.discover([v, w]))
op('v', 'validate own')(lambda v: datashape.validate(datashape.discover(v), v))
op('a', 'discover array')(datashape.discover)
op('a', 'from_numpy')(lambda a: datashape.from_numpy(a.shape, a.dtype))
op('a', 'dtype type')(lambda a: T.CType.from_numpy_dtype(a.dtype))
op('ta', 'validate array')(datashape.validate)
WEIGHTED = tuple(OPS) + ('dshape',) * 6 + ('discover',) * 6 + (
    'promote', 'validate', 'str', 'eq', 'hash', 'subshape', 'common',
    'dshape of type', 'discover both', 'validate own', 'to_numpy') * 3

INDICES = (0, 1, -1, slice(None), slice(1, 3), slice(None, -1), slice(2, None),
           (0, 0), (slice(None), 0), [0], [1, 0], 'a', ['a', 'b'],
           (Ellipsis, 0), (0, 'x'), 'id', (slice(None), 'name'), None)


SETS = ('signed', 'unsigned', 'integral', 'floating', 'complexes', 'boolean',
        'real', 'numeric', 'scalar')


def type_sets():
    """The registered type sets by name."""
    inner = getattr(typesets.registry, 'registry', None)
    if isinstance(inner, dict):
        return dict(inner)
    return {n: typesets.registry[n] for n in SETS}


def full(a, i):
    """An array with texts in its columns of objects, for some."""
    if i % 2 == 0:
        if a.dtype == object:
            a.fill('text')
        for n in a.dtype.names or ():
            if a.dtype[n] == object:
                a[n] = 'text'
    return a


class World(object):
    """The objects of a spec: types (model, seed), texts, values, arrays."""

    def __init__(self, spec):
        self.spec = spec
        types, texts, values, arrays = spec
        self.types = []
        for m, seed in types:
            r = random.Random(seed)
            self.types.append(routes.Builder(r).any(m) if seed % 3
                              else M.build(m, seed % 2 == 0))
        self.texts = list(texts)
        self.values = [data.decode(v) for v in values]
        self.arrays = []
        for d, shp in arrays:
            try:
                dt = c12.make(d)
                if dt.itemsize > 10 ** 4:
                    raise ValueError
                self.arrays.append(full(np.zeros(shp, dt), len(self.arrays)))
            except (ValueError, TypeError):
                self.arrays.append(np.zeros(shp, 'i4'))
        sets = type_sets()
        self.sets = [sets[n] for n in sorted(sets)]

    def args(self, op):
        name, picks = op
        out = []
        for k, i in zip(OPS[name][0], picks):
            if k in 'tsvag':
                pool = {'t': self.types, 's': self.texts, 'v': self.values,
                        'a': self.arrays, 'g': self.sets}[k]
                out.append(pool[i % len(pool)])
            elif k == 'i':
                x = INDICES[i % len(INDICES)]
                out.append(list(x) if isinstance(x, list) else x)
            elif k == 'n':
                out.append(i % 4)
            elif k == 'c':
                out.append(KINDS[i % len(KINDS)])
            else:
                out.append([f for j, f in enumerate(FLAGS) if i >> j & 1])
        return out

    def perform(self, op, messages=True):
        """(comparable result, the result itself)."""
        f = OPS[op[0]][1]
        try:
            r = f(*self.args(op))
        except RecursionError:
            return ('error', 'RecursionError'), None
        except Exception as e:
            return ('error', type(e).__name__) + (
                (message(e),) if messages else ()), None
        return ('ok', norm(r)), r

    def state(self):
        """Everything in the pool, as it looks now."""
        return ([norm(t) for t in self.types], [hash(t) for t in self.types],
                list(self.texts), [deep(v) for v in self.values],
                [array_state(a) for a in self.arrays],
                [norm(s) for s in self.sets])


def array_state(a):
    return (a.shape, a.strides, a.dtype, str(a.flags), a.tobytes())


def deep(v):
    """A value with its containers, as a comparable nest."""
    if isinstance(v, (list, tuple)):
        return (type(v), [deep(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return (type(v), sorted(repr(deep(x)) for x in v))
    if hasattr(v, 'items'):
        return (type(v), [(k, deep(x)) for k, x in v.items()])
    return (type(v), ADDRESS.sub('0x', repr(v)))


# ---------------------------------------------------------------- specs

g = G.Gen(most_cats=2, names='any')
h = G.Gen(kinds=('ct', 'ct', 'string', 'date', 'datetime', 'timedelta', 'opt',
                 'rec', 'rec', 'tup'), names='plain', dims=('fix', 'fix', 'var'),
          small=True)
TWINS = ((('int', 1), ('bool', True), ('float', '1'), ('str', '1'),
          ('i4', 1), ('i8', 1), ('u1', 1), ('f8', 1), ('complex', '1')),
         (('int', 0), ('bool', False), ('float', '0'), ('str', ''),
          ('none', 0), ('L',), ('T',), ('D',), ('S',)),
         (('date', (2014, 1, 1)), ('datetime', (2014, 1, 1, 0, 0, 0)),
          ('str', '2014-01-01')))


plain_g = G.Gen(kinds=('ct', 'ct', 'ct', 'string', 'date', 'datetime'),
                arrays=False, inner_arrays=False, small=True)


OBJECTS = ('O', 'O', ('packed', (('a', None, 'O', ()),
                               ('b', None, 'i4', ()))))


def spec(r, types=4, texts=3, values=4, arrays=2, plain=.15,
         little=False):
    from .checks import c15
    ts = []
    plain = r.random() < plain
    for _ in range(types):
        if plain:       # types to promote
            m = plain_g.scalar(r)
            if r.random() < .3:
                m = ('opt', m)
        elif ts and r.random() < .5:
            m = G.near(r, r.choice(ts)[0], h)
            if r.random() < .3:
                m = r.choice(ts)[0]
        else:
            m = (g if r.random() < .5 else h).top(r, 1 if little else None)
        while little and M.size(m) > 8:
            m = h.top(r, 1)
        ts.append((m, r.getrandbits(20)))
    ss = []
    for _ in range(texts):
        k = r.random()
        if k < .25:
            ss.append(text.canonical(r.choice(ts)[0]))
        elif k < .5:
            ss.append(text.spell(r.choice(ts)[0], r))
        elif k < .7:
            ss.append(text.spell(
                h.top(r, 1) if little else
                (g if r.random() < .5 else h).top(r), r))
        elif k < .9:
            ss.append(badtext.gen(r) if r.random() < .5 else bad(r))
        else:
            ss.append(r.choice(('int32', 'int', 'days', 'us', '', '?', 'real',
                                'string', 'ms', 'second')))
    vs = []
    for _ in range(values):
        k = r.random()
        if k < .25:
            vs.append(twin(r))
        elif k < .5 and vs:
            v = r.choice(vs)
            vs.append(c15.clean(c15.like(r, v, data.SCALARS)))
        else:
            vs.append(c15.clean(c15.value(
                r, 1 if little else r.choice((1, 2, 2, 3)))))
    arr = [(c12.desc(r, r.choice((0, 0, 1)), 0) if r.random() < .7 else
            r.choice(OBJECTS),
            tuple(r.choice((0, 1, 2, 3)) for _ in range(r.choice((0, 1, 2)))))
           for _ in range(arrays)]
    return tuple(ts), tuple(ss), tuple(vs), tuple(arr)


def twin(r):
    xs = [x for x in r.choice(TWINS)]
    out = []
    for _ in range(r.choice((1, 1, 2, 3))):
        x = r.choice(xs)
        out.append(x)
    if len(out) == 1:
        return out[0]
    if r.random() < .3:
        return ('D',) + tuple(('abcdef'[i], x) for i, x in enumerate(out))
    return (r.choice('LLT'),) + tuple(out)


def bad(r):
    s = text.spell((h if r.random() < .7 else g).top(r), r)
    if not s:
        return s
    i = r.randrange(len(s))
    k = r.random()
    if k < .4:
        return s[:i]
    if k < .7:
        return s[:i] + s[i + 1:]
    return s[:i] + r.choice('[]{}()*,:?.3a"#$-> ') + s[i:]


def ops(r, n):
    out = []
    for _ in range(n):
        name = r.choice(WEIGHTED)
        out.append((name, tuple(r.getrandbits(10) for _ in OPS[name][0])))
    return tuple(out)
