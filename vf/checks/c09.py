"""C09: every construction route gives the same type."""
import random
from collections import OrderedDict

import datashape
from datashape import coretypes as T, parser, type_symbol_table

from vf import gen as G, model as M, routes, text
from vf.checks import c01

RULE = ('random types, each built along four random routes that mix text, '
        'products, lists, tuples, nested datashapes and classes with '
        'positional, named and defaulted arguments at every level; all '
        'aliases.  Non-trivial: distinct types of more than one part.')
COUNT = {'quick': 22000, 'thorough': 400000}
REQUIRED = ('route', 'prints', 'identity', 'alias', 'registry', 'rebuilt',
            'sequence', 'no such part')
g = G.Gen(most_cats=10)

ALIASES = {
    'bool': 'bool_', 'int32': 'int32 int_ c_int', 'int64':
    'int64 c_longlong intptr c_ssize_t c_long', 'int8': 'int8 c_byte',
    'int16': 'int16 c_short', 'uint8': 'uint8 c_ubyte', 'uint16':
    'uint16 c_ushort', 'uint32': 'uint32 c_uint', 'uint64':
    'uint64 c_ulonglong uintptr c_size_t c_ulong', 'float16':
    'float16 c_half half', 'float32': 'float32 c_float single',
    'float64': 'float64 c_double double', 'complex[float32]':
    'complex64 complex_float32', 'complex[float64]':
    'complex128 complex_float64 complex_', 'char': 'char', 'void': 'void',
    'object': 'object_ pyobj'}
REGISTERED = {
    'int': 'int32', 'real': 'float64', 'intptr': 'int64', 'uintptr': 'uint64',
    'float': 'float32', 'double': 'float64', 'complex64': 'complex[float32]',
    'complex128': 'complex[float64]', 'bool': 'bool', 'char': 'char',
    'int8': 'int8', 'int16': 'int16', 'int32': 'int32', 'int64': 'int64',
    'uint8': 'uint8', 'uint16': 'uint16', 'uint32': 'uint32',
    'uint64': 'uint64', 'float16': 'float16', 'float32': 'float32',
    'float64': 'float64', 'void': 'void', 'object': 'object',
    'complex[float32]': 'complex[float32]',
    'complex[float64]': 'complex[float64]'}
SIZES = {'bool': 1, 'char': 1, 'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8,
         'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8, 'float16': 2,
         'float32': 4, 'float64': 8, 'complex[float32]': 8,
         'complex[float64]': 16, 'void': 0, 'object': 8}
OTHERS = {'date': T.Date, 'time': T.Time, 'datetime': T.DateTime,
          'timedelta': T.TimeDelta, 'null': T.Null, 'bytes': T.Bytes,
          'string': T.String}


def fixed(tier):
    yield ('aliases',)
    for m in c01.small():
        for s in range(6):
            yield ('m', m, s)


def gen(r):
    m = c01.gen(r)[1] if r.random() < .02 else g.top(r)
    return ('m', m, r.getrandbits(30))


def mutate(r, case):
    if case[0] == 'aliases':
        return gen(r)
    return ('m', G.near(r, case[1], g), r.getrandbits(30))


def aliases(mon):
    sym = type_symbol_table.sym
    for name, attrs in ALIASES.items():
        for a in attrs.split():
            if a == 'c_uint':
                continue
            o = getattr(T, a)
            mon.check('alias', type(o) is T.CType and o.name == name and
                      o == getattr(T, attrs.split()[0]), a, o)
            mon.check('alias', o is getattr(T, attrs.split()[0]), a)
    for name, ct in REGISTERED.items():
        o = T.Type.lookup_type(name)
        mon.check('registry', type(o) is T.CType and o.name == ct, name, o)
    for name, size in SIZES.items():
        o = T.Type.lookup_type(name)
        mon.check('registry', o.itemsize == size and 1 <= o.alignment <= 8, name,
                  o.itemsize, o.alignment)
    for name, cls in OTHERS.items():
        o = T.Type.lookup_type(name)
        mon.check('registry', type(o) is cls and o == cls(), name, o)
    from vf import ref
    mon.check('alias', set(ref.TYPES) <= set(sym.dtype), sorted(sym.dtype))
    for name, m in ref.TYPES.items():
        for o in (datashape.dshape(name), parser.parse(
                name, type_symbol_table.TypeSymbolTable())):
            mon.check('alias', M.of(o) == m and o == M.build(m) and
                      str(o) == str(M.build(m)), name, o)
    for name, m in (('bool_', ('ct', 'bool')), ('date_', ('date',)),
                    ('time_', ('time', None)), ('datetime_', ('datetime', None)),
                    ('timedelta_', ('timedelta', 'us')), ('null', ('null',)),
                    ('bytes_', ('bytes',)), ('string', ('string', None, 'U8')),
                    ('json', ('json',)), ('NullRecord', ('rec', ()))):
        mon.check('alias', M.of(getattr(T, name)) == m, name)
    mon.check('alias', T.R is T.Record and T.na is T.Null)
    mon.check('alias', type(T.var) is T.Var)


def kids(x):
    for p in x.parameters:
        if isinstance(p, T.Mono):
            yield p
        elif isinstance(p, (tuple, list)):
            for q in p:
                if isinstance(q, T.Mono):
                    yield q
                elif isinstance(q, tuple):
                    for u in q:
                        if isinstance(u, T.Mono):
                            yield u


def parts(x, r, mon):
    """Every part of x: rebuilt from its parameters, and a sequence of its
    dimensions and its measure."""
    todo = [x]
    for _ in range(60):
        if not todo:
            return
        x = todo.pop(r.randrange(len(todo)))
        todo.extend(kids(x))
        if type(x) is not T.CType:      # those are registered
            y = type(x)(*x.parameters)
            mon.check('rebuilt', type(y) is type(x) and y == x and x == y and
                      hash(y) == hash(x) and str(y) == str(x) and
                      repr(y) == repr(x), type(x), x.parameters, y)
            z = type(x)(*y.parameters)
            mon.check('rebuilt', z == x and str(z) == str(x), z, x)
        if type(x) is T.DataShape:
            ps = x.parameters
            n = len(ps)
            mon.check('sequence', type(ps) is tuple and len(x) == n and
                      x.measure is ps[-1] and x[-1] is ps[-1] and
                      x.shape == ps[:-1] and
                      all(a is b for a, b in zip(x.shape, ps)) and
                      all(x[i] is ps[i] and x[i - n] is ps[i]
                          for i in range(n)), x)
            mon.check('sequence', len(list(x)) == n and
                      all(a is b for a, b in zip(x, ps)), x)
        elif type(x) is T.Record:
            mon.check('sequence', x.measure is x and x.shape == () and
                      len(x.fields) == len(x.names) == len(x.types) and
                      all(x[n] is t for n, t in x.fields) and
                      x.dict == dict(x.fields), x)
            continue
        else:
            n = 1
            mon.check('sequence', len(x) == 1 and x[0] is x and x[-1] is x and
                      list(x) == [x] and x.measure is x and
                      x.shape == (x.ty.shape if type(x) is T.Option else ()),
                      x)
        for i in (n, -n - 1):
            mon.refused('no such part', IndexError, lambda: x[i], detail=(x, i))


def run(case, mon):
    if case[0] == 'aliases':
        aliases(mon)
        return
    _, m, seed = case
    r = random.Random(seed)
    want = M.build(m, True)
    ws = r.choice((15, 40, 80))
    prints = (str(want), repr(want), datashape.pprint(want, ws))
    for i in range(4):
        x = routes.Builder(r).any(m)
        mon.check('route', M.of(x) == m, M.of(x), 'not', m)
        mon.check('route', x == want and want == x and not x != want and
                  hash(x) == hash(want), x, want)
        d = datashape.dshape(x)
        mon.check('route', M.of(d) == m and d == want, d)
        if type(d) is T.DataShape:
            mon.check('prints', (str(d), repr(d), datashape.pprint(d, ws)) ==
                      prints, str(d), prints[0])
            mon.check('identity', datashape.dshape(d) is d, d)
            mon.check('identity', T.DataShape(d) == d and datashape.dshape(
                [d]) == d and datashape.dshape((d,)) == d, d)
            mon.check('prints', repr(T.DataShape(d)) == prints[1], d)
        else:
            mon.check('prints', str(d) == prints[0], d)
            mon.check('identity', datashape.dshape(d) is d, d)
    parts(want, r, mon)
    t = datashape.dshapes(text.spell(m, r), want)
    mon.check('route', type(t) is list and t[0] == want and t[1] is want, t)
    if M.size(m) > 1 or m[0] == 'ds':
        mon.seen(m)


ASSUMPTIONS = ('products are formed from dimension objects or integers and a '
               'measure, a datashape or (with a dimension object) its text',)
