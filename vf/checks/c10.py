"""C10: ill-formed types cannot be obtained."""
import random

import datashape
from datashape import DataShapeSyntaxError, coretypes as T

from vf import gen as G, model as M, routes, text
from vf.checks import c01

RULE = ('random types built along random routes (objects, products, lists, '
        'texts) with exactly one flaw at a random position of the type; the '
        'same construction without the flaw has to succeed.  Non-trivial: '
        'distinct (type, flaw, position).')
COUNT = {'quick': 40000, 'thorough': 600000}
REFUSED = (TypeError, ValueError, DataShapeSyntaxError)
g = G.Gen(most_cats=10)

# what stands where a type is expected
NO_TYPES = {
    'Fixed(3)': lambda: T.Fixed(3), 'Fixed(0)': lambda: T.Fixed(0),
    'Var()': T.Var, 'var': lambda: datashape.var,
    'Ellipsis()': T.Ellipsis,
    'Ellipsis(A)': lambda: T.Ellipsis(T.TypeVar('A')),
    '3': lambda: 3, '0': lambda: 0, '-1': lambda: -1,
    'object()': object, '1.5': lambda: 1.5, 'dict': dict,
    'text var': lambda: 'var', 'text ...': lambda: '...',
    'text 3': lambda: '3', 'text A...': lambda: 'A...',
    'text 3 *': lambda: '3 * ', 'text 3 * var': lambda: '3 * var',
    'text dup': lambda: '{x: int8, y: int8, x: int8}',
    'text two': lambda: '... * 3 * ... * int8',
    'text deep': lambda: '{x: (int8, ?A... * B... * int8)}',
    'text neg': lambda: '-3 * int8', 'text foo': lambda: 'foo',
    'text empty': lambda: '',
    'typevar': lambda: T.TypeVar('t'), 'typevar _': lambda: T.TypeVar('_T'),
    'typevar 1': lambda: T.TypeVar('1'), 'typevar empty': lambda: T.TypeVar(''),
    'typevar e': lambda: T.TypeVar('\u00e9'),
    'typevar space': lambda: T.TypeVar(' T'),
    'dup record': lambda: T.Record([('x', T.int8), ('x', T.int8)]),
    'dup record 2': lambda: T.Record([('1', T.int8), (1, T.int8)]),
    'dup literal': lambda: T.R['x':T.int8, 'y':T.int8, 'x':T.date_],
    'literal step': lambda: T.R['x':T.int8:T.int8],
    'literal step 2': lambda: T.R['x':T.int8, 'y':T.int8:0],
    'literal no name': lambda: T.R[:T.int8],
    'literal no type': lambda: T.R['x':T.int8, 'y':],
    'literal name': lambda: T.R[5:T.int8], 'literal alone': lambda: T.R['x'],
    'literal pair': lambda: T.R['x':T.int8, ('y', T.int8)],
    'ends in dim': lambda: T.DataShape(3, T.Var()),
    'ends in ellipsis': lambda: T.DataShape(3, T.Ellipsis()),
    'list ends in dim': lambda: datashape.dshape([T.Var(), 3]),
    'no parameters': lambda: T.DataShape(),
    'string -1': lambda: T.String(-1),
    'string -n': lambda: T.String(-2 ** 70, 'ascii'),
    'string 1.5': lambda: T.String(1.5), 'string 1.0': lambda: T.String(1.0),
    'string text length': lambda: T.String('3', 'U8'),
    'string encoding': lambda: T.String('utf8x'),
    'string encoding 2': lambda: T.String(3, 'latin-1'),
    'string encoding 3': lambda: T.String(3, 8),
    'string three': lambda: T.String(3, 'U8', 1),
    'decimal 1.5': lambda: T.Decimal(1.5),
    'decimal 2.0': lambda: T.Decimal(5, 2.0),
    'decimal text': lambda: T.Decimal('5'),
    'decimal text scale': lambda: T.Decimal(5, '2'),
    'decimal none': lambda: T.Decimal(None),
    'unit': lambda: T.TimeDelta('lightyear'),
    'unit 3': lambda: T.TimeDelta(3), 'unit empty': lambda: T.TimeDelta(''),
    'unit s': lambda: T.TimeDelta('ss'),
    'unit x': lambda: T.TimeDelta('dayx'),
    'unit xs': lambda: T.TimeDelta('dayxs'),
    'unit sx': lambda: T.TimeDelta('hoursx'),
    'unit -s': lambda: T.TimeDelta('econd'),
    'unit case': lambda: T.TimeDelta('Day'),
    'unit part': lambda: T.TimeDelta('yea'),
    'units 3': lambda: T.Units(3), 'units type': lambda: T.Units('m', 3),
    'time zone': lambda: T.Time(3), 'time zone 2': lambda: T.DateTime(3),
    'text string': lambda: 'string[-1]',
    'text string 2': lambda: "string[3, 'foo']",
    'text string 3': lambda: "string[3, 'ascii', 4]",
    'text decimal': lambda: "decimal['3']",
    'text unit': lambda: "timedelta[unit='foo']",
    'text zone': lambda: 'datetime[tz=3]',
    'text complex': lambda: 'complex[int32]',
    'class': lambda: T.Var, 'class 2': lambda: T.Record,
}
# what stands where a dimension is expected
NO_DIMS = {
    'int32': lambda: T.int32, 'string': lambda: T.string,
    'record': lambda: T.Record([('x', T.int8)]), 'json': lambda: T.json,
    'option': lambda: T.Option(T.int8), 'tuple': lambda: T.Tuple([T.int8]),
    'null': T.Null, 'function': lambda: T.Function(T.int8, T.int8),
    'map': lambda: T.Map(T.int8, T.int8), 'date': lambda: T.date_,
    'array': lambda: datashape.dshape('3 * int32'),
    'zero-dim': lambda: datashape.dshape('int32'),
    'var array': lambda: datashape.dshape('var * {x: int8}'),
    'cat': lambda: T.Categorical(['a'], T.string),
    'decimal': lambda: T.Decimal(3), 'units': lambda: T.Units('m'),
    '-1': lambda: -1, '-7': lambda: -7, 'Fixed(-1)': lambda: T.Fixed(-1),
    '-2**70': lambda: -2 ** 70,
    '1.5': lambda: 1.5, 'object()': object, 'None': lambda: None,
    'typevar n': lambda: T.TypeVar('n'),
    'ellipsis n': lambda: T.Ellipsis(T.TypeVar('n')),
    'Fixed(1.5)': lambda: T.Fixed(1.5), 'Fixed("3")': lambda: T.Fixed('3'),
    'class': lambda: T.Fixed, 'bytes': lambda: b'3',
}
REQUIRED = ('refused', 'sound', 'two ellipses', 'duplicate names', 'text')


def fixed(tier):
    for m in c01.small():
        for p in M.paths(m):
            for k, (table, kind) in enumerate(((NO_TYPES, 'type'),
                                               (NO_DIMS, 'dim'))):
                for s in table:
                    for seed in range(1 if tier == 'quick' else 6):
                        yield (kind, m, p, s, seed + len(s) + len(p))


def gen(r):
    m = g.top(r)
    if r.random() < .04:
        m = c01.gen(r)[1]
        if M.size(m) > 200:
            m = g.top(r)
    paths = list(M.paths(m))
    p = r.choice(paths)
    if r.random() < .5:
        p = max((r.choice(paths) for _ in range(3)), key=len)
    k = r.random()
    seed = r.getrandbits(30)
    if k < .35:
        return ('type', m, p, r.choice(sorted(NO_TYPES)), seed)
    if k < .6:
        return ('dim', m, p, r.choice(sorted(NO_DIMS)), seed)
    if k < .75:
        return ('ellipses', m, p, bool(r.getrandbits(1)), seed)
    if k < .9:
        return ('names', m, p, bool(r.getrandbits(1)), seed)
    return ('negative', m, p, True, seed)


def mutate(r, case):
    m = G.near(r, case[1], g)
    return (case[0], m, r.choice(list(M.paths(m))), case[3], r.getrandbits(30))


def run(case, mon):
    kind, m, p, s, seed = case
    r = random.Random(seed)
    x = M.at(m, p)
    if kind == 'type' and not p and s.startswith('Ellipsis'):
        return          # stays a bare ellipsis, no datashape
    if kind in ('dim', 'ellipses', 'negative') and \
            p and M.at(m, p[:-1])[0] == 'cat':
        return          # only the measure of a categorical's type is kept
    # without the flaw
    good = datashape.dshape(routes.Builder(random.Random(seed)).any(m))
    mon.check('sound', M.of(good) == m, good, 'expected', m)
    flawed = None
    if kind == 'type':
        def attempt():
            return routes.Builder(random.Random(seed),
                                  {p: NO_TYPES[s]()}).any(m)
    else:
        ds = list(M.dims(x))
        b = routes.Builder(random.Random(seed))
        objs = [b.dim(d) for d in ds]
        if kind == 'dim':
            i = r.randrange(len(ds) + 1)

            def attempt():
                return routes.Builder(random.Random(seed), {
                    p: ('dims', objs[:i] + [NO_DIMS[s]()] + objs[i:])}).any(m)
        elif kind == 'ellipses':
            for _ in range(2):
                name = r.choice((None, 'A', 'B'))
                ds.insert(r.randrange(len(ds) + 1), ('ell', name))
            # possibly across nested datashapes
            flawed = M.replace(m, p, ('ds', tuple(ds), M.measure(x)))
            objs = [b.dim(d) for d in ds]

            def attempt():
                return routes.Builder(random.Random(seed), {
                    p: ('dims', objs)}).any(m)
            mon.count('two ellipses')
        elif kind == 'negative':
            n = -1 - G.nat(r)
            i = r.randrange(len(ds) + 1)
            flawed = M.replace(m, p, ('ds', tuple(
                ds[:i] + [('fix', n)] + ds[i:]), M.measure(x)))

            def attempt():
                return routes.Builder(random.Random(seed), {
                    p: ('dims', objs[:i] + [n] + objs[i:])}).any(m)
        else:
            if x[0] != 'rec' or len(x[1]) < 2:
                x = ('rec', ((G.name(r), M.measure(x)),
                             (G.ident(r) + '\u00e9', ('ct', 'int8')),
                             (G.ident(r) + '\u00e8', ('ct', 'int8'))))
                m = M.replace(m, p, x)
                if p and M.at(m, p) != x:
                    return          # in front of a measure that is merged
            names = [n for n, _ in x[1]]
            i, j = r.sample(range(len(names)), 2)
            names[i] = names[j]
            flawed = M.replace(m, p, ('rec', tuple(
                (n, t) for n, (_, t) in zip(names, x[1]))))

            def attempt():
                return routes.Builder(random.Random(seed), {
                    p: ('names', names)}).any(m)
            mon.count('duplicate names')
    mon.refused('refused', REFUSED, lambda: datashape.dshape(attempt()),
                detail=(kind, s, 'at', p, 'in', m))
    if flawed is not None:
        t = text.spell(flawed, r) if s else text.canonical(flawed)
        mon.refused('text', REFUSED, datashape.dshape, t)
    mon.seen(kind, s, m, p)
