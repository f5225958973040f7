"""C20: searching a type finds every part at any depth."""
import random

import datashape
from datashape import coretypes as T
from datashape.util import collect

from vf import data, gen as G, model as M

RULE = ('random types, searched for var dimensions, ellipses, each kind of '
        'part, random sets of kinds, parts equal to a part of the type, and '
        'arrays; also lists and tuples of types.  Non-trivial: distinct '
        '(type, predicate).')
COUNT = {'quick': 110000, 'thorough': 1800000}
REQUIRED = ('has_var_dim', 'has_ellipsis', 'collect', 'found', 'none found',
            'several', 'sequence', 'unchanged')
g = G.Gen(most_cats=3)
deep = G.Gen(kinds=('ct', 'string', 'date', 'units', 'cat', 'tv', 'opt', 'rec',
                    'tup', 'fn', 'map'), names='plain')
KINDS = ('fix', 'var', 'ell', 'tv', 'ct', 'null', 'date', 'time', 'datetime',
         'timedelta', 'units', 'bytes', 'json', 'string', 'decimal', 'cat',
         'opt', 'rec', 'tup', 'fn', 'map', 'ds')


def parts(m):
    """The parts of a type in order; dimensions as ('dim', d)."""
    if m[0] == 'dim':
        d = m[1]
        return (('dim', ('tv', d[1])),) if d[0] == 'ell' and d[1] else ()
    if m[0] == 'ds':
        return tuple(('dim', d) for d in m[1]) + (m[2],)
    return M.children(m)


def kind(m):
    return m[1][0] if m[0] == 'dim' else m[0]


def plain(m):
    """The same key for a type variable wherever it stands."""
    return m[1] if m[0] == 'dim' else m


def search(pred, m):
    if pred(m):
        return [plain(m)]
    return [x for p in parts(m) for x in search(pred, p)]


def part_model(t):
    """The model of anything collect may hand to its predicate, or None."""
    if isinstance(t, (T.Fixed, T.Var, T.Ellipsis)):
        return ('dim', M.dim_of(t))
    if isinstance(t, T.Mono):
        return M.of(t)
    return None


def gen(r):
    m = g.top(r) if r.random() < .4 else deep.top(
        r, r.choice((2, 3, 4))) if not G.big(r) else deep.big(r)
    k = r.random()
    if k < .4:
        p = ('kinds', tuple(sorted(r.sample(KINDS, r.choice((1, 1, 2, 3))))))
    elif k < .7:
        p = ('kinds', (r.choice(sorted(M.kinds(m))),))
    else:
        x = M.at(m, r.choice(list(M.paths(m))))
        if M.dims(x) and r.random() < .5:
            x = ('dim', r.choice(M.dims(x)))
        p = ('equal', x)
    n = r.random()
    return (m, p, () if n < .85 else tuple(g.top(r, 1) for _ in range(
        r.randrange(0, 4))))


def fixed(tier):
    from vf.checks import c01
    for m in c01.small():
        for k in KINDS:
            yield (m, ('kinds', (k,)), ())
    # one part, far down
    for n in (5, 21, 60, 130):
        for d, leaf in ((('var',), ('ct', 'int32')), (('ell', None), ('string', None, 'U8')),
                        (None, ('date',))):
            for wrap in (lambda m: ('rec', (('a', m),)),
                         lambda m: ('rec', (('b', ('ct', 'int8')), ('a', m))),
                         lambda m: ('tup', (m,)),
                         lambda m: ('fn', (m,), ('ct', 'int8')),
                         lambda m: ('fn', (), m),
                         lambda m: ('map', ('ct', 'int8'), m),
                         lambda m: ('map', m, ('ct', 'int8')),
                         lambda m: ('ds', (('fix', 2),), ('rec', (('a', m),)))):
                m = leaf if d is None else ('ds', (d,), leaf)
                for _ in range(n):
                    m = wrap(m)
                yield (m, ('kinds', (leaf[0] if d is None else d[0],)), ())


def mutate(r, case):
    return (G.near(r, case[0], deep), case[1], ())


def predicate(p):
    if p[0] == 'kinds':
        return lambda m: kind(m) in p[1]
    return lambda m: plain(m) == plain(p[1])


def run(case, mon):
    m, p, more = case
    t = M.build(m, len(repr(m)) % 3 > 0)
    before = (M.of(t), str(t))
    dims = {d[0] for x in M.walk(m) for d in M.dims(x)}
    got = datashape.has_var_dim(t)
    mon.check('has_var_dim', got is bool({'var', 'ell'} & dims), t, got)
    got = datashape.has_ellipsis(t)
    mon.check('has_ellipsis', got is ('ell' in dims), t, got)
    pred = predicate(p)

    def real(x):
        x = part_model(x)
        return x is not None and pred(x)
    want = search(pred, m)
    got = [plain(part_model(x)) for x in collect(real, t)]
    mon.check('collect', got == want, t, p, 'gives', got, 'expected', want)
    mon.count('found' if want else 'none found')
    mon.count('several', int(len(want) > 1))
    if more:
        ts = [M.build(x) for x in more]
        want = [y for x in (m,) + more for y in search(pred, x)]
        r = random.Random(len(str(t)))
        for seq in ([t] + ts, tuple([t] + ts),
                    data.dressed((list, tuple)[len(ts) % 2]([t] + ts), r, 1)):
            got = [plain(part_model(x)) for x in collect(real, seq)]
            mon.check('sequence', got == want, seq, p, 'gives', got)
    # without a find
    mon.check('collect', list(collect(lambda x: False, t)) == [], t)
    mon.check('unchanged', (M.of(t), str(t)) == before, t)
    mon.seen(m, p)
