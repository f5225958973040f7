"""C25: what a record is made of is what it has, everywhere it shows it."""
import itertools
import random
from collections import OrderedDict

import numpy as np

import datashape
from datashape import coretypes as T

from vf import data, gen as G, model as M, npref, routes, text

RULE = ('records of 0-300 fields with names of any characters (and numbers, '
        'which stand for their digits), built from lists, tuples, generators, '
        'zips, ordered mappings and literals, with one flaw or none; fields, '
        'names, types, dict, indexing, printing, export and comparison are '
        'compared with the pairs given, also after the containers given and '
        'handed out were changed.  Non-trivial: distinct field lists.')
COUNT = {'quick': 32000, 'thorough': 800000}
REQUIRED = ('fields', 'names', 'types', 'dict', 'index', 'no such field',
            'printed', 'exported', 'same', 'different', 'duplicates',
            'malformed literal', 'literal', 'container changed',
            'view changed', 'long', 'numbered')
g = G.Gen(most_cats=2)
flat = G.Gen(kinds=('ct', 'ct', 'ct', 'date', 'datetime', 'timedelta', 'string',
                    'bytes'), arrays=False, inner_arrays=False)
FLAWS = ('type', 'pair', 'name', 'none', 'missing type', 'step', 'int name',
         'bytes name', 'list name', 'no name', 'empty', 'step only',
         'none name')
FORMS = ('list', 'tuple', 'lists', 'generator', 'zip', 'map', 'ordered',
         'items', 'view', 'literal', 'iter', 'syntax', 'parsed',
         'derived ordered', 'derived list', 'derived names', 'object',
         'names that are objects')


def gen(r):
    k = r.random()
    n = r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 7)) if k < .97 else \
        r.choice((20, 26, 50, 100, 300))
    if G.big(r):
        n = G.size(r)
    names, seen = [], set()
    for _ in range(n):
        s = G.name(r)
        if r.random() < .06:
            s = r.choice((0, 1, 2, 10, 3.5, None, (1, 2), -1))
        while str(s) in seen:
            s = G.ident(r) + (str(len(names)) if n > 50 else '')
        seen.add(str(s))
        names.append(s)
    x = flat if n > 10 or r.random() < .4 else g
    fs = tuple((s, x.any(r, r.choice((0, 0, 1)))) for s in names)
    k = r.random()
    if k < .7 or not n:
        return ('good', fs, r.choice(FORMS), r.getrandbits(30))
    if k < .85 and n > 1:
        return ('dup', fs, r.sample(range(n), 2), r.choice(FORMS),
                r.getrandbits(30))
    return ('flaw', fs, r.randrange(n), r.choice(FLAWS), r.getrandbits(30))


def fixed(tier):
    i, s, f = ('ct', 'int32'), ('string', None, 'U8'), ('ct', 'float64')
    for names in itertools.permutations('abc'):
        for types in itertools.product((i, s), repeat=3):
            for form in FORMS:
                yield ('good', tuple(zip(names, types)), form, 0)
    for names in G.ALIKE:
        for form in FORMS:
            yield ('good', tuple((n, i) for n in names), form, 0)
    for form in FORMS:
        yield ('good', (), form, 0)
        yield ('good', (('a', i),), form, 0)
        yield ('dup', (('a', i), ('b', f)), [0, 1], form, 0)
        yield ('dup', ((1, i), ('1', f)), [0, 1], form, 0)
        yield ('dup', (('a', i), ('b', f), ('c', f)), [2, 0], form, 0)
    for flaw in FLAWS:
        for p in range(3):
            yield ('flaw', (('a', i), ('b', f), ('c', s)), p, flaw, 0)
        yield ('flaw', (('a', i),), 0, flaw, 0)


def mutate(r, case):
    fs = list(case[1])
    r.shuffle(fs)
    if fs and r.random() < .5:
        i = r.randrange(len(fs))
        fs[i] = (fs[i][0], g.any(r, 1))
    return ('good', tuple(fs), r.choice(FORMS), r.getrandbits(30))


class Named(object):
    """What is no string, but has one."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Pairs(object):
    """What can only be iterated over."""

    def __init__(self, pairs):
        self.pairs = pairs

    def __iter__(self):
        return iter(self.pairs)


def make(form, pairs, r):
    """A record of the pairs, and the container it came from."""
    c = None
    if form == 'list':
        c = list(pairs)
        x = T.Record(c)
    elif form == 'tuple':
        x = T.Record(tuple(pairs))
    elif form == 'lists':
        c = [list(p) for p in pairs]
        x = T.Record(c)
    elif form == 'generator':
        x = T.Record(p for p in pairs)
    elif form == 'iter':
        x = datashape.Record(iter(pairs))
    elif form == 'zip':
        x = T.Record(zip([n for n, _ in pairs], [t for _, t in pairs]))
    elif form == 'map':
        x = T.Record(map(tuple, map(list, pairs)))
    elif form == 'ordered':
        c = OrderedDict(pairs)
        x = T.Record(c)
    elif form == 'derived ordered':
        c = data.DERIVED[OrderedDict](pairs)
        x = T.Record(c)
    elif form == 'derived list':
        x = T.Record(data.DERIVED[r.choice((list, tuple))](
            data.row(2)(*p) for p in pairs))
    elif form == 'derived names':
        x = T.Record([(data.dressed(n, r, .8) if isinstance(n, str) else n, t)
                      for n, t in pairs])
    elif form == 'names that are objects':
        x = T.Record([(Named(n) if isinstance(n, str) and r.random() < .8
                       else n, t) for n, t in pairs])
    elif form == 'object':
        x = T.Record(Pairs(pairs))
    elif form == 'items':
        x = T.Record(OrderedDict(pairs).items())
    elif form == 'view':
        c = dict(pairs)
        x = T.Record(c.items())
    elif form == 'literal' and pairs:
        k = tuple(slice(n, t) for n, t in pairs)
        x = T.R[k if len(k) > 1 or r.random() < .5 else k[0]]
    elif form == 'syntax' and pairs:
        env = {'R': T.R}
        for i, (n, t) in enumerate(pairs):
            env['n%d' % i], env['t%d' % i] = n, t
        x = eval('R[%s%s]' % (', '.join('n%d:t%d' % (i, i)
                                        for i in range(len(pairs))),
                              r.choice(('', ','))), env)
    else:
        x = T.Record(list(pairs))
    return x, c


def run(case, mon):
    kind, fs = case[:2]
    r = random.Random(case[-1])
    b = routes.Builder(r)
    if kind == 'flaw':
        return run_flaw(mon, fs, case[2], case[3], r, b)
    form = case[3] if kind == 'dup' else case[2]
    if form in ('literal', 'syntax'):
        fs = tuple((str(n), t) for n, t in fs)
    if kind == 'dup':
        i, j = case[2]
        fs = list(fs)
        fs[j] = (fs[i][0], fs[j][1])
        if r.random() < .3 and form not in ('literal', 'syntax'):
            fs[j] = (str(fs[j][0]), fs[j][1])
        if len({n for n, _ in fs}) < len(fs) and form in (
                'ordered', 'items', 'view', 'derived ordered'):
            form = 'list'
        pairs = [(n, b.part(t, ())) for n, t in fs]
        if form == 'parsed':
            s = '{%s}' % ', '.join('%s: %s' % (
                text.literal(str(n)), text.canonical(t)) for n, t in fs)
            mon.refused('duplicates', (
                ValueError, datashape.DataShapeSyntaxError), datashape.dshape,
                s)
        else:
            mon.refused('duplicates', ValueError, make, form, pairs, r)
        mon.seen('dup', [n for n, _ in fs])
        return
    pairs = [(n, b.part(t, ())) for n, t in fs]
    given = list(pairs)
    if form == 'parsed':
        x = datashape.dshape(text.spell(('rec', tuple(
            (str(n), t) for n, t in fs)), r)).measure
        c = None
    else:
        x, c = make(form, pairs, r)
    if form in ('literal', 'syntax'):
        mon.count('literal')
    if len(fs) >= 20:
        mon.count('long')
    if any(not isinstance(n, str) for n, _ in fs):
        mon.count('numbered')
    want = tuple((str(n), t) for n, t in fs)
    look(mon, x, want)
    # the containers given and handed out are nobody's business afterwards
    if c is not None:
        if isinstance(c, list):
            for p in c:
                if isinstance(p, list):
                    p[0] = 'zz'
            c.append(('zz', 'int32'))
            c.reverse()
        else:
            c['zz'] = 'int32'
        mon.check('container changed', M.of(x) == ('rec', want), x)
    x.names.append('zz'), x.types.reverse(), x.dict.clear()
    n = x.names
    n.reverse()
    mon.check('view changed', M.of(x) == ('rec', want) and
              x.names == [s for s, _ in want], x)
    compare(mon, x, want, r)
    mon.check('given', all(p is q for p, q in zip(pairs, given)) and
              len(pairs) == len(given))
    mon.seen(fs)


def look(mon, x, want):
    names = [n for n, _ in want]
    mon.check('fields', type(x) is T.Record, x)
    f = x.fields
    mon.check('fields', len(f) == len(want) and
              [n for n, _ in f] == names and
              [M.of(t) for _, t in f] == [t for _, t in want], x, want)
    mon.check('names', list(x.names) == names and
              all(isinstance(n, str) for n in x.names), x, want)
    mon.check('types', [M.of(t) for t in x.types] == [t for _, t in want],
              x, want)
    d = x.dict
    mon.check('dict', {n: M.of(t) for n, t in d.items()} == dict(want) and
              list(d) == names, x, want)
    for n, t in want:
        mon.check('index', M.of(x[n]) == t, x, n)
    for n in names:
        for o in (n + ' ', n[:-1], n.upper(), n.swapcase()):
            if o not in d:
                mon.refused('no such field', KeyError, x.__getitem__, o)
                break
        break
    mon.refused('no such field', KeyError, x.__getitem__, 'no such field!')
    mon.check('fields', x.parameters == (f,), x)
    # printing: the names in order
    s = str(x)
    y = datashape.dshape(s).measure
    mon.check('printed', M.of(y) == ('rec', want) and y.names == names, s,
              'means', y.fields, 'instead of', want)
    y = eval(repr(x), {'dshape': datashape.dshape})
    mon.check('printed', M.of(y) == ('rec', want), repr(x), 'means', y)
    # export
    try:
        for _, t in want:
            npref.check_dtype(t, np.dtype('i1'))
    except (npref.Unspecified, npref.Refused):
        return
    if sum(4 * (m[1] or 0) for _, m in want if m[0] == 'string') > 10 ** 9:
        return                          # more than NumPy can count
    if any(m[0] in ('rec', 'ds', 'tup', 'opt', 'units', 'cat', 'map', 'fn')
           for _, m in want):
        return
    try:
        np.dtype([(n or 'empty', 'i1') for n in names])
    except (ValueError, TypeError, UnicodeError):
        return
    try:
        dt = x.to_numpy_dtype()
    except (TypeError, NotImplementedError, ValueError):
        # some field has no NumPy equivalent: then one on its own has none
        for _, t in want:
            if mon.outcome(T.to_numpy_dtype, M.build(t, True))[0] == 'error':
                return
        raise
    mon.check('exported', list(dt.names or ()) == names, x, dt)
    bad = npref.check_dtype(('rec', want), dt)
    mon.check('exported', bad is None, x, dt, bad)


def compare(mon, x, want, r):
    def same(y, yes):
        mon.check('same' if yes else 'different',
                  (x == y) is yes and (y == x) is yes and (x != y) is not yes
                  and (y != x) is not yes and
                  (not yes or hash(x) == hash(y)), x, 'and', y)
        mon.check('same' if yes else 'different',
                  (T.DataShape(x) == T.DataShape(y)) is yes, x, 'and', y)

    same(T.Record([(n, M.build(t)) for n, t in want]), True)
    same(T.R[tuple(slice(n, text.canonical(t)) for n, t in want)], True) \
        if want else None

    def rec(fs):
        return T.Record([(n, M.build(t)) for n, t in fs])
    n = len(want)
    fs = list(want)
    if n > 1:
        i, j = r.sample(range(n), 2)
        fs[i], fs[j] = fs[j], fs[i]
        same(rec(fs), False)            # other order
        i = r.randrange(n - 1)
        fs = list(want)
        fs[i], fs[i + 1] = fs[i + 1], fs[i]
        same(rec(fs), False)
        # types change places, names do not
        fs = list(want)
        i, j = r.sample(range(n), 2)
        fs[i], fs[j] = (fs[i][0], fs[j][1]), (fs[j][0], fs[i][1])
        same(rec(fs), tuple(fs) == want)
    if n:
        i = r.randrange(n)
        fs = list(want)
        new = r.choice((fs[i][0] + '_', fs[i][0] + ' ', fs[i][0].upper(),
                        fs[i][0][:-1], fs[i][0][::-1]))
        fs[i] = (new, fs[i][1])
        if len(dict(fs)) == n:
            same(rec(fs), new == want[i][0])
        fs = list(want)
        t = G.near(r, fs[i][1], g)
        fs[i] = (fs[i][0], t)
        same(rec(fs), t == want[i][1])
        del fs[i]
        same(rec(fs), False)
        same(rec(want[:-1]), False)
    fs = list(want)
    if '+' not in dict(want):
        fs.insert(r.randrange(n + 1), ('+', ('ct', 'int8')))
        same(rec(fs), False)
    for o in (None, dict(want), list(want), want, str(x)):
        mon.check('different', not x == o and x != o, x, o)


def run_flaw(mon, fs, i, flaw, r, b):
    k = [slice(str(n), b.part(t, ())) for n, t in fs]
    t = k[i].stop
    n = k[i].start
    k[i] = {'type': t, 'pair': (n, t), 'name': n, 'none': None,
            'missing type': slice(n, None), 'step': slice(n, t, t),
            'int name': slice(3, t), 'bytes name': slice(b'a', t),
            'list name': slice([n], t), 'no name': slice(None, t),
            'empty': slice(None), 'step only': slice(n, None, t),
            'none name': slice(None, None, t)}[flaw]
    key = tuple(k)
    if len(key) == 1 and r.random() < .5 and not isinstance(k[0], tuple):
        key = k[0]
    mon.refused('malformed literal', TypeError, T.R.__getitem__, key)
    mon.seen('flaw', flaw, i, [n for n, _ in fs])
