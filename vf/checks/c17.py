"""C17: table columns get the least common type, optional iff data is missing."""
import copy
import itertools
import random

import datashape
from datashape import discovery

from vf import data, gen as G, model as M

RULE = ('tables of 1-70 rows and 1-20 columns, each column of one or several '
        'kinds of scalars and scalar texts with or without missing cells, as '
        'lists of lists, of tuples, of dictionaries (keys absent, in any '
        'order); every table again with its rows and keys permuted.  All '
        'subsets of the ordered types for lowest_common_dshape.  Non-trivial: '
        'distinct tables.')
COUNT = {'quick': 36000, 'thorough': 600000}
REQUIRED = ('column', 'optional', 'all missing', 'row order', 'key order',
            'array', 'tuple', 'record', 'lowest common', 'no common type',
            'input unchanged', 'derived classes', 'long')

# kinds of values that belong to each ordered type
CELLS = {
    ('ct', 'int32'): [('i4', 5), ('i4', 0), ('i4', 77)],
    ('ct', 'int64'): [('int', 1), ('int', -7), ('int', 2 ** 40), ('i8', 3),
                      ('str', '12'), ('str', '-1'), ('str', ' 5 '),
                      ('str', '007')],
    ('ct', 'float64'): [('float', '1.5'), ('float', 'nan'), ('f8', 2),
                        ('float', '-0'), ('str', '2.5'), ('str', '1e10'),
                        ('str', 'inf'), ('str', '.5')],
    ('string', None, 'U8'): [('str', 'Alice'), ('str', 'x 1'), ('str', ' '),
                             ('str', 'Zoë'), ('str', '1 2 3 4'),
                             ('str', '-'), ('str', 'monday')],
    ('date',): [('date', (2014, 1, 1)), ('str', '2014-01-01'),
                ('str', 'Jan 5, 2014'), ('date', (1, 1, 1))],
    ('datetime', None): [('datetime', (2014, 1, 1, 12, 0, 0, 0)),
                         ('str', '2014-01-01 12:30:00'),
                         ('str', '2014-01-01T01:00:00'),
                         ('datetime', (2014, 1, 1, 0, 0, 0, 0))],
    ('ct', 'bool'): [('bool', True), ('bool', False), ('str', 'True'),
                     ('str', 'false')],
    ('timedelta', 'us'): [('timedelta', (1, 0, 0)), ('str', '5 us'),
                          ('str', '3 microseconds')],
}
# comparable only with themselves
LONERS = {
    ('time', None): [('time', (1, 2, 0, 2)), ('str', '12:30:00')],
    ('ct', 'complex[float64]'): [('complex', '1j'), ('complex', '0j')],
    ('string', None, 'A'): [('bytes', b'abc'), ('bytes', b'')],
    ('timedelta', 'D'): [('str', '1 day'), ('str', '2 D')],
    ('ct', 'float32'): [('f4', 1)], ('ct', 'uint8'): [('u1', 1)],
}
ALL = dict(CELLS)
ALL.update(LONERS)
for _t, _xs in ALL.items():
    for _x in _xs:
        assert data.base(_x) == _t, (_x, data.base(_x))
MISSING = [('none', 0), ('str', ''), ('none', 0), ('null', 1)]
NUM = [('ct', 'int32'), ('ct', 'int64'), ('ct', 'float64')]
DATES = [('date',), ('datetime', None)]


def column(r, n):
    k = r.random()
    if k < .25:
        ts = [r.choice(list(ALL))]
    elif k < .55:
        ts = r.sample(NUM, 2)
    elif k < .7:
        ts = DATES
    elif k < .75:
        ts = []
    else:
        ts = r.sample(list(CELLS), r.choice((2, 2, 3, 4)))
    p = r.choice((0, 0, .2, .5, .8))
    if n > 4 and ts and r.random() < .4:        # one odd cell
        out = [r.choice(ALL[ts[0]]) for _ in range(n)]
        out[r.choice((0, n - 1, n - 1, r.randrange(n)))] = \
            r.choice(MISSING) if p > .4 else r.choice(ALL[ts[-1]])
        return out
    return [r.choice(MISSING) if not ts or r.random() < p else
            r.choice(ALL[r.choice(ts)]) for _ in range(n)]


def gen(r):
    n = G.count(r, (1, 2, 2, 3, 3, 4, 5, 9), 70, grows=True)
    k = G.count(r, (1, 1, 2, 2, 3, 4, 6), 20 if n < 10 else 6, grows=n < 10)
    n, k = max(n, 1), max(k, 1)
    cols = [column(r, n) for _ in range(k)]
    if r.random() < .25:
        cols = [cols[0]] * k if r.random() < .5 else [
            [r.choice(ALL[('ct', 'int64')]) for _ in range(n)]
            for _ in range(k)]
    names = data.names(r, k) if r.random() < .3 else []
    for _ in range(k - len(names)):
        s = G.name(r, r.choice(('plain', 'any')))
        while s in names:
            s = G.ident(r)
        names.append(s)
    return ('table', r.choice(('LL', 'LT', 'TL', 'TT', 'D', 'D', 'D', 'O')),
            tuple(names), tuple(map(tuple, cols)), r.getrandbits(30),
            r.choice((0, 0, .3, .7)))


def fixed(tier):
    types = sorted(CELLS)
    for k in range(1, len(types) + 1):
        for ts in itertools.combinations(types, k):
            yield ('lowest', ts)
    for k in (2, 3):
        for ts in itertools.product(types, repeat=k):
            yield ('lowest', ts)
    for a, b in itertools.product(sorted(ALL), repeat=2):
        yield ('lowest', (a, b))
        for miss in (False, True):
            for kind in ('LL', 'TT', 'D'):
                for seed in range(3):
                    rows = [ALL[a][0], ALL[b][-1]] + [('none', 0)] * miss
                    yield ('table', kind, ('x',), (tuple(rows),), seed, 0)
                    yield ('table', kind, ('x', 'y'), (
                        tuple(rows), tuple(rows[::-1])), seed, 0)


    # one odd cell in a table of many rows
    odd = [(('ct', 'int64'), None), (('ct', 'int64'), ('ct', 'float64')),
           (('ct', 'int64'), ('string', None, 'U8')), (('date',), None),
           (('date',), ('datetime', None)), (('string', None, 'U8'), None),
           (('ct', 'int32'), ('ct', 'float64'))]
    for i, (n, (a, b)) in enumerate(itertools.product(
            (2000, 5000, 12000, 70000), odd)):
        if n < 70000 or i % 7 < 3:
            for kind in ('LL', 'TT', 'D', 'absent'):
                at = {0: n - 1, 1: n // 2, 2: n - n // 7}[
                    (i + len(kind)) % 3]
                if kind != 'absent' or b is None:
                    yield ('long', n, kind, a, b, at)


def long_table(mon, n, kind, a, b, at):
    x, y, z = data.decode(ALL[a][0]), data.decode(ALL[a][-1]), None
    odd = None if b is None else data.decode(ALL[b][-1])
    rows = []
    for i in range(n):
        c = odd if i == at else y if i % 3 else x
        if kind in ('D', 'absent'):
            rows.append({'b': 'text', 'a': c} if c is not None or
                        kind == 'D' else {'b': 'text'})
        else:
            rows.append([c, 'text'] if kind == 'LL' else (c, 'text'))
    t = ('opt', a) if b is None else least_of([a, b])
    u = ('string', None, 'U8')
    want = ('rec', (('a', t), ('b', u))) if kind in ('D', 'absent') else \
        M.array((('fix', 2),), t) if t == u else ('tup', (t, u))
    got = M.of(datashape.discover(tuple(rows) if kind == 'TT' else rows))
    mon.check('long', got == M.array((('fix', n),), want), n, 'rows', kind,
              a, b, 'at', at, 'give', repr(got)[:400])
    mon.seen('long', n, kind, a, b)


def mutate(r, case):
    if case[0] == 'long':
        return gen(r)
    if case[0] == 'lowest':
        return gen(r)
    _, kind, names, cols, seed, p = case
    i = r.randrange(len(cols))
    cols = cols[:i] + (tuple(column(r, len(cols[0]))),) + cols[i + 1:]
    return ('table', r.choice((kind, 'LL', 'D')), names, cols,
            r.getrandbits(30), p)


def common(cells):
    """The model of a column; None if it has none."""
    present = [data.base(x) for x in cells if x is not None and
               not data.missing(x)]
    if not present:
        return ('null',)
    m = least_of(present)
    if m is None:
        return None
    return m if len(present) == len(cells) else ('opt', m)


def least_of(types):
    if len(set(types)) == 1:
        return types[0]
    return data.least(types)


def run(case, mon):
    if case[0] == 'long':
        return long_table(mon, *case[1:])
    if case[0] == 'lowest':
        objs = [M.build(m) for m in case[1]]
        want = least_of(case[1])
        if want is None or any(m in LONERS for m in case[1]):
            if want is None:
                mon.refused('no common type', ValueError,
                            discovery.lowest_common_dshape, objs)
            return
        got = discovery.lowest_common_dshape(objs)
        mon.check('lowest common', M.of(got) == want, objs, 'give', got)
        got = discovery.lowest_common_dshape(objs[::-1])
        mon.check('lowest common', M.of(got) == want, objs, 'give', got)
        mon.seen(case[1])
        return
    _, kind, names, cols, seed, p = case
    r = random.Random(seed)
    n = len(cols[0])
    cols = [list(c) for c in cols]
    if kind in ('D', 'O'):          # some keys absent
        cols = [[None if r.random() < p else x for x in c] for c in cols]
    rows = list(zip(*cols))
    if kind in ('D', 'O'):
        used = [j for j, c in enumerate(cols)
                if any(x is not None for x in c)]
        types = {names[j]: common(cols[j]) for j in used}
        if any(t is None for t in types.values()):
            mon.outcome(datashape.discover, table(kind, names, rows, r))
            return
        want = ('rec', tuple((k, types[k]) for k in sorted(types)))
        mon.count('record')
    else:
        types = [common(c) for c in cols]
        if any(t is None for t in types):
            mon.outcome(datashape.discover, table(kind, names, rows, r))
            return
        if len(set(types)) == 1:
            want = M.array((('fix', len(cols)),), types[0])
            mon.count('array')
        else:
            want = ('tup', tuple(types))
            mon.count('tuple')
        types = dict(enumerate(types))
    mon.count('optional', int(any(t[0] == 'opt' for t in types.values())))
    mon.count('all missing', int(any(t[0] == 'null' for t in types.values())))
    want = M.array((('fix', n),), want)
    t = table(kind, names, rows, r)
    if r.random() < .15:
        t = data.dressed(t, r)
        mon.count('derived classes')
    old = repr(t)
    got = datashape.discover(t)
    mon.check('column', M.of(got) == want, t, 'gives', got, 'expected', want)
    mon.check('input unchanged', repr(t) == old, t)
    for i in range(3):
        rs = rows[::-1] if i == 0 else r.sample(rows, n)
        t = table(kind, names, rs, r)
        got = datashape.discover(t)
        mon.check('row order' if kind not in ('D', 'O') else 'key order',
                  M.of(got) == want, t, 'gives', got, 'expected', want)
    mon.seen(kind, names, cols)


def table(kind, names, rows, r):
    if kind in ('D', 'O'):
        out = []
        for row in rows:
            items = [(k, x) for k, x in zip(names, row) if x is not None]
            r.shuffle(items)
            out.append(data.decode((
                kind if r.random() < .8 else r.choice('DO'),) + tuple(items)))
        return out if r.random() < .7 else tuple(out)
    return data.decode((kind[0],) + tuple((kind[1],) + row for row in rows))
