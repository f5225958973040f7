"""C23: type sets behave as sets and maxtype widens within the family."""
import copy
import itertools
import pickle
import random

import datashape
import numpy as np
from datashape import coretypes as T, typesets as S

from vf import gen as G, model as M

RULE = ('random type sets of any types with unions, membership tests and '
        'comparisons over histories of them; maxtype and supertype of every '
        'scalar type and of random types, optional or not, wrapped or not; '
        'the predefined sets; argument lists against signatures.  '
        'Non-trivial: distinct sets, types and signatures.')
BIG = (160, 300)
COUNT = {'quick': 30000, 'thorough': 700000}
REQUIRED = ('member', 'not member', 'union', 'order', 'equal', 'different',
            'maxtype', 'idempotent', 'refused', 'supertype', 'predefined',
            'pickled', 'signature', 'named')
INT = ('int8', 'int16', 'int32', 'int64')
UINT = ('uint8', 'uint16', 'uint32', 'uint64')
FLOAT = ('float16', 'float32', 'float64')
CPLX = ('complex[float32]', 'complex[float64]')
BOTH = tuple(x for p in zip(INT, UINT) for x in p)
SETS = {'signed': INT, 'unsigned': UINT, 'integral': BOTH, 'floating': FLOAT,
        'complexes': CPLX, 'boolean': ('bool',), 'real': BOTH + FLOAT,
        'numeric': BOTH + FLOAT + CPLX,
        'scalar': ('bool',) + BOTH + FLOAT + CPLX}
FAMILY = {n: f for f in ('signed', 'unsigned', 'floating', 'complexes',
                         'boolean') for n in SETS[f]}
g = G.Gen(most_cats=3)
scalars = G.Gen(kinds=('ct', 'ct', 'ct', 'decimal', 'timedelta', 'date',
                       'string', 'null'))


FOREIGN = (None, 0, 1, 1.5, '', 'int32', 'real', b'int8', (), int, object,
           np.dtype('int32'), np.int8, np.int32(1), Ellipsis, ('int8',),
           T.CType, T.Fixed(3), T.Var(), frozenset(), frozenset((1,)))


AGAIN = []


def forget(name):
    inner = getattr(S.registry, 'registry', None)
    if isinstance(inner, dict):
        inner.pop(name, None)


def typ(r):
    k = r.random()
    if k < .04:     # these print alike
        n = r.choice((10, 11, 12))
        return ('cat', tuple(range(n)) + r.choice(((), (n,), (n + 1,))),
                ('ct', 'int64'), False)
    if k < .6:
        return ('ct', r.choice(M.CT_NAMES))
    return scalars.scalar(r) if k < .8 else g.top(r, 1)


def gen(r):
    k = r.random()
    if k < .45:
        a = tuple(typ(r) for _ in range(G.count(r, (0, 1, 2, 3, 5, 9),
                                                grows=True)))
        b = tuple(typ(r) if r.random() < .6 or not a else r.choice(a)
                  for _ in range(G.count(r, (0, 1, 2, 3, 5), grows=len(a) < 9)))
        if r.random() < .25:
            b = tuple(r.sample(a, len(a))) if r.random() < .5 else a
        return ('sets', a, b, r.getrandbits(30))
    if k < .85:
        x = scalars.scalar(r) if r.random() < .6 else g.top(r)
        return ('max', ('opt', x) if r.random() < .4 and x[0] != 'opt' else x)
    n = r.choice((1, 1, 2, 3))
    return ('signature', tuple(('ct', r.choice(M.CT_NAMES)) if r.random() < .8
                               else typ(r) for _ in range(n)),
            tuple(r.choice(sorted(SETS)) if r.random() < .7 else
                  ('ct', r.choice(M.CT_NAMES)) for _ in range(n)))


def fixed(tier):
    for m in itertools.chain((('ct', n) for n in M.CT_NAMES),
                             (('decimal', p, s) for p in (1, 18, 30)
                              for s in (0, 2)),
                             (('timedelta', u) for u in G.UNITS),
                             (('date',), ('null',), ('time', None), ('bytes',),
                              ('json',), ('string', None, 'U8'), ('rec', ()),
                              ('rec', (('a', ('ct', 'int8')),)), ('tup', ()),
                              ('tup', (('ct', 'int8'),)), ('tv', 'T'),
                              ('map', ('ct', 'int8'), ('ct', 'int8')),
                              ('units', 'm', ('ct', 'int8')),
                              ('cat', (1,), ('ct', 'int8'), False),
                              ('fn', (), ('ct', 'int8')))):
        yield ('max', m)
        yield ('max', ('opt', m))
    yield ('predefined',)
    for a in M.CT_NAMES:
        for s in sorted(SETS):
            yield ('signature', (('ct', a),), (s,))


def mutate(r, case):
    if case[0] == 'max':
        return ('max', M.measure(G.near(r, case[1], g)))
    return gen(r)


def is_eq(mon, oracle, a, b, want):
    mon.check(oracle, (a == b) is want and (b == a) is want and
              (a != b) is (not want) and (not want or hash(a) == hash(b)),
              a, b, 'expected', want)


def run(case, mon):
    globals()['run_' + case[0]](mon, *case[1:])
    mon.seen(case)


def run_predefined(mon):
    for name, members in SETS.items():
        s = S.registry[name]
        mon.check('predefined', s is S.lookup(name), name)
        mon.check('predefined', getattr(S, name, s) == s, name)
        mon.check('predefined', tuple(M.of(t)[1] for t in s) == members and
                  tuple(M.of(t)[1] for t in s.types) == members, s)
        for o in FOREIGN + members:
            mon.check('predefined', o not in s, o, name)
        for n in M.CT_NAMES:
            mon.check('predefined', (M.build(('ct', n)) in s) is
                      (n in members), n, name)


def run_max(mon, m):
    if M.dims(m):
        return
    option = m[0] == 'opt'
    x = m[1] if option else m
    if option and x[0] in ('opt', 'ds'):
        return
    for wrap in (False, True):
        t = M.build(m, wrap)
        before = (M.of(t), repr(t))
        if x[0] == 'ct' and x[1] in FAMILY:
            want = ('ct', SETS[FAMILY[x[1]]][-1])
        elif x[0] in ('decimal', 'timedelta'):
            want = x
        else:
            mon.refused('refused', TypeError, datashape.maxtype, t)
            continue
        got = datashape.maxtype(t)
        w = ('opt', want) if option else want
        mon.check('maxtype', M.of(got) == w, t, 'gives', got)
        mon.check('idempotent', M.of(datashape.maxtype(got)) == w, t)
        mon.check('maxtype', (M.of(t), repr(t)) == before, t)
        if x[0] == 'ct' and not wrap:
            f = S.supertype(t)
            mon.check('supertype', f.name == FAMILY[x[1]] and
                      f is S.registry[f.name] and M.build(x) in f, t, f)


def run_signature(mon, types, sig):
    ts = tuple(map(M.build, types))
    ss = tuple(S.registry[s] if isinstance(s, str) else M.build(s)
               for s in sig)
    want = all(t[0] == 'ct' and t[1] in SETS[s] if isinstance(s, str)
               else t == s for t, s in zip(types, sig))
    got = datashape.matches_typeset(ts, ss)
    mon.check('signature', bool(got) == want, ts, ss, 'gives', got)
    if len(ts) == 1 and isinstance(sig[0], str):
        got = datashape.matches_typeset(ts[0], ss[0])
        mon.check('signature', bool(got) == want, ts, ss, 'gives', got)


def run_sets(mon, a, b, seed):
    r = random.Random(seed)
    ta, tb = [M.build(m) for m in a], [M.build(m, True) for m in b]
    x, y = datashape.TypeSet(*ta), datashape.TypeSet(*tb)
    sets = [(x, a), (y, b), (x | y, a + b), (y | x, b + a),
            (x | y | x, a + b + a), (x | x, a + a)]
    mon.count('union', 4)
    for s, ms in sets:
        # iteration, before and after other questions
        for _ in range(2):
            mon.check('order', tuple(map(M.of, s)) == ms and
                      tuple(map(M.of, s.types)) == ms, s, ms)
            mon.check('order', len(s) == len(set(ms)), s)
            for m in ms:
                mon.check('member', M.build(m) in s and
                          M.build(m, True) in s, m, s)
            for m in [typ(r) for _ in range(3)] + list(a + b):
                mon.check('member' if m in ms else 'not member',
                          (M.build(m) in s) is (m in ms), m, s)
        repr(s), str(s), hash(s)
        for o in FOREIGN + tuple(str(M.build(m)) for m in ms[:3]):
            mon.check('not member', o not in s, o, s)
    for (s, ms), (t, ns) in itertools.combinations_with_replacement(sets, 2):
        if ms == ns:
            is_eq(mon, 'equal', s, t, True)
        elif set(ms) != set(ns) or len(ms) == len(ns):
            is_eq(mon, 'different', s, t, False)
    for o in (None, 1, 'x', (), tuple(x), set(), M.build(('ct', 'int8'))):
        mon.check('different', x != o and not x == o, x, o)
    # named
    AGAIN.append(None)
    name = 'vf %d %d %s' % (seed, len(AGAIN), a)
    z = datashape.TypeSet(*ta, name=name)
    mon.check('named', S.registry[name] is z and z.name == name, z)
    is_eq(mon, 'named', z, x, False)
    mon.check('named', tuple(map(M.of, z)) == a, z)
    mon.check('named', (z | y).name is None, z)
    forget(name)                # so that the case can be repeated
    try:
        w = datashape.TypeSet(*[M.build(m) for m in a], name=name)
    except TypeError:
        pass
    else:
        is_eq(mon, 'named', z, w, True)
        forget(name)
    for s in (x, z, x | y):
        p = pickle.loads(pickle.dumps(s, r.randrange(5)))
        is_eq(mon, 'pickled', p, s, True)
        is_eq(mon, 'pickled', copy.deepcopy(s), s, True)
        mon.check('pickled', tuple(map(M.of, p)) == tuple(map(M.of, s)) and
                  p.name == s.name, p)
