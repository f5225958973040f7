"""C08: equality and hashing are structural and consistent."""
import copy
import itertools
import pickle
import random

import datashape
import numpy as np
from datashape import coretypes as T

from vf import gen as G, model as M, routes, text
from vf.checks import c01

RULE = ('pairs of types that are the same, differ in one place, or are '
        'unrelated, each built along two routes; all pairs of a list of small '
        'types; comparisons with foreign objects; hashes and verdicts '
        're-observed after random calls.  Non-trivial: distinct pairs of '
        'types.')
COUNT = {'quick': 32000, 'thorough': 500000}
REQUIRED = ('equal', 'unequal', 'hash', 'foreign', 'history', 'dimensions',
            'set', 'transitive')
g = G.Gen(most_cats=14)


class Hostile(object):
    def __eq__(self, other):
        raise RuntimeError('compared')

    __ne__ = __eq__
    __hash__ = None


FOREIGN = (None, 0, 1, True, 1.5, '', 'int32', 'dshape("int32")', b'', (), [],
           {}, set(), object(), object, int, type, Ellipsis, NotImplemented,
           np.int32, np.dtype('int32'), np.int32(1), Hostile(), T.int32,
           ('int32',), [1], T.Fixed, T.DataShape, lambda: 0, slice(1),
           frozenset(), 2 ** 70, 'var', '3', -1)

DIMS = [('fix', n) for n in (0, 1, 2, 3, 255, 2 ** 31, 2 ** 64, 10 ** 20)] + [
    ('var',), ('ell', None), ('ell', 'A'), ('ell', 'B'), ('tv', 'A'),
    ('tv', 'B'), ('tv', 'AB')]


def fixed(tier):
    yield ('dims',)
    for k, (a, b) in enumerate(G.alike()):
        yield ('pair', a, b, k)
    small = list(c01.small())
    step = 7 if tier == 'quick' else 1
    for k, (a, b) in enumerate(itertools.combinations_with_replacement(
            small, 2)):
        if a is b or k % step == 0:
            yield ('pair', a, b, k)
    for k, a in enumerate(small):
        yield ('foreign', a, k)


def gen(r):
    m = c01.gen(r)[1] if r.random() < .04 else g.top(r)
    if r.random() < .04:    # print alike with their last categories changed
        c = ('cat', tuple(range(r.choice((10, 11, 12, 20)))),
             ('ct', 'int64'), False)
        m = M.array(M.dims(m), r.choice((
            c, ('opt', c), ('rec', (('a', c),)), ('tup', (c,)))))
    k = r.random()
    s = r.getrandbits(30)
    if k < .25:
        return ('pair', m, m, s)
    if k < .7:
        n = G.near(r, m, g)
        if r.random() < .2:
            n = G.near(r, n, g)
        return ('pair', m, n, s)
    if k < .8:
        return ('pair', m, g.top(r), s)
    if k < .85:
        return ('foreign', m, s)
    return ('history', m, s)


def mutate(r, case):
    if case[0] == 'dims':
        return gen(r)
    return ('pair', case[1], G.near(r, case[1], g), r.getrandbits(30))


def build(m, r):
    k = r.randrange(5)
    if k == 0:
        x = M.build(m, bool(r.getrandbits(1)))
    elif k == 1:
        x = datashape.dshape(text.spell(m, r))
    elif k == 2:
        x = pickle.loads(pickle.dumps(M.build(m), r.randrange(6)))
    elif k == 3:
        x = copy.deepcopy(M.build(m, True))
    else:
        x = routes.Builder(r).any(m)
    if r.random() < .3:
        hash(x)
    return x


def meddle(x, r, others=()):
    """Something that must not change x."""
    k = r.randrange(16)
    try:
        if k == 0:
            str(x), repr(x), datashape.pprint(x, 20)
        elif k == 1:
            hash(x)
        elif k == 2:
            x == 3, x != 'int32', x == T.int32
        elif k == 3:
            datashape.to_numpy(x)
        elif k == 4:
            x.subshape[0]
        elif k == 5:
            x.subshape[1:2]
        elif k == 6:
            pickle.loads(pickle.dumps(x))
        elif k == 7:
            datashape.promote(x, T.int64)
        elif k == 8:
            datashape.dshape(x)
        elif k == 9:
            3 * x, T.Option(x), T.Tuple([x])
        elif k == 10:
            datashape.has_var_dim(x), datashape.isfixed(x), \
                datashape.isscalar(x)
        elif k == 11:
            x.subarray(1)
        elif k == 12:
            sorted(x.measure.dict), x.measure.names.append('q'), \
                x.measure.types.clear()
        elif k == 13:
            datashape.cat_dshapes([x, x])
        elif k == 14:
            from datashape.user import issubschema, validate
            issubschema(x, x), validate(x, [1])
        else:
            from datashape.util.testing import assert_dshape_equal
            assert_dshape_equal(x, datashape.dshape('3 * int8'))
    except Exception:
        pass


def verdict(x, y, same, mon):
    r = (x == y, y == x, x != y, y != x)
    mon.check('equal' if same else 'unequal',
              r == ((True, True, False, False) if same else
                    (False, False, True, True)) and
              all(type(v) is bool for v in r), r, repr(x), 'and', repr(y))
    if same:
        mon.check('hash', hash(x) == hash(y), x, y)
        mon.check('set', len({x, y}) == 1 and {x: 1}[y] == 1 and x in [y], x, y)
    else:
        mon.check('set', len({x, y}) == 2 and x not in [y], x, y)


def run(case, mon):
    kind = case[0]
    if kind == 'dims':
        for a in DIMS:
            for b in DIMS:
                x, y = M.build_dim(a), M.build_dim(b)
                verdict(x, y, a == b, mon)
                mon.count('dimensions')
        # a fixed dimension also equals the whole number of its size
        for n in (0, 1, 2, 3, 255, 2 ** 31, 2 ** 64, 10 ** 20):
            x = T.Fixed(n)
            for k in (n, n + 1, n - 1, -n - 1, 2 ** 64 - n - 1, float(n),
                      str(n), (n,), n + .5, complex(n), None):
                same = type(k) is int and k == n
                mon.check('dimensions', (x == k) is same and
                          (k == x) is same and (x != k) is not same and
                          (k != x) is not same, x, k)
        return
    m = case[1]
    r = random.Random(case[-1])
    if kind == 'pair':
        x, y = build(m, r), build(case[2], r)
        same = m == case[2]
        verdict(x, y, same, mon)
        verdict(x, x, True, mon)
        z = build(m, r)
        verdict(x, z, True, mon)
        verdict(z, y, same, mon)
        mon.count('transitive')
        # the parts of a type and the type itself
        kids = M.children(m)
        for c in kids[:2]:
            verdict(x, build(c, r), m == c, mon)
        mon.seen(m, case[2])
    elif kind == 'foreign':
        x = build(m, r)
        for f in FOREIGN:
            if f is T.int32:
                continue
            mon.check('foreign', (x == f) is False and (x != f) is True, x,
                      type(f).__name__)
            if not isinstance(f, (Hostile, np.generic, np.dtype)):
                mon.check('foreign', (f == x) is False and (f != x) is True,
                          type(f).__name__, x)
        for o in [M.build(c) for c in M.walk(m)][:8]:
            for f in FOREIGN:
                if f is not T.int32:
                    mon.check('foreign', (o == f) is False, o,
                              type(f).__name__)
        mon.seen('foreign', m)
    else:
        x, twin, n = build(m, r), build(m, r), G.near(r, m, g)
        y = build(n, r)
        h = hash(x) if r.random() < .6 else None
        eq = x == y
        mon.check('history', eq == (m == n), x, y)
        for _ in range(r.randrange(1, 12)):
            meddle(r.choice((x, y, twin)), r)
        if h is not None:
            mon.check('history', hash(x) == h, x)
        mon.check('history', hash(x) == hash(twin) == hash(M.build(m)), x)
        mon.check('history', (x == y) == eq and x == twin and
                  x == M.build(m, True) and M.of(x) == m, x, y)
        mon.seen('history', m, n)
