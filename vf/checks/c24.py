"""C24: assert_dshape_equal against a comparison of models."""
import random
import re

import datashape
from datashape import coretypes as T
from datashape.util.testing import assert_dshape_equal

from vf import gen as G, model as M, routes, text

RULE = ('pairs of types: equal ones built along different routes, ones that '
        'differ in one place at any depth, ones that differ in several, and '
        'ones that differ only in what a random subset of the six flags '
        'ignores; every verdict is compared with the comparison of the two '
        'models after the ignored parts are struck out.  Non-trivial: '
        'distinct (pair, flags).')
COUNT = {'quick': 60000, 'thorough': 1200000}
REQUIRED = ('equal', 'unequal', 'path', 'ignored', 'order ignored',
            'arguments unchanged', 'symmetric', 'bare', 'dimensions')
FLAGS = ('check_dim', 'check_tz', 'check_timedelta_unit', 'check_str_encoding',
         'check_str_fixlen', 'check_record_order')
DIMS = (lambda: T.Fixed(3), lambda: T.Fixed(0), T.Var, T.Ellipsis,
        lambda: T.Ellipsis(T.TypeVar('A')))
OWN = (T.Fixed, T.Var, T.Ellipsis)
OTHERS = DIMS + (lambda: T.int32, lambda: T.Record([('a', T.int8)]),
                 lambda: datashape.dshape('3 * int32'), lambda: T.TypeVar('A'),
                 lambda: datashape.dshape('var * A'),
                 lambda: T.Fixed(4), lambda: T.Option(T.int8))
g = G.Gen(most_cats=3)
h = G.Gen(kinds=('ct', 'time', 'datetime', 'timedelta', 'string', 'string',
                 'units', 'cat', 'opt', 'rec', 'rec', 'tup', 'fn', 'map'),
          most_cats=2, names='plain')


def norm(m, off, ndim=True):
    """m without what the flags switched off ignore."""
    k = m[0]
    kids = [norm(c, off, ndim) for c in M.children(m)]
    if k == 'ds':
        if 'check_dim' not in off:
            return ('ds', m[1], kids[0])
        if not ndim:
            return kids[0]
        return ('ds', (('var',),) * len(m[1]), kids[0])
    if k in ('time', 'datetime') and 'check_tz' in off:
        return (k, None)
    if k == 'timedelta' and 'check_timedelta_unit' in off:
        return (k, 'us')
    if k == 'string':
        return (k, None if 'check_str_fixlen' in off else m[1],
                'U8' if 'check_str_encoding' in off else m[2])
    if k == 'rec':
        fs = [(n, t) for (n, _), t in zip(m[1], kids)]
        return (k, tuple(sorted(fs, key=lambda f: f[0])
                         if 'check_record_order' in off else fs))
    if k == 'cat':
        return ('cat', m[1], kids[0], m[3])
    return M.rebuild(m, kids) if kids else m


TOKENS = {'units': ('.tp',), 'cat': ('.type',), 'opt': ('.ty',),
          'map': ('.key', '.value')}


def diff(a, b):
    """The path to the only difference, as tokens; None if several."""
    if a[0] != b[0]:
        return []
    ca, cb = M.children(a), M.children(b)
    k = a[0]
    pa, pb = list(ca), list(cb)
    if k == 'rec':
        pa, pb = list(a[1]), list(b[1])
    if len(pa) != len(pb):
        if len(pa) > len(pb):
            pa, pb = pb, pa
        return [] if any(pa == pb[:i] + pb[i + 1:]
                         for i in range(len(pb))) else None
    if k == 'rec' and [n for n, _ in pa] != [n for n, _ in pb]:
        return [] if ca == cb and sum(
            x != y for x, y in zip(pa, pb)) == 1 else None
    own = (a[1] != b[1] if k == 'ds' else
           (a[1], a[3]) != (b[1], b[3]) if k == 'cat' else
           a[1] != b[1] if k == 'units' else
           not ca and a != b)
    bad = [i for i, (x, y) in enumerate(zip(ca, cb)) if x != y]
    if own:
        return None if bad else (
            ['.shape'] if k == 'ds' else [])
    if len(bad) != 1:
        return None
    i = bad[0]
    rest = diff(ca[i], cb[i])
    if rest is None:
        return None
    if k == 'ds':
        return rest
    if k == 'rec':
        t = '[%r]' % (a[1][i][0],)
    elif k == 'tup':
        t = '[%d]' % i
    elif k == 'fn':
        t = '.restype' if i == len(ca) - 1 else '.argtypes[%d]' % i
    else:
        t = TOKENS[k][i]
    return [t] + rest


FILL = re.compile(r'(\.measure|\.dshapes)*')
TAIL = re.compile(r'(\.measure|\.dshapes)*(\.[a-z_]+(\[\d+\])?)?\Z')


def names_path(line, tokens):
    if not line.startswith('path: _'):
        return not tokens
    at = len('path: _')
    for t in tokens:
        at = FILL.match(line, at).end()
        if not line.startswith(t, at):
            return False
        at += len(t)
        if t == '.shape':
            return True
    return TAIL.match(line, at) is not None


def scramble(r, m, off):
    """m changed in what the flags ignore, only."""
    k = m[0]
    kids = [scramble(r, c, off) for c in M.children(m)]
    if k == 'ds':
        ds = m[1]
        if 'check_dim' in off:
            ds = tuple(G.dim(r, ('fix', 'var')) if d[0] != 'ell' and
                       r.random() < .6 else d for d in ds)
        return ('ds', ds, kids[0])
    if k in ('time', 'datetime') and 'check_tz' in off:
        return h.scalar(r, k)
    if k == 'timedelta' and 'check_timedelta_unit' in off:
        return h.scalar(r, k)
    if k == 'string':
        o = h.scalar(r, k)
        return (k, o[1] if 'check_str_fixlen' in off else m[1],
                o[2] if 'check_str_encoding' in off else m[2])
    if k == 'rec':
        fs = [(n, t) for (n, _), t in zip(m[1], kids)]
        if 'check_record_order' in off:
            r.shuffle(fs)
        return (k, tuple(fs))
    if k == 'cat':
        return ('cat', m[1], kids[0], m[3])
    return M.rebuild(m, kids) if kids else m


def gen(r):
    k = r.random()
    off = () if k < .35 else tuple(f for f in FLAGS if r.random() < .4)
    if k > .97:
        off = FLAGS
    x = h if r.random() < .6 else g
    a = x.top(r)
    b = a
    if r.random() < .6:
        b = scramble(r, a, off)
    k = r.random()
    if k < .45:
        b = G.near(r, b, x)
    elif k < .55:
        b = G.near(r, G.near(r, b, x), x)
    elif k < .6:
        b = x.top(r)
    elif k < .68:
        b = scramble(r, b, (r.choice(FLAGS),))
    return (a, b, off, r.getrandbits(30))


def fixed(tier):
    for k, (a, b) in enumerate(G.alike()):
        yield (a, b, (), k)
        yield (a, b, FLAGS if k % 2 else ('check_record_order',), k)
    base = [('ct', 'int32'), ('time', 'UTC'), ('datetime', None),
            ('timedelta', 'us'), ('string', None, 'U8'), ('string', 3, 'A'),
            ('ds', (('fix', 3),), ('ct', 'int8')),
            ('rec', (('a', ('ct', 'int8')), ('b', ('time', None)))),
            ('rec', (('b', ('time', None)), ('a', ('ct', 'int8'))))]
    other = base + [('time', None), ('timedelta', 'ms'), ('string', 3, 'U8'),
                    ('datetime', 'UTC'),
                    ('ds', (('fix', 4),), ('ct', 'int8'))]
    wrap = [lambda x: x, lambda x: ('opt', x), lambda x: ('tup', (x, x)),
            lambda x: ('rec', (('q', ('ct', 'int8')), ('w', x))),
            lambda x: ('fn', (x,), ('ct', 'int8')),
            lambda x: ('fn', (('ct', 'int8'),), x),
            lambda x: ('map', x, ('ct', 'int8')),
            lambda x: ('map', ('ct', 'int8'), x),
            lambda x: ('units', 'm', x),
            lambda x: ('cat', ('a',), M.measure(x), True),
            lambda x: M.array((('fix', 2),), x)]
    for w in wrap:
        for a in base:
            for b in other:
                for off in [()] + [(f,) for f in FLAGS] + [FLAGS]:
                    yield (w(a), w(b), off, 0)


def mutate(r, case):
    a, b, off, _ = case
    if r.random() < .5:
        b = G.near(r, b, h)
    else:
        a = G.near(r, a, h)
    return (a, b, off, r.getrandbits(30))


def compare(a, b, flags):
    try:
        r = assert_dshape_equal(a, b, **flags)
    except AssertionError as e:
        return str(e)
    return r


def run(case, mon):
    a, b, off, seed = case
    r = random.Random(seed)
    na, nb = norm(a, off), norm(b, off)
    if na != nb and norm(a, off, False) == norm(b, off, False):
        return                          # other numbers of dimensions
    x, y = M.build(a, True), M.build(b, True)
    if r.random() < .4:
        x = routes.Builder(r).wrapped(a, ())
    if r.random() < .3:
        y = datashape.dshape(text.spell(b, r))
    flags = {f: False for f in off}
    if r.random() < .2:
        flags.update({f: True for f in FLAGS if f not in off})
    before = (M.of(x), str(x), hash(x), M.of(y), str(y), hash(y))
    for u, v, m, n, back in ((x, y, na, nb, 0), (y, x, nb, na, 1)):
        msg = compare(u, v, flags)
        if m == n:
            mon.check('equal', msg is None, u, v, flags, 'gives', msg)
            if a != b:
                mon.count('ignored')
                if 'check_record_order' in off and norm(
                        a, [f for f in off if f != 'check_record_order']
                        ) != norm(b, [f for f in off
                                      if f != 'check_record_order']):
                    mon.count('order ignored')
        else:
            mon.check('unequal', isinstance(msg, str), u, v, flags, 'gives',
                      msg)
            tokens = diff(norm(m, off, False), norm(n, off, False))
            if tokens is not None:
                line = msg.rsplit('\n', 1)[-1]
                mon.check('path', names_path(line, tokens), u, v, flags,
                          'says', msg, 'and the difference is at', tokens)
        if back:
            mon.count('symmetric')
    if 'ds' not in (a[0], b[0]):
        msg = compare(M.build(a), M.build(b), flags)
        mon.check('bare', (msg is None) == (na == nb), a, b, flags, 'gives',
                  msg)
        for u, v in ((x, M.build(b)), (M.build(a), y)):
            msg = compare(u, v, flags)
            mon.check('bare', (msg is None) == (na == nb), u, v, flags,
                      'gives', msg)
    # dimensions are no types
    d = r.choice(DIMS)()
    for u, v in ((d, x), (x, d), (d, r.choice(OTHERS)()),
                 (r.choice(OTHERS)(), d)):
        msg = compare(u, v, flags)
        same = type(u) is type(v) and u == v
        if 'check_dim' in off and isinstance(u, OWN) and isinstance(v, OWN):
            same = msg is None          # all of them to be ignored
        mon.check('dimensions', msg is None if same else
                  isinstance(msg, str), u, v, flags, 'gives', msg)
    mon.check('arguments unchanged', (
        M.of(x), str(x), hash(x), M.of(y), str(y), hash(y)) == before, x, y)
    mon.seen(a, b, off)
