"""C19: type predicates answer for the type, not for its spelling."""
import random

import datashape
from datashape import coretypes as T, predicates as P

from vf import gen as G, model as M, routes, text

RULE = ('random types asked every predicate as text in a random layout, as '
        'datashape built along a random route, and as bare measure; all small '
        'types.  Non-trivial: distinct types.')
COUNT = {'quick': 22000, 'thorough': 500000}
REQUIRED = ('isscalar', 'isrecord', 'iscollection', 'istabular', 'isfixed',
            'ishomogeneous', 'isnumeric', 'isreal', 'isboolean', 'isdatelike',
            'isdimension', 'text', 'datashape', 'bare', 'unchanged',
            'yes', 'no', 'unknown')


class Sane(G.Gen):
    """No option inside another, none over an array outside a compound."""

    def measure(self, r, depth):
        m = G.Gen.measure(self, r, depth)
        while m[0] == 'opt' and m[1][0] == 'opt':
            m = m[1]
        return m


g = Sane(most_cats=3)
flat = Sane(kinds=('ct', 'ct', 'ct', 'date', 'datetime', 'decimal', 'string',
                   'rec', 'rec', 'tup', 'opt', 'opt', 'map', 'fn'),
            dims=('fix', 'fix', 'var'), names='plain', opt_arrays=False)
long = Sane(most_cats=14, arrays=False, inner_arrays=False)
SCALAR = {'ct', 'null', 'date', 'time', 'datetime', 'timedelta', 'units',
          'bytes', 'string', 'decimal', 'cat', 'tv'}
INTS = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
        'uint64'}
FLOATS = {'float16', 'float32', 'float64'}
COMPLEX = {'complex[float32]', 'complex[float64]'}


def unopt(m):
    return m[1] if m[0] == 'opt' else m


def scalar(m):
    k = unopt(m)[0]
    return None if k == 'json' else k in SCALAR


def leaves(m):
    """The scalar types in m."""
    if m[0] == 'ds':
        return leaves(m[2])
    if scalar(m) is not False:
        return {m}
    out = set()
    for c in M.children(m):
        out |= leaves(c)
    return out


def nested(m):
    """m and the parts isfixed looks into; None: unspecified."""
    out = [m]
    k = m[0]
    if k in ('fn', 'units', 'cat'):
        return None if any(M.dims(x) or x[0] == 'tv' for x in M.walk(m)) \
            else out
    for c in M.children(m):
        x = nested(c)
        if x is None:
            return None
        out += x
    return out


def answers(m):
    """What each predicate answers; absent: unspecified."""
    ds, x = M.dims(m), M.measure(m)
    u = unopt(x)
    inner = u[0] == 'ds'            # an optional array
    out = {'iscollection': bool(ds)}
    if not ds:
        if scalar(x) is not None:
            out['isscalar'] = scalar(x)
        out['isrecord'] = u[0] == 'rec'
    else:
        out['isscalar'] = out['isrecord'] = False
    out['istabular'] = len(ds) == 1 and u[0] == 'rec'
    parts = nested(m)
    if parts is not None:
        dims = [d[0] for p in parts for d in M.dims(p)]
        free = 'tv' in dims or any(p[0] == 'tv' for p in parts)
        if not free:
            out['isfixed'] = not ({'var', 'ell'} & set(dims))
        else:
            out['isfixed'] = None           # something falsy
    if not any(y[0] == 'json' for y in M.walk(m)):
        out['ishomogeneous'] = len(leaves(m)) == 1
    if not inner:
        if u[0] == 'decimal':
            if u[1] <= 18 or u[2]:
                out['isnumeric'] = True
        elif u[0] != 'timedelta':
            out['isnumeric'] = u[0] == 'ct' and \
                u[1] in INTS | FLOATS | COMPLEX
        out['isreal'] = u[0] == 'ct' and u[1] in FLOATS
        out['isboolean'] = u == ('ct', 'bool')
        out['isdatelike'] = u[0] in ('date', 'datetime')
    return out


def twins(r):
    """A type of several scalars that are alike or nearly so."""
    a = long.scalar(r)
    if a[0] == 'json':
        a = ('string', None, 'A')
    b = a
    while b == a or scalar(b) is not True or len(M.dims(b)) > 0:
        b = G.near(r, a, long) if r.random() < .8 else flat.scalar(r)
    xs = [a] * r.choice((1, 2, 9)) + [r.choice((a, b))]
    r.shuffle(xs)
    if r.random() < .3:
        xs[0] = ('opt', xs[0])
    return ('tup', tuple(xs)) if r.random() < .5 else \
        ('rec', tuple(('x%d' % i, x) for i, x in enumerate(xs)))


def gen(r):
    m = twins(r) if r.random() < .08 else \
        (g if r.random() < .5 else flat).top(r)
    return (m, r.getrandbits(30))


def fixed(tier):
    from vf.checks import c01
    for m in c01.small():
        if not any(x[0] == 'opt' and x[1][0] == 'opt' for x in M.walk(m)):
            yield (m, 1)
            yield (m, 2)


def mutate(r, case):
    m = G.near(r, case[0], g)
    if any(x[0] == 'opt' and M.measure(x[1])[0] == 'opt' for x in M.walk(m)):
        return gen(r)
    return (m, r.getrandbits(30))


def run(case, mon):
    m, seed = case
    r = random.Random(seed)
    bare = M.build(m)
    forms = [('text', text.spell(m, r)), ('text', str(M.build(m))),
             ('datashape', M.build(m, True)),
             ('datashape', datashape.dshape(routes.Builder(r).any(m)))]
    if m[0] != 'ds':
        forms.append(('bare', bare))
    if not text_ok(m):
        forms = forms[:1] + forms[2:]
    old = [(x, repr(x), None if isinstance(x, str) else M.of(x))
           for _, x in forms]
    want = answers(m)
    for name, w in want.items():
        f = getattr(P, name)
        for form, x in forms:
            if form == 'bare' and name in ('isfixed', 'istabular') and \
                    m[0] == 'opt' and m[1][0] == 'ds':
                continue
            got = f(x)
            if w is None:
                mon.check(name, not got, form, x, 'gives', got)
                mon.count('unknown')
            else:
                mon.check(name, type(got) is bool and got == w, form, x,
                          'gives', got, 'expected', w)
                mon.count('yes' if w else 'no')
            mon.count(form)
    for d in M.dims(m):
        if d[0] != 'tv':
            mon.check('isdimension', P.isdimension(M.build_dim(d)) is True, d)
        if d[0] == 'fix':
            mon.check('isdimension', P.isdimension(d[1]) is True, d[1])
    for x in M.walk(m):
        if x[0] != 'tv' and x[0] != 'ds':
            mon.check('isdimension', P.isdimension(M.build(x)) is False, x)
            mon.check('isdimension', P.isdimension(M.build(x, True)) is False,
                      x)
    mon.check('unchanged', old == [(x, repr(x), None if isinstance(x, str) else
                                    M.of(x)) for _, x in forms])
    mon.seen(m)


def text_ok(m):
    """str() spells m: no abbreviated categories."""
    return not any(x[0] == 'cat' and len(x[1]) > 10 for x in M.walk(m))
