"""C14: promotion is symmetric, NumPy-conformant and option-preserving."""
import itertools

import numpy as np

import datashape
from datashape import coretypes as T

from vf import gen as G, model as M, npref

RULE = ('all pairs of about 60 scalar types, and random pairs with random '
        'sizes, precisions, units and time zones; each pair optional or not on '
        'either side, wrapped in a datashape or not on either side, with '
        'either flag, in both orders (64 calls).  Non-trivial: distinct pairs '
        'of payloads.')
COUNT = {'quick': 12000, 'thorough': 200000}
REQUIRED = ('promoted', 'refused', 'identity', 'symmetric', 'strings',
            'wrapping', 'optionify', 'unchanged')

SCALARS = [('ct', n) for n in M.CT_NAMES] + [
    ('null',), ('date',), ('time', None), ('time', 'UTC'), ('datetime', None),
    ('datetime', 'UTC'), ('datetime', 'EST'), ('bytes',), ('json',),
    ('string', None, 'U8'), ('string', None, 'A'), ('string', None, 'U32'),
    ('string', 0, 'A'), ('string', 0, 'U32'), ('string', 5, 'U8'),
    ('string', 5, 'A'), ('string', 5, 'U32'), ('string', 9, 'U32'),
    ('string', 30, 'A'), ('string', 12, 'U16'),
    ('decimal', 2, 0), ('decimal', 4, 0), ('decimal', 9, 0),
    ('decimal', 18, 0), ('decimal', 19, 0), ('decimal', 11, 2),
    ('decimal', 25, 2), ('units', 'm', ('ct', 'float64')),
    ('units', 'm', ('ct', 'int32')), ('cat', ('a',), ('string', None, 'U8'),
                                      False), ('tv', 'T')] + [
    ('timedelta', u) for u in G.UNITS]
g = G.Gen(kinds=('ct', 'ct', 'string', 'string', 'decimal', 'timedelta',
                 'date', 'datetime', 'time', 'null', 'bytes'), small=True)


def fixed(tier):
    for a, b in itertools.combinations_with_replacement(SCALARS, 2):
        yield (a, b)


def gen(r):
    a = g.scalar(r) if r.random() < .7 else r.choice(SCALARS)
    k = r.random()
    b = G.near(r, a, g) if k < .3 else g.scalar(r) if k < .7 else \
        r.choice(SCALARS)
    return (a, M.measure(b) if M.measure(b)[0] in G.SCALARS else a)


def mutate(r, case):
    return (case[0], gen(r)[1])


def dtype(m, t):
    """The dtype of a payload, or Refused."""
    k = m[0]
    npref.check_dtype(m, np.dtype('V0'))
    if k == 'string':
        return np.dtype('O' if m[1] is None else '%s%d' % (
            'S' if m[2] == 'A' else 'U', m[1]))
    if k == 'decimal':
        return datashape.to_numpy_dtype(t)
    if k == 'ct':
        return np.dtype('V0') if m[1] == 'void' else np.dtype(
            npref.CT[m[1]].replace('O8', 'O'))
    return np.dtype({'date': 'M8[D]', 'datetime': 'M8[us]'}.get(k) or
                    'm8[%s]' % m[1])


STRING = ('string', None, 'U8')


def result(a, b):
    """The model of the promoted payload, or Refused."""
    if a == b == STRING:
        return STRING
    x = dtype(a, M.build(a))
    y = dtype(b, M.build(b))
    try:
        z = np.result_type(x, y)
    except TypeError:
        raise npref.Refused
    return npref.model_of(z)


def run(case, mon):
    a, b = case
    try:
        want = result(a, b)
    except npref.Refused:
        want = None
    except npref.Unspecified:
        return
    results = {}
    for oa, ob in itertools.product((False, True), repeat=2):
        ma = ('opt', a) if oa else a
        mb = ('opt', b) if ob else b
        for wa, wb, flag in itertools.product((False, True), repeat=3):
            x, y = M.build(ma, wa), M.build(mb, wb)
            before = (repr(x), repr(y), M.of(x), M.of(y))
            for lhs, rhs, ml, mr in ((x, y, ma, mb), (y, x, mb, ma)):
                args = (lhs, rhs) if flag and wa else (lhs, rhs, flag)
                if ml == mr:
                    got = datashape.promote(*args)
                    mon.check('identity', M.of(got) == ml and got == lhs,
                              args, 'gives', got)
                elif want is None:
                    mon.refused('refused', TypeError, datashape.promote, *args)
                    continue
                else:
                    got = datashape.promote(*args)
                    m = ('opt', want) if flag and (oa or ob) else want
                    mon.check('promoted', M.of(got) == m and got == M.build(m),
                              args, 'gives', got, 'expected', m)
                    if STRING in (a, b):
                        mon.count('strings')
                key = (oa, ob, flag, ml == ma)
                old = results.setdefault(key, got)
                mon.check('wrapping', old == got and hash(old) == hash(got),
                          args, 'gives', got, 'not', old)
                old = results.setdefault(key[:3], got)
                mon.check('symmetric', old == got, args, 'gives', got, 'not',
                          old)
                # on its own
                for m in (want, ('opt', a), b):
                    if m is None:
                        continue
                    o = datashape.optionify(lhs, rhs, M.build(m, wb))
                    w = m if m[0] == 'opt' or not (oa or ob) else ('opt', m)
                    mon.check('optionify', M.of(o) == w, lhs, rhs, m, 'gives',
                              o)
            mon.check('unchanged', (repr(x), repr(y), M.of(x), M.of(y)) ==
                      before, x, y)
    mon.seen(a, b)
