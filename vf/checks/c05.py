"""C05: printing a type and parsing the result gives the type back."""
import datashape
from datashape import pprint

from vf import gen as G, model as M, text
from vf.checks import c01

RULE = ('random types, built from the classes or parsed, with field names and '
        'string parameters over all of Unicode, printed with str() and with '
        'pprint() at widths from -5 to 10**6 and parsed again; pairs of types '
        'that differ in one place.  Non-trivial: distinct printed texts.')
COUNT = {'quick': 26000, 'thorough': 400000}
REQUIRED = ('str', 'pprint', 'stable', 'multi-line', 'part', 'alike', 'unlike',
            'repeat')
g = G.Gen(most_cats=10)
WIDTHS = tuple(range(1, 121)) + (-5, 0, 150, 200, 10 ** 6)


def fixed(tier):
    for m in c01.small():
        yield ('t', m, WIDTHS, True)
    for a, b in G.alike():
        yield ('p', a, b)
        yield ('t', a, (1, 7, 20, 80), False)
        yield ('t', b, (1, 7, 20, 80), True)
    for s in G.SPICY + G.KEYWORDISH + G.PLAIN + ('',):
        for m in (('rec', ((s, ('ct', 'int8')),)), ('time', s), ('datetime', s),
                  ('units', s, ('ct', 'float64')),
                  ('units', s, ('ds', (('fix', 2),), ('ct', 'int8'))),
                  ('cat', (s, 'b'), ('string', None, 'U8'), True),
                  ('tup', (('rec', ((s, ('time', s)), (s + 'x', ('opt', (
                      'units', s, ('rec', ((s, ('date',)),)))))),),)),
                  ('ds', (('fix', 3),), ('rec', ((s, ('ct', 'int8')),
                                                 (s + s + 'q', ('json',)))))):
            yield ('t', m, (1, 7, 20, 80), False)
    cps = range(0x3000) if tier == 'quick' else range(0x110000)
    for cp in cps:
        c = chr(cp)
        yield ('t', ('rec', ((c, ('time', c)), ('a' + c, ('units', c + 'b', (
            'ct', 'int8'))))), (80,), False)


def gen(r):
    if r.random() < .35:
        m = g.top(r)
        n = G.near(r, m, g)
        return ('p', m, n)
    if r.random() < .05:
        m = c01.gen(r)[1]
    else:
        m = g.top(r)
    ws = tuple(sorted({r.choice(WIDTHS) for _ in range(5)}))
    return ('t', m, ws, bool(r.getrandbits(1)))


def mutate(r, case):
    m = G.near(r, case[1], g)
    return ('t', m, tuple(r.choice(WIDTHS) for _ in range(5)), False)


def same(a, b):
    return repr(M.of(a)) == repr(M.of(b))


def run(case, mon):
    if case[0] == 'p':
        a, b = M.build(case[1], True), M.build(case[2], True)
        if str(a) == str(b) or pprint(a, 30) == pprint(b, 30):
            mon.check('alike', repr(case[1]) == repr(case[2]) and a == b, a,
                      'and', case[1], case[2], 'print alike')
        else:
            mon.check('unlike', a != b, a, b)
        mon.seen(str(a), str(b))
        return
    _, m, widths, parsed = case
    t = datashape.dshape(text.canonical(m)) if parsed else M.build(m, True)
    s = str(t)
    mon.check('str-type', type(s) is str)
    back = datashape.dshape(s)
    mon.check('str', repr(M.of(back)) == repr(m), s, 'denotes', M.of(back),
              'not', m)
    mon.check('str', back == t and hash(back) == hash(t), s)
    mon.check('stable', str(back) == s, s, 'then', str(back))
    for w in widths:
        p = pprint(t, w)
        back = datashape.dshape(p)
        mon.check('pprint', repr(M.of(back)) == repr(m), 'width', w, p,
                  'denotes', M.of(back), 'not', m)
        mon.check('stable', pprint(back, w) == p, p)
        if '\n' in p:
            mon.count('multi-line')
    mon.check('repeat', str(t) == s and pprint(t) == pprint(t), s)
    # the parts print as types of their own
    for x in set(M.walk(m)) if M.size(m) < 12 else ():
        o = M.build(x)
        back = datashape.dshape(str(o))
        mon.check('part', repr(M.of(back)) == repr(x), str(o), 'denotes',
                  M.of(back), 'not', x)
    mon.seen(s)
