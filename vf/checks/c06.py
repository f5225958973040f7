"""C06: repr of a datashape evaluates back to it."""
import ast

import datashape

from vf import gen as G, model as M, text
from vf.checks import c01

RULE = ('random datashapes, records and tuples with names and string parameters '
        'over all of Unicode, short and long enough for several lines; their '
        'repr is compiled as an expression and evaluated with the public '
        'names.  Non-trivial: distinct representations.')
COUNT = {'quick': 24000, 'thorough': 400000}
REQUIRED = ('evaluates', 'expression', 'multi-line', 'escaped', 'record',
            'tuple', 'datashape')
g = G.Gen(most_cats=10)
PUBLIC = {}
exec('from datashape import *', PUBLIC)


def fixed(tier):
    for m in c01.small():
        yield m
    for s in G.SPICY + G.KEYWORDISH + G.PLAIN + ('',):
        for n in (1, 2, 9):
            yield ('rec', tuple((s + 'y' * i, ('time', s)) for i in range(n)))
            yield ('ds', (('fix', 3), ('tv', 'N')), ('tup', (
                ('rec', tuple((s + 'y' * i, ('units', s, ('ct', 'int8')))
                              for i in range(n))),) * 2))
    for cp in range(0x3000 if tier == 'quick' else 0x110000):
        c = chr(cp)
        yield ('rec', ((c, ('time', c + 'x')),))
        yield ('ds', (('var',),), ('rec', ((c + 'a' * 40, ('time', 'y' + c)), (
            'b' * 40 + c, ('units', c, ('ct', 'int8'))))))


def gen(r):
    k = r.random()
    if k < .05:
        return c01.gen(r)[1]
    m = g.top(r)
    if k < .4:
        m = ('rec', ((g.name(r), m), ('\u00e9' + g.ident(r) if False else
                                      G.ident(r) + 'z', g.any(r, 1))))
        if m[1][0][0] == m[1][1][0]:
            m = ('rec', m[1][:1])
    elif k < .6:
        m = ('tup', (m, g.any(r, 1)))
    return m


def mutate(r, m):
    return G.near(r, m, g)


def one(o, m, mon):
    s = repr(o)
    mon.check('str-type', type(s) is str)
    try:
        tree = ast.parse(s, mode='eval')
    except UnicodeEncodeError:
        # Python refuses lone surrogates in source: evaluate it escaped
        mon.count('surrogates')
        s = ''.join(c if not 0xd800 <= ord(c) < 0xe000 else
                    '\\u%04x' % ord(c) for c in s)
        tree = ast.parse(s, mode='eval')
    mon.check('expression', isinstance(tree.body, (ast.Call, ast.Name)), s)
    back = eval(s, dict(PUBLIC))
    mon.check('evaluates', repr(M.of(back)) == repr(m) and back == o and
              not back != o and hash(back) == hash(o), s, 'evaluates to',
              M.of(back), 'not', m)
    if '\n' in s:
        mon.count('multi-line')
    if '\\' in s:
        mon.count('escaped')
    mon.seen(s)


def run(m, mon):
    o = M.build(m, True)
    one(o, m, mon)
    mon.count('datashape')
    x = M.measure(m)
    if x[0] == 'rec':
        one(M.build(x), x, mon)
        mon.count('record')
    elif x[0] == 'tup':
        one(M.build(x), x, mon)
        mon.count('tuple')
