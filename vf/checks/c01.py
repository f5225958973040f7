"""C01: a datashape text denotes exactly the type it spells."""
import itertools

import datashape
from datashape import parser, type_symbol_table

from vf import gen as G, model as M, text

RULE = ('random types spelled with random layout, comments, quoting, escapes, '
        'aliases and sugar; all spellings of a list of small types; every kind '
        'of gap at every place of a text with every token.  Non-trivial: '
        'distinct pairs of type structure and token sequence.')
COUNT = {'quick': 24000, 'thorough': 400000}
REQUIRED = ('denotes', 'fresh-table', 'layout', 'same-hash', 'print-alike')
g = G.Gen()


class Script(object):
    """A source of 'random' choices that enumerates all of them."""

    def __init__(self):
        self.stack = []
        self.pos = 0

    def pick(self, n):
        if self.pos == len(self.stack):
            self.stack.append([0, n])
        k, m = self.stack[self.pos]
        self.pos += 1
        return k

    def next(self):
        self.pos = 0
        while self.stack:
            k, n = self.stack.pop()
            if k + 1 < n:
                self.stack.append([k + 1, n])
                return True
        return False

    def choice(self, seq):
        return seq[self.pick(len(seq))]

    def randrange(self, n):
        return self.pick(n)

    def shuffle(self, x):
        perms = list(itertools.permutations(x))
        x[:] = perms[self.pick(len(perms))]


class All(text.Style):
    def maybe(self, p=.5):
        return bool(self.r.pick(2))

    def lit(self, s):
        return [text.literal(s)] if self.r.pick(2) else \
            ["'" + text.literal(s)[1:-1].replace("'", "\\'").replace(
                '\\"', '"') + "'"]


def spellings(m, most=400):
    s = Script()
    for _ in range(most):
        yield text.join(All(s).toks(m))[0]
        if not s.next():
            return


def small():
    sc = [('ct', n) for n in M.CT_NAMES]
    sc += [('null',), ('date',), ('bytes',), ('json',), ('tv', 'T'),
           ('tv', 'True_'), ('time', None), ('time', 'UTC'),
           ('datetime', None), ('datetime', 'US/Eastern')]
    sc += [('timedelta', u) for u in G.UNITS]
    sc += [('string', n, e) for n in (None, 0, 7) for e in G.ENCODINGS]
    sc += [('decimal', 9, 0), ('decimal', 11, 2), ('units', 'm', ('ct', 'int8')),
           ('units', 'kg', ('ct', 'float64')),
           ('units', 's', ('ds', (('fix', 3),), ('ct', 'int8'))),
           ('cat', ('a', 'b'), ('string', None, 'U8'), True),
           ('cat', (1, -2), ('ct', 'int64'), False),
           ('cat', (), ('string', None, 'U8'), False),
           ('cat', (True, False), ('ct', 'bool'), False)]
    for m in sc:
        yield m
    i, s, a = ('ct', 'int32'), ('string', None, 'U8'), \
        ('ds', (('fix', 3), ('var',)), ('ct', 'int8'))
    dims = [('fix', 0), ('fix', 3), ('var',), ('ell', None), ('ell', 'A'),
            ('tv', 'N')]
    for n in (1, 2, 3):
        for ds in itertools.product(dims, repeat=n):
            if sum(d[0] == 'ell' for d in ds) < 2:
                yield ('ds', ds, i)
    comp = []
    for x in (i, s, a):
        comp += [('opt', x), ('rec', (('x', x),)), ('tup', (x,)),
                 ('fn', (), x), ('fn', (x,), i), ('map', i, x), ('map', x, s),
                 ('rec', (('x', i), ('y z', x))), ('tup', (i, x)),
                 ('fn', (i, x), s), ('opt', ('opt', x))]
    comp += [('rec', ()), ('tup', ())]
    for m in comp:
        yield m
        yield ('ds', (('fix', 3),), m)
        yield ('opt', m)
        yield ('tup', (m,))
        yield ('fn', (m,), m)
        yield ('map', i, m)
        yield ('rec', (('int32', m), ('True', i)))


def gaps():
    m = ('ds', (('fix', 10), ('ell', 'A'), ('tv', 'N')), ('rec', (
        ('x', ('opt', ('tup', (('ct', 'int8'), ('string', 5, 'A'))))),
        ('y z', ('fn', (('ct', 'bool'),), ('datetime', 'UTC'))),
        ('w', ('cat', ('a', 'b'), ('string', None, 'U8'), True)),
        ('v', ('ds', (('var',),), ('decimal', 4, 2))))))
    toks = text.Style().toks(m)
    fill = [' ', '\n', '\t', '\r\n', '\x0b', '\x0c', '\r', '\u00a0', '\u3000',
            '\x85', '\x1c', '\u2028', '#\n', '# c # ]\n', ' #x\n#y\n ',
            '#"\n', "#'\n", '#\r\n', '# \u2028 [\n']
    for f in fill:
        for i in range(len(toks) + 1):
            yield ''.join(toks[:i]) + f + ''.join(toks[i:]), m
        yield f.join(toks), m
    yield ''.join(toks) + '#', m
    yield ''.join(toks) + '# end', m


def fixed(tier):
    for m in small():
        for s in spellings(m, 150 if tier == 'quick' else 3000):
            yield (s, m)
    for c in gaps():
        yield c


def gen(r):
    k = r.random()
    if k < .01:
        m = ('rec', tuple((n, g.scalar(r)) for n in
                          sorted({G.ident(r) for _ in range(120)})))
    elif k < .02:
        m = g.scalar(r)
        for _ in range(r.randrange(5, 30)):
            m = r.choice((('opt', m), ('tup', (m,)), ('rec', (('x', m),)),
                          ('map', m, ('ct', 'int8')), ('fn', (m,), m) if
                          M.size(m) < 300 else ('tup', (m,)),
                          M.array((('fix', 2),), m)))
    elif k < .03:
        m = M.array(tuple(G.dim(r, ('fix', 'var', 'tv')) for _ in
                          range(r.randrange(7, 40))), g.measure(r, 1))
    else:
        m = g.top(r)
    return (text.spell(m, r), m)


def mutate(r, case):
    m = G.near(r, case[1], g)
    return (text.spell(m, r), m)


def run(case, mon):
    s, m = case
    ds = datashape.dshape(s)
    mon.check('class', type(ds) is datashape.DataShape, type(ds))
    got = M.of(ds)
    mon.check('denotes', repr(got) == repr(m), 'got', got, 'expected', m)
    ds2 = parser.parse(s, type_symbol_table.TypeSymbolTable())
    mon.check('fresh-table', repr(M.of(ds2)) == repr(m), M.of(ds2))
    plain = datashape.dshape(text.canonical(m))
    mon.check('layout', repr(M.of(plain)) == repr(m) and plain == ds and
              not plain != ds, M.of(plain))
    mon.check('same-hash', hash(plain) == hash(ds))
    mon.check('print-alike', str(plain) == str(ds) and
              repr(plain) == repr(ds), plain, ds)
    mon.seen(M.shape_key(m), s)
