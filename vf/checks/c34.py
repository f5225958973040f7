"""C34: the width given to pprint decides the layout and nothing else."""
import datashape
from datashape import pprint

from vf import gen as G, model as M, ref
from vf.checks import c01, c05

RULE = ('random types printed at widths from -5 to 10**9, in particular at and '
        'around every length at which the layout of a part changes; tokens '
        'against an independent spelling, layout against an independent '
        'typesetter.  Non-trivial: distinct printed texts.')
COUNT = {'quick': 20000, 'thorough': 500000}
REQUIRED = ('tokens', 'layout', 'one line', 'broken', 'boundary', 'default',
            'wide enough', 'bare measure', 'nested break', 'dimensions',
            'repeat')
g = G.Gen(most_cats=10)
plain = G.Gen(kinds=('ct', 'string', 'date', 'time', 'units', 'rec', 'rec',
                     'tup', 'opt'), opt_arrays=False, names='plain')
flat = G.Gen(kinds=('ct', 'string', 'json', 'rec', 'rec', 'tup'), cats=('str',))
WIDTHS = c05.WIDTHS + (10 ** 9, 79, 80, 81)


def fixed(tier):
    for m in c01.small():
        yield ('t', m, tuple(range(-2, 100)) + (10 ** 9,))


def gen(r):
    k = r.random()
    m = g.top(r) if k < .3 else plain.any(r, r.choice((2, 3, 4))) if k < .65 \
        else flat.any(r, r.choice((2, 3, 4, 5)))
    return ('t', m, tuple(r.choice(WIDTHS) for _ in range(3)))


def mutate(r, case):
    return ('t', G.near(r, case[1], r.choice((g, plain))),
            tuple(r.choice(WIDTHS) for _ in range(3)))


class Typesetter(object):
    """Lays out the arrays, records and tuples of a model."""

    def __init__(self):
        self.leaves, self.names = {}, {}
        self.lengths = set()        # at which the layout of some part changes
        self.deep = 0

    def leaf(self, m):
        if m not in self.leaves:
            self.leaves[m] = str(M.build(m))
        return self.leaves[m]

    def name(self, s):
        if s not in self.names:
            one = pprint(datashape.Record([(s, 'int8')]), 10 ** 9)
            self.names[s] = one[1:-len(': int8}')]
        return self.names[s]

    def dims(self, m):
        return ''.join(str(M.build_dim(d)) + ' * ' for d in M.dims(m))

    def lines(self, m, width, lost=0, depth=0):
        """The lines of m; lost is how much of the width is gone."""
        head, m = self.dims(m), M.measure(m)
        if m[0] not in ('rec', 'tup'):
            return [head + self.leaf(m)]
        opening, closing = '{}' if m[0] == 'rec' else '()'
        gone = lost + len(head)
        parts = []
        for x in m[1]:
            if m[0] == 'rec':
                ls = self.lines(x[1], width, gone + len(x[0]), depth + 1)
                ls[0] = self.name(x[0]) + ': ' + ls[0]
            else:
                ls = self.lines(x, width, gone, depth + 1)
            parts.append(ls)
        if all(len(ls) == 1 for ls in parts):
            one = head + opening + ', '.join(ls[0] for ls in parts) + closing
            self.lengths.add(len(one) + lost)
            if len(one) < width - lost:
                return [one]
        self.deep = max(self.deep, depth)
        for ls in parts[:-1]:
            ls[-1] += ','
        return [head + opening] + ['  ' + line for ls in parts for line in ls
                                   ] + ['  ' + closing]


def laid_out(m):
    """Are records only within arrays, records and tuples, and none is empty?"""
    m = M.measure(m)
    if m[0] == 'rec':
        return bool(m[1]) and all(laid_out(t) for _, t in m[1])
    if m[0] == 'tup':
        return bool(m[1]) and all(map(laid_out, m[1]))
    return not any(x[0] == 'rec' for x in M.walk(m))


def tokens(s):
    return [(name, val) for name, _, val in ref.lex(s)]


def run(case, mon):
    _, m, widths = case
    t = M.build(m, True)
    if M.dims(m) == () and len(repr(m)) % 2:
        t = t.measure
        mon.count('bare measure')
    want = tokens(str(t))
    if isinstance(t, datashape.Record):
        mon.check('default', str(t) == pprint(t), m)
    mon.check('default', pprint(t) == pprint(t, 80) == pprint(t, width=80), m)
    regular = laid_out(m)
    if M.dims(m):
        mon.count('dimensions')
    if regular:
        # where the layout changes
        ts, seen = Typesetter(), 0
        ts.lines(m, 10 ** 9)
        edges = sorted(ts.lengths)
        more = [w + d for w in edges[::max(1, len(edges) // 4)]
                for d in (0, 1)]
        mon.count('boundary', len(more))
        widths = tuple(widths) + tuple(more) + (10 ** 9,)
    for w in widths:
        p = pprint(t, w)
        mon.check('tokens', tokens(p) == want, m, 'width', w, p)
        mon.check('repeat', pprint(t, w) == p, m, w)
        if regular:
            ts = Typesetter()
            lines = ts.lines(m, w)
            mon.check('layout', p == '\n'.join(lines), 'width', w, 'prints\n',
                      p, '\nexpected\n', '\n'.join(lines))
            mon.count('one line' if len(lines) == 1 else 'broken')
            mon.count('nested break', int(ts.deep > 0))
            if w == 10 ** 9:
                mon.check('wide enough', '\n' not in p, m, p)
            mon.seen(p)
