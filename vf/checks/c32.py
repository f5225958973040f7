"""C32: the work an operation does grows moderately with what it is given.

Families of inputs of growing size (the same step repeated 4, 8, 16 and 32
times) are put through every operation, while the calls and lines executed are
counted; doubling the input must not multiply the count by more than a fixed
factor.  Counts do not depend on the machine or its load.
"""
import collections
import copy
import pickle
import random
import sys

import numpy as np

import datashape
from datashape import coretypes as T, discovery as D, typesets
from datashape.util import collect, testing

from vf import data, gen as G, known, model as M, text

RULE = ('families of types (a random context applied over and over, or a list '
        'of members growing), of texts, well-formed and damaged at the end, '
        'of values and of schemas with a conforming value, at four sizes; '
        'every operation on each.  Non-trivial: distinct (family, operation).')
BIG = (0, 0)
COUNT = {'quick': 700, 'thorough': 14000}
REQUIRED = ('deep', 'wide', 'text', 'damaged', 'values', 'schema', 'grown')
SIZES = (4, 8, 16, 32)
WIDE = (25, 50, 100, 200)
FACTOR = 8          # cubic growth is tolerated
SLACK = 40000
TOOL = 4
WHERE = datashape.__path__[0]
MOST = 5 * 10 ** 6

g = G.Gen(most_cats=3)


class TooMuch(BaseException):
    pass


class Work(object):
    """Counts calls and lines executed, and stops at a limit."""

    def __init__(self):
        m = sys.monitoring
        self.m = m
        if m.get_tool(TOOL) is None:
            m.use_tool_id(TOOL, 'work')
        E = m.events
        m.register_callback(TOOL, E.LINE, self.one)
        m.register_callback(TOOL, E.CALL, self.one)
        self.events = E.LINE | E.CALL

    def one(self, code, *args):
        self.n += 1
        # not while the interpreter holds a lock, e.g. of an import
        if self.n > self.limit and code.co_filename.startswith(WHERE):
            self.m.set_events(TOOL, 0)
            raise TooMuch()

    def measure(self, f, limit):
        self.n, self.limit = 0, limit
        depth = sys.getrecursionlimit()
        sys.setrecursionlimit(2500)
        self.m.set_events(TOOL, self.events)
        try:
            f()
        except RecursionError:
            return None
        except Exception:       # refusing is work, too
            pass
        finally:
            self.m.set_events(TOOL, 0)
            sys.setrecursionlimit(depth)
        return self.n


WORK = []


def grows(mon, oracle, name, make, sizes, what):
    """Measures make(n)() for the sizes, and compares."""
    if not WORK:
        WORK.append(Work())
    before = None
    row = []
    for n in sizes:
        f = make(n)
        if f is None:
            break
        limit = MOST if before is None else FACTOR * before + SLACK
        try:
            c = WORK[0].measure(f, limit)
        except TooMuch:
            row.append('more than %d' % limit)
            return row, False
        if c is None:
            mon.count('too deep')
            break
        row.append(c)
        before = c
    if len(row) > 1:
        mon.count(oracle)
        mon.count('grown', len(row) - 1)
        mon.count('events', sum(row))
    return row, True


def check(mon, oracle, name, make, sizes, what):
    row, ok = grows(mon, oracle, name, make, sizes, what)
    if not ok:
        mon.fail(oracle, name, 'on', what, 'takes', row, 'steps at sizes',
                 sizes)


# ---------------------------------------------------------------- types

def contexts(r):
    """One to three types with a hole: (model, path)."""
    out = []
    while len(out) < r.choice((1, 1, 2, 3)):
        m = g.any(r, r.choice((1, 1, 2)))
        ps = [p for p in M.paths(m) if 0 < len(p) <= 2 and
              M.at(m, p[:-1])[0] != 'cat' and not (
                  M.at(m, p[:-1])[0] == 'opt' and len(p) > 1 and
                  M.at(m, p[:-2])[0] == 'opt')]
        if ps and M.size(m) < 10:
            out.append((m, r.choice(ps)))
    return tuple(out)


def nested(steps, leaf, n):
    m = leaf
    for i in range(n):
        c, p = steps[i % len(steps)]
        if M.at(c, p[:-1])[0] == 'ds' and m[0] == 'ds':
            m = ('tup', (m,))
        if len(p) and M.at(c, p[:-1])[0] in ('opt',) and m[0] == 'opt':
            m = ('tup', (m,))
        m = M.replace(c, p, m)
    return m


def members(kind, seed, n):
    r = random.Random(seed)
    few = [g.any(r, r.choice((0, 0, 1, 2))) for _ in range(r.choice((1, 2, 4)))]
    step = r.choice((1, 2, 7))
    few = [few[i * step % len(few)] for i in range(n)]
    scalar = g.scalar(r)
    if kind == 'rec':
        return ('rec', tuple(('f%d' % i, x) for i, x in enumerate(few)))
    if kind == 'tup':
        return ('tup', tuple(few))
    if kind == 'fn':
        return ('fn', tuple(few), scalar)
    if kind == 'dims':
        ds = [G.dim(r, ('fix', 'var', 'tv')) for _ in range(3)]
        return M.array([ds[i * step % 3] for i in range(n)], scalar)
    if kind == 'cat':
        k = r.choice(('str', 'int', 'bool'))
        return ('cat', tuple('c%d' % i if k == 'str' else i if k == 'int' else
                             i % 3 == 0 for i in range(n)),
                M.measure(scalar), False)
    if kind == 'names':
        return ('rec', (('x' * n, scalar), ('\'"\\\n' * n, scalar),
                        ('\u00e9' * n, scalar)))
    if kind == 'fix':
        return ('ds', (('fix', 10 ** n),), M.measure(scalar))
    return ('units', 'm' * n, scalar)


KINDS = 'rec', 'tup', 'fn', 'dims', 'cat', 'names', 'fix', 'units'

# On x, an equal y, and z that differs in one place, all made anew
OPERATIONS = collections.OrderedDict([
    ('str', lambda x, y, z: str(x)),
    ('repr', lambda x, y, z: repr(x)),
    ('hash', lambda x, y, z: hash(x)),
    ('equal', lambda x, y, z: x == y),
    ('unequal', lambda x, y, z: (x == z, z != x)),
    ('pickle', lambda x, y, z: pickle.loads(pickle.dumps(x))),
    ('pickle 0', lambda x, y, z: pickle.loads(pickle.dumps(x, 0))),
    ('deepcopy', lambda x, y, z: copy.deepcopy(x)),
    ('copy', lambda x, y, z: copy.copy(x)),
    ('parse', lambda x, y, z: datashape.dshape(str(x))),
    ('evaluate', lambda x, y, z: eval(repr(x), vars(datashape).copy())),
    ('dshape', lambda x, y, z: datashape.dshape(x)),
    ('validation', lambda x, y, z: datashape.validation.validate(x)),
    ('wrap', lambda x, y, z: T.DataShape(3, T.Record([('a', x), ('b', z)]))),
    ('record', lambda x, y, z: T.Record([('a', x)])['a']),
    ('tuple', lambda x, y, z: T.Tuple([x, y, z])),
    ('times', lambda x, y, z: 3 * x),
    ('option', lambda x, y, z: T.Option(x)),
    ('shape', lambda x, y, z: (x.shape, x.measure, len(x))),
    ('index', lambda x, y, z: x[0]),
    ('slices', lambda x, y, z: x.subshape[0] if isinstance(x, T.DataShape)
     else x.subarray(0)),
    ('subarray', lambda x, y, z: x.subarray(len(x) - 1)),
    ('has_var_dim', lambda x, y, z: datashape.has_var_dim(x)),
    ('has_ellipsis', lambda x, y, z: datashape.has_ellipsis(x)),
    ('isfixed', lambda x, y, z: datashape.isfixed(x)),
    ('ishomogeneous', lambda x, y, z: datashape.ishomogeneous(x)),
    ('predicates', lambda x, y, z: (
        datashape.isscalar(x), datashape.isrecord(x), datashape.isnumeric(x),
        datashape.iscollection(x), datashape.isdatelike(x),
        datashape.isboolean(x), datashape.isreal(x), datashape.istabular(x))),
    ('collect', lambda x, y, z: list(collect(lambda t: isinstance(
        t, T.CType), x))),
    ('collect none', lambda x, y, z: collect(lambda t: False, x)),
    ('to_numpy_dtype', lambda x, y, z: datashape.to_numpy_dtype(x)),
    ('numpy', lambda x, y, z: datashape.from_numpy(
        (), datashape.to_numpy_dtype(x))),
    ('from_numpy', lambda x, y, z: datashape.from_numpy((), np.dtype([
        ('a', datashape.to_numpy_dtype(x)), ('b', 'i4')]))),
    ('assert equal', lambda x, y, z: testing.assert_dshape_equal(x, y)),
    ('assert unequal', lambda x, y, z: testing.assert_dshape_equal(x, z)),
    ('assert unordered', lambda x, y, z: testing.assert_dshape_equal(
        x, y, check_record_order=False, check_dim=False)),
    ('issubschema', lambda x, y, z: (datashape.issubschema(x, y),
                                     datashape.issubschema(x, z))),
    ('promote', lambda x, y, z: datashape.promote(x, y)),
    ('promote other', lambda x, y, z: datashape.promote(x, z)),
    ('type set', lambda x, y, z: y in typesets.TypeSet(x, z)),
    ('unite', lambda x, y, z: D.unite_base([x, y, z])),
    ('merge', lambda x, y, z: D.unite_merge_dimensions([3 * x, 4 * y])),
    ('identical', lambda x, y, z: D.unite_identical([x, y])),
    ('cat', lambda x, y, z: datashape.cat_dshapes([3 * x, 4 * y])),
    ('validate', lambda x, y, z: datashape.validate(x, [1])),
])


def on_types(mon, oracle, f, sizes, m1, m2, what, names):
    for name in names:
        op = OPERATIONS[name]

        def make(n):
            try:
                x, y, z = M.build(m1(n)), M.build(m1(n)), M.build(m2(n))
            except (TypeError, ValueError):
                return None
            return lambda: op(x, y, z)

        check(mon, oracle, name, make, sizes, what)
        mon.seen(oracle, name, what)


# ---------------------------------------------------------------- texts

DAMAGE = (lambda s: s[:-1], lambda s: s[:-1] + '~', lambda s: s + ')',
          lambda s: s + ',', lambda s: s[:2 * len(s) // 3],
          lambda s: s + ' -> ', lambda s: s.replace('int', '', 1),
          lambda s: s + " '", lambda s: '(' + s, lambda s: s + ' * int32',
          lambda s: s[:len(s) // 2] + ';' + s[len(s) // 2:],
          lambda s: s.rstrip(')]}'), lambda s: s.replace(')', '', 1),
          lambda s: s[:-1] + ', ]')

PIECES = ['(', '{', '[', '?', ')', '...', 'var * ', '3 * ', 'A... * ', '{a: ',
          '(int32, ', 'option[', 'map[', 'map[int32, ', 'map[(', '() -> ',
          '(A) -> ', '((', 'tuple[[', "struct[['a'], [", 'struct[[', ',',
          'categorical[[', '#\n', '# x\r', '\n', ' ', '\t', '-', '1', 'a',
          '"', "'", '\\', "'a', ", '1, ', 'A * ', '*', '->', '{"a": (', ': ',
          'categorical[[1], type=', 'units["m", ', '(?', '?(', 'x[', '[[',
          'x[a=', "{'", '\u00e9', '1.', 'tuple[', 'decimal[', '(int32) -> (',
          '(1 * ', '{a: int32, b: ', 'int32, ', 'a: int32, ', 'x=1, ']


def run_text(mon, parts, tail, sizes):
    def make(n):
        s = ''.join(parts[i % len(parts)] for i in range(n)) + tail
        return lambda: datashape.dshape(s)
    check(mon, 'text', 'parse', make, sizes, (parts, tail))
    mon.seen('text', parts, tail)


# ---------------------------------------------------------------- values

def wrap_value(w, v, i):
    k, s = w[0], data.decode(w[1])
    return {
        'list': lambda: [v], 'tuple': lambda: (v,), 'pair': lambda: [v, s],
        'row': lambda: (s, v), 'three': lambda: [s, v, s],
        'dict': lambda: {'a': v}, 'dict2': lambda: {'a': v, 'b': s},
        'ordered': lambda: collections.OrderedDict([('b', v), ('a', s)]),
        'table': lambda: [{'a': v}], 'table2': lambda: [{'a': v}, {'a': s}],
        'rows': lambda: [(v, s)], 'rows2': lambda: [(v, s), (s, s)],
        'nulls': lambda: [{'a': v, 'b': None}], 'mixed': lambda: [v, {'a': s}],
        'ragged': lambda: [[v], [s, s]], 'lists': lambda: [[v]],
    }[k]()


WRAPS = ('list', 'tuple', 'pair', 'row', 'three', 'dict', 'dict2', 'ordered',
         'table', 'table2', 'rows', 'rows2', 'nulls', 'mixed', 'ragged',
         'lists')


def backtracks(v):
    """Whether discovery may have to give up on the columns of a table in v
    (rows of one length, or dictionaries), which is the listed finding."""
    if isinstance(v, (list, tuple)):
        if len(v) > 1 and (
                all(isinstance(x, dict) for x in v) or
                all(isinstance(x, (list, tuple)) for x in v) and
                len(set(map(len, v))) == 1):
            return True
        return any(map(backtracks, v))
    if isinstance(v, dict):
        return any(map(backtracks, v.values()))
    return False


def run_values(mon, steps, leaf):
    def value(n):
        v = data.decode(leaf)
        for i in range(n):
            v = wrap_value(steps[i % len(steps)], v, i)
        return v

    row, ok = grows(mon, 'values', 'discover', lambda n: (
        lambda v: lambda: datashape.discover(v))(value(n)), SIZES, steps)
    if not ok:
        ids = known.listed('C32')
        if 'nested-columns' in ids and backtracks(value(2 * len(steps))):
            mon.known(ids['nested-columns'])
            mon.count('listed finding')
            return
        mon.fail('values', 'discover on', (steps, leaf), 'takes', row,
                 'steps at sizes', SIZES)
    mon.seen('values', steps, leaf)


def run_table(mon, kind, seed):
    def value(n):
        r = random.Random(seed)
        few = [data.decode(data.scalar(r)) for _ in range(r.choice((1, 2, 4)))]
        few += [None] * r.choice((0, 0, 1))
        xs = [few[i * 7 % len(few)] for i in range(n)]
        return {
            'list': lambda: xs, 'tuple': lambda: tuple(xs),
            'set': lambda: set(range(n)) | {'a%d' % i for i in range(n)},
            'dict': lambda: {'k%d' % i: x for i, x in enumerate(xs)},
            'rows': lambda: [(x, few[0]) for x in xs],
            'dicts': lambda: [{'a': x, 'b': few[0]} for x in xs],
            'sparse': lambda: [{'k%d' % (i % 5): x}
                               for i, x in enumerate(xs)],
            'wide': lambda: [{'k%d' % i: x for i, x in enumerate(xs)}] * 3,
            'wide rows': lambda: [tuple(xs), tuple(xs[::-1])],
            'ragged': lambda: [[few[0]] * (i % 4) for i in range(n)],
            'square': lambda: [[few[0]] * 3 for i in range(n)],
            'array': lambda: np.array(xs + [None], dtype=object),
            'text': lambda: ('1' if seed % 5 == 0 else ' ' if seed % 5 == 1
                             else '1 ' if seed % 5 == 2 else 'day'
                             if seed % 5 == 3 else '1:') * n,
            'mixed': lambda: xs + [[1], (2, 3), {'a': 1}],
        }[kind]()

    check(mon, 'values', 'discover', lambda n: (
        lambda v: lambda: datashape.discover(v))(value(n)), WIDE,
        (kind, seed))
    mon.seen('table', kind, seed)


TABLES = ('list', 'tuple', 'set', 'dict', 'rows', 'dicts', 'sparse', 'wide',
          'wide rows', 'ragged', 'square', 'array', 'text', 'mixed')


def run_schema(mon, steps, wrong, alternatives):
    def pair(n):
        s, v = T.int64, 'x' if wrong else 1
        for i in range(n):
            k = steps[i % len(steps)]
            if k == 'fix':
                s, v = T.DataShape(T.Fixed(1), *_parts(s)), [v]
            elif k == 'var':
                s, v = T.DataShape(T.Var(), *_parts(s)), (v,)
            elif k == 'rec':
                s, v = T.Record([('a', s), ('b', T.int64)]), {'a': v, 'b': 1}
            elif k == 'seq':
                s, v = T.Record([('b', T.int64), ('a', s)]), (1, v)
        for i in range(n if alternatives else 0):
            s = (T.date_, s) if i % 2 else (s, T.date_)
        return s, v

    def make(n):
        s, v = pair(n)
        return lambda: datashape.validate(s, v)
    check(mon, 'schema', 'validate', make, SIZES,
          (steps, wrong, alternatives))
    mon.seen('schema', steps, wrong, alternatives)


def _parts(s):
    return tuple(s) if isinstance(s, T.DataShape) else (s,)


# ---------------------------------------------------------------- the cases

def gen(r):
    k = r.random()
    names = tuple(r.sample(list(OPERATIONS), 12))
    if k < .35:
        return ('deep', contexts(r), g.scalar(r), g.scalar(r),
                r.getrandbits(30), names)
    if k < .5:
        return ('wide', r.choice(KINDS), r.getrandbits(30), names)
    if k < .7:
        parts = tuple(r.choice(PIECES) for _ in range(r.choice((1, 2, 2, 3))))
        tail = r.choice(('', '', 'int32', 'int32)', ')', "'", '}', ']', '~',
                         ': int32}', '1'))
        return ('text', parts, tail, SIZES if r.random() < .5 else WIDE)
    if k < .86:
        return ('values', tuple((r.choice(WRAPS), data.scalar(r))
                                for _ in range(r.choice((1, 1, 2, 3)))),
                data.scalar(r))
    if k < .94:
        return ('table', r.choice(TABLES), r.getrandbits(30))
    return ('schema', tuple(r.choice(('fix', 'var', 'rec', 'seq'))
                            for _ in range(r.choice((1, 2, 3)))),
            r.random() < .5, r.random() < .3)


def fixed(tier):
    names = tuple(OPERATIONS)
    i32, s = ('ct', 'int32'), ('string', None, 'U8')
    for c, p in ((('tup', (i32,)), (0,)), (('tup', (i32, s)), (0,)),
                 (('tup', (s, i32)), (1,)), (('rec', (('a', i32),)), (0,)),
                 (('rec', (('a', i32), ('b', s))), (0,)),
                 (('rec', (('b', s), ('a', i32))), (1,)),
                 (('opt', i32), (0,)), (('map', i32, s), (0,)),
                 (('map', s, i32), (1,)), (('fn', (i32,), s), (0,)),
                 (('fn', (), i32), (0,)), (('fn', (s, i32), s), (1,)),
                 (('ds', (('fix', 3),), ('tup', (i32,))), (0, 0)),
                 (('ds', (('var',), ('tv', 'A')), ('rec', (('a', i32),))),
                  (0, 0)), (('units', 'm', ('tup', (i32,))), (0, 0)),
                 (('opt', ('ds', (('var',),), ('tup', (i32,)))), (0, 0, 0))):
        yield ('deep', ((c, p),), i32, s, 7, names)
    for k in KINDS:
        for i in range(3):
            yield ('wide', k, i, names)
    for a in PIECES:
        for t in ('', 'int32', "'", ')', '~'):
            yield ('text', (a,), t, SIZES)
        yield ('text', (a,), '', WIDE)
        yield ('text', (a, ')'), '', WIDE)
        yield ('text', (a, ']'), '', SIZES)
    one, a = ('int', 1), ('str', 'a')
    for w in WRAPS:
        for sib in (one, a):
            yield ('values', ((w, sib),), one)
            for v in ('list', 'dict', 'table2', 'rows2'):
                yield ('values', ((w, sib), (v, one)), a)
    for k in TABLES:
        for i in range(5):
            yield ('table', k, i)
    for k in ('fix', 'var', 'rec', 'seq'):
        for j in ('fix', 'var', 'rec', 'seq'):
            for wrong in (False, True):
                for alternatives in (False, True):
                    yield ('schema', (k, j), wrong, alternatives)


def run(case, mon):
    if case[0] == 'deep':
        _, steps, leaf, other, seed, names = case
        if other == leaf:
            other = ('date',) if leaf != ('date',) else ('bytes',)
        on_types(mon, 'deep', None, SIZES, lambda n: nested(steps, leaf, n),
                 lambda n: nested(steps, other, n), steps, names)
        r = random.Random(seed)
        for damage in r.sample(DAMAGE, 4):
            for n in SIZES:
                s = text.spell(nested(steps, leaf, n), random.Random(seed))
                try:
                    whole = WORK[0].measure(lambda: datashape.dshape(s), MOST)
                    if whole is None:
                        break
                    t = damage(s)
                    c = WORK[0].measure(lambda: datashape.dshape(t),
                                        4 * whole + SLACK)
                except TooMuch:
                    mon.fail('damaged', 'parse takes more than', 4 * whole +
                             SLACK, 'steps, not', whole, 'on', t)
                mon.count('damaged')
                mon.count('events', whole + (c or 0))
    elif case[0] == 'wide':
        _, kind, seed, names = case

        def other(n):
            m = members(kind, seed, n)
            ps = [p for p in M.paths(m) if p]
            return M.replace(m, ps[-1], ('date',)) if ps else m
        on_types(mon, 'wide', None, WIDE, lambda n: members(kind, seed, n),
                 other, (kind, seed), names)
    else:
        globals()['run_' + case[0]](mon, *case[1:])
