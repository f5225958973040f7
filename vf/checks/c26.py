"""C26: parsing asks the given table, and calls what it finds there as written.

Tables are filled with recorders: constructors that log every call and return
a type of their own.  A second, separate evaluation of the same syntax tree
over a plain-dictionary mirror of the tables says what the log and the result
have to be.
"""
import random

import datashape
from datashape import coretypes as T, parser, type_symbol_table as S

from vf import gen as G, model as M, text

RULE = ('histories of 1-25 steps over 1-4 tables (bare, default, or sharing '
        'nothing): adding, replacing, removing entries, replacing a whole '
        'dictionary, and parsing random texts (dimensions, constructors with '
        'positional and keyword arguments of every kind, sugar for records, '
        'tuples, functions, options and type variables) with one of them, '
        'with constructors that sometimes raise.  Non-trivial: distinct '
        'histories that parsed at least one text.')
BIG = (240, 130)
COUNT = {'quick': 16000, 'thorough': 320000}
REQUIRED = ('denotes', 'calls', 'raised', 'missing name', 'default table',
            'other tables', 'same text, other table', 'integer argument',
            'string argument', 'boolean argument', 'datashape argument',
            'list argument', 'keyword argument', 'no arguments', 'mixed list',
            'fresh tables', 'removed', 'replaced', 'counts as false')

NAMES = ('a', 'b', 'cc', 'int32', 'string', 'date', 'foo', 'x1', 'var',
         'option', 'fixed', 'ellipsis', 'typevar', 'tuple', 'longName_2',
         'real', 'complex', 'categorical', 'struct', 'null', 'json')
CALLED = tuple(n for n in NAMES if n not in ('fixed', 'ellipsis',
                                                 'typevar'))
KW = ('kw', 'k', 'z9', 'unit', 'tz', 'self', 'args', 'key', 'kwargs', 'name',
      'sym', 'class', 'ordered', 'scale', 'def')
SUGAR = ('struct', 'tuple', 'funcproto', 'typevar', 'option')
PARTS = ('dtype', 'dtype_constr', 'dim', 'dim_constr')


class Boom(Exception):
    pass


ERRORS = (Boom, ValueError, TypeError, KeyError, IndexError, AttributeError,
          NotImplementedError, RuntimeError, LookupError,
          datashape.DataShapeSyntaxError, OverflowError, AssertionError)


# ---------------------------------------------------------------- texts

def tree(r, depth):
    """('arr', dims, tree) or a measure."""
    m = measure(r, depth)
    n = r.choice((0, 0, 0, 1, 1, 2, 3))
    ds, ell = [], False
    for _ in range(n):
        k = r.choice(('int', 'int', 'name', 'name', 'tv', 'ell', 'dots'))
        if k in ('ell', 'dots'):
            if ell or m[0] == 'opt':
                k = 'int'
            else:
                ell = True
        if k == 'int':
            ds.append((k, G.nat(r)))
        elif k == 'name':
            ds.append((k, r.choice(NAMES)))
        else:
            ds.append((k, G.upper(r)))
    return ('arr', tuple(ds), m) if ds else m


def measure(r, depth):
    k = r.random()
    if depth <= 0 or k < .25:
        return ('name', r.choice(NAMES)) if r.random() < .8 else \
            ('tv', G.upper(r))
    d = depth - 1
    if k < .65:
        n = G.count(r, (0, 1, 1, 2, 3), grows=depth > 1)
        args = tuple(arg(r, d) for _ in range(n))
        kw = r.sample(KW, r.choice((0, 0, 1, 2, 3) if n else (1, 2)))
        return ('call', r.choice(CALLED), args,
                tuple((s, arg(r, d)) for s in kw))
    if k < .75:
        names = []
        for _ in range(G.count(r, (0, 1, 2, 3), grows=depth > 1)):
            names.append(G.name(r))
        return ('struct', tuple((s, tree(r, d)) for s in names))
    if k < .85:
        return ('tuple', tuple(tree(r, d) for _ in
                               range(G.count(r, (0, 1, 2, 3),
                                             grows=depth > 1))))
    if k < .93:
        return ('fn', tuple(tree(r, d) for _ in range(r.choice((0, 1, 2)))),
                tree(r, d))
    x = tree(r, d)
    return ('opt', x[2] if x[0] == 'opt' else x) if x[0] != 'opt' else x


def atom(r, k):
    if k == 'int':
        return (k, G.nat(r))
    if k == 'str':
        return (k, G.name(r))
    return ('bool', r.random() < .5)


def arg(r, depth):
    k = r.random()
    if k < .5:
        return atom(r, r.choice(('int', 'str', 'bool')))
    if k < .75:
        return ('ds', tree(r, depth))
    n = G.count(r, (0, 1, 2, 3), grows=depth > 0)
    k = r.choice(('int', 'str', 'bool', 'ds'))
    return ('list', tuple(('ds', tree(r, depth)) if k == 'ds' else atom(r, k)
                          for _ in range(n)))


def tokens(x, out):
    k = x[0]
    if k == 'arr':
        for d, v in x[1]:
            if d == 'int':
                out.append(str(v))
            elif d == 'name' or d == 'tv':
                out.append(v)
            elif d == 'ell':
                out += [v, '...']
            else:
                out.append('...')
            out.append('*')
        tokens(x[2], out)
    elif k == 'name' or k == 'tv':
        out.append(x[1])
    elif k == 'opt':
        out.append('?')
        tokens(x[1], out)
    elif k == 'call':
        out += [x[1], '[']
        for a in x[2]:
            tokens(a, out)
            out.append(',')
        for s, a in x[3]:
            out += [s, '=']
            tokens(a, out)
            out.append(',')
        if out[-1] == ',':
            out.pop()
        out.append(']')
    elif k == 'struct':
        out.append('{')
        for s, a in x[1]:
            out += [s if text.bare(s) else text.literal(s), ':']
            tokens(a, out)
            out.append(',')
        if out[-1] == ',':
            out.pop()
        out.append('}')
    elif k in ('tuple', 'fn'):
        out.append('(')
        for a in x[1]:
            tokens(a, out)
            out.append(',')
        if out[-1] == ',':
            out.pop()
        out.append(')')
        if k == 'fn':
            out.append('->')
            tokens(x[2], out)
    elif k == 'int':
        out.append(str(x[1]))
    elif k == 'str':
        out.append(text.literal(x[1]))
    elif k == 'bool':
        out.append(str(x[1]))
    elif k == 'ds':
        tokens(x[1], out)
    elif k == 'list':
        out.append('[')
        for a in x[1]:
            tokens(a, out)
            out.append(',')
        if out[-1] == ',':
            out.pop()
        out.append(']')
    return out


# ---------------------------------------------------------------- reference

class Missing(Exception):
    pass


class Raises(Exception):
    pass


def outer_opt(x):
    return x[0] == 'opt'


class Ref(object):
    """What a text means over a mirror of the table."""

    def __init__(self, mirror, calls0):
        self.t = mirror
        self.n = calls0
        self.log = []

    def lookup(self, part, name):
        e = self.t[part].get(name)
        if e is None:
            raise Missing(name)
        return e

    def call(self, part, name, args, kwargs=()):
        e = self.lookup(part, name)
        self.log.append((e[1], args, kwargs))
        self.n += 1
        if e[0] == 'boom':
            raise Raises(e[2])
        return ('tv', 'C%d' % self.n)

    def ds(self, x):
        k = x[0]
        if k == 'arr':
            ds = []
            for d, v in x[1]:
                if d == 'int':
                    ds.append(self.call('dim_constr', 'fixed', (v,)))
                elif d == 'tv':
                    ds.append(self.call('dim_constr', 'typevar', (v,)))
                elif d == 'ell':
                    ds.append(self.call('dim_constr', 'ellipsis', (v,)))
                else:
                    ds.append(self.lookup('dim', v if d == 'name'
                                          else 'ellipsis')[1])
            return M.array(tuple(ds), self.ds(x[2]))
        if k == 'name':
            return self.lookup('dtype', x[1])[1]
        if k == 'tv':
            return self.call('dtype_constr', 'typevar', (x[1],))
        if k == 'opt':
            a = self.ds(x[1])
            return self.call('dtype_constr', 'option', (('ds', a),))
        if k == 'call':
            # (the constructor has to be there before its arguments matter)
            self.lookup('dtype_constr', x[1])
            args = tuple(map(self.arg, x[2]))
            kw = tuple((s, self.arg(a)) for s, a in x[3])
            return self.call('dtype_constr', x[1], args, kw)
        if k == 'struct':
            ts = [('ds', self.ds(a)) for _, a in x[1]]
            return self.call('dtype_constr', 'struct', (
                [s for s, _ in x[1]], ts))
        ts = [('ds', self.ds(a)) for a in x[1]]
        if k == 'tuple':
            return self.call('dtype_constr', 'tuple', (ts,))
        ret = ('ds', self.ds(x[2]))
        return self.call('dtype_constr', 'funcproto', (ts, ret))

    def arg(self, x):
        if x[0] == 'ds':
            return ('ds', self.ds(x[1]))
        if x[0] == 'list':
            return [self.arg(a) for a in x[1]]
        return x[1]


def seen_arg(x):
    """An argument received, in the reference's form; strict about types."""
    if isinstance(x, (list, tuple)):
        return [seen_arg(a) for a in x]
    if type(x) is T.DataShape:
        return ('ds', M.of(x))
    if type(x) in (int, str, bool):
        return x
    return ('?', type(x).__name__, repr(x))


def strict(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(strict, a, b))
    return a == b


# ---------------------------------------------------------------- histories

ENTRIES = (('tv', 'E%d'), ('tv', 'E%d'), ('ct', 'int32'), ('date',),
           ('string', None, 'U8'), ('ds', (('fix', 3),), ('ct', 'int8')),
           ('rec', (('a', ('ct', 'int8')),)), ('opt', ('ct', 'int16')),
           ('tup', ()))


def gen(r):
    kinds = tuple(r.choice(('bare', 'bare', 'default'))
                  for _ in range(r.choice((1, 2, 2, 3, 4))))
    ops, texts = [], []
    for i in range(len(kinds)):
        # most names, so that texts mean something
        for part in PARTS:
            for name in NAMES + SUGAR:
                if r.random() < .85:
                    ops.append(entry(r, i, part, name, .03))
    for _ in range(r.choice((1, 3, 5, 10, 25))):
        i = r.randrange(len(kinds))
        k = r.random()
        if k < .15:
            ops.append(entry(r, i, r.choice(PARTS), r.choice(NAMES + SUGAR),
                             .15))
        elif k < .22:
            ops.append(('del', i, r.choice(PARTS), r.choice(NAMES + SUGAR)))
        elif k < .24:
            ops.append(('swap', i, r.choice(PARTS)))
        else:
            if texts and r.random() < .4:
                x = r.choice(texts)
            else:
                x = tree(r, r.choice((0, 1, 2, 2, 3)))
                texts.append(x)
            ops.append(('parse', i, x))
    return (kinds, tuple(ops), r.getrandbits(30))


def entry(r, i, part, name, boom):
    if part.endswith('constr'):
        if part == 'dim_constr' and name not in ('fixed', 'typevar',
                                                 'ellipsis'):
            part = 'dtype_constr'
        v = ('boom', r.randrange(len(ERRORS))) if r.random() < boom else \
            ('rec', 0)
    elif part == 'dim':
        v = r.choice((('tv', 'D%d'), ('tv', 'D%d'), ('fix', 5), ('var',)))
    else:
        v = r.choice(ENTRIES)
    return ('set', i, part, name, v)


def mutate(r, case):
    kinds, ops, _ = case
    ops = list(ops)
    for _ in range(3):
        i = r.randrange(len(kinds))
        ops.insert(r.randrange(len(ops) + 1), r.choice((
            ('parse', i, tree(r, 2)),
            entry(r, i, r.choice(PARTS), r.choice(NAMES + SUGAR), .1))))
    return (kinds, tuple(ops), r.getrandbits(30))


DEFAULT = {p: dict(getattr(S.sym, p)) for p in PARTS}


def default_ok(mon):
    mon.check('default table', all(
        set(getattr(S.sym, p)) == set(DEFAULT[p]) and
        all(v is DEFAULT[p][n] for n, v in getattr(S.sym, p).items())
        for p in PARTS), 'the default table changed')


class Falsy(T.TypeVar):
    """What is something and counts as false."""

    def __len__(self):
        return 0


M.FALSE.add(Falsy)


class World(object):
    def __init__(self, kinds):
        self.log = []
        self.n = 0
        self.tables, self.mirrors = [], []
        self.ids = 0
        for k in kinds:
            t = S.TypeSymbolTable(bare=k == 'bare') if k == 'bare' else \
                S.TypeSymbolTable()
            self.tables.append(t)
            self.mirrors.append({p: {} for p in PARTS})
        self.real = [k == 'default' for k in kinds]
        self.raised = None

    def constructor(self, ident, error):
        def construct(*args, **kwargs):
            self.log.append((ident, tuple(map(seen_arg, args)), tuple(
                (k, seen_arg(v)) for k, v in kwargs.items())))
            self.n += 1
            if error is not None:
                e = ERRORS[error]
                self.raised = e(1, '<f>', 'text', 'msg') if e is \
                    datashape.DataShapeSyntaxError else e('boom', ident)
                raise self.raised
            c = Falsy if ident % 7 == 3 else T.TypeVar
            return c('C%d' % self.n)
        return construct


def run(case, mon):
    kinds, ops, seed = case
    r = random.Random(seed)
    w = World(kinds)
    for i, k in enumerate(kinds):
        # the tables themselves start as they should
        for p in PARTS:
            d = getattr(w.tables[i], p)
            want = {} if k == 'bare' else DEFAULT[p]
            mon.check('fresh tables', set(d) == set(want) and
                      d is not getattr(S.sym, p), k, p, sorted(d))
        if k == 'default':
            # an own table, emptied: its entries are ours to remove
            x = parser.parse('3 * {a: int32, b: ?string}', w.tables[i])
            mon.check('fresh tables', M.of(x) == M.of(datashape.dshape(
                '3 * {a: int32, b: ?string}')), x)
            for p in PARTS:
                for n in list(getattr(w.tables[i], p)):
                    del getattr(w.tables[i], p)[n]
    parsed = False
    spelt = {}
    for op in ops:
        i = op[1]
        t, m = w.tables[i], w.mirrors[i]
        if op[0] == 'set':
            _, _, part, name, v = op
            w.ids += 1
            if part.endswith('constr'):
                e = ('boom', w.ids, v[1]) if v[0] == 'boom' else \
                    ('rec', w.ids)
                o = w.constructor(w.ids, v[1] if v[0] == 'boom' else None)
            else:
                if v[0] == 'tv':
                    v = ('tv', v[1] % w.ids)
                e = ('type', v)
                o = M.build_dim(v) if part == 'dim' else M.build(v)
                if v[0] == 'tv' and w.ids % 5 == 0:
                    o = Falsy(o.symbol)
                    mon.count('counts as false')
            if name in m[part]:
                mon.count('replaced')
            m[part][name] = e
            getattr(t, part)[name] = o
        elif op[0] == 'del':
            if op[3] in m[op[2]]:
                mon.count('removed')
                del m[op[2]][op[3]]
                del getattr(t, op[2])[op[3]]
        elif op[0] == 'swap':
            setattr(t, op[2], dict(getattr(t, op[2])))
        else:
            parsed = True
            x = op[2]
            s, _ = text.join(tokens(x, []),
                             r if r.random() < .3 else None)
            if s in spelt and spelt[s] != i:
                mon.count('same text, other table')
            spelt[s] = i
            before = [{p: dict(getattr(q, p)) for p in PARTS}
                      for q in w.tables]
            parse(mon, w, t, m, x, s)
            mon.check('other tables', [
                {p: dict(getattr(q, p)) for p in PARTS} for q in w.tables
                ] == before, 'parsing changed a table')
    default_ok(mon)
    if parsed:
        mon.seen(kinds, ops)
        t, m = w.tables[0], w.mirrors[0]
        if 'a' in m['dtype_constr']:
            for s in ('a[]', 'a[1, ]', 'a[[1, "x"]]', 'a[["x", 1]]',
                      'a[["x", True]]', 'a[[True, 1]]', 'a[kw=1, 2]',
                      'a[kw=]', 'a[kw 1]', 'a[1 2]'):
                n = len(w.log)
                mon.refused('no arguments' if s == 'a[]' else 'mixed list',
                            datashape.DataShapeSyntaxError, parser.parse, s, t)
                mon.check('mixed list', len(w.log) == n, s, 'made a call')


KIND = {int: 'integer argument', str: 'string argument',
        bool: 'boolean argument', tuple: 'datashape argument',
        list: 'list argument'}


def parse(mon, w, t, m, x, s):
    ref = Ref(m, w.n)
    try:
        want = 'ok', ref.ds(x)
    except Missing as e:
        want = 'missing', e
    except Raises as e:
        want = 'raises', e
    del w.log[:]
    w.raised = None
    try:
        got = 'ok', parser.parse(s, t)
    except Exception as e:
        got = 'error', e
    if want[0] == 'ok':
        mon.check('denotes', got[0] == 'ok', s, 'raised',
                  got[1] if got[0] != 'ok' else '', 'calls:', w.log)
        mon.check('denotes', type(got[1]) is T.DataShape and
                  M.of(got[1]) == want[1], s, 'gives', got[1],
                  'instead of', want[1])
    elif want[0] == 'missing':
        # (what is looked up after the missing name is open)
        mon.check('missing name', got[0] == 'error' and (
            type(got[1]) is datashape.DataShapeSyntaxError or
            got[1] is w.raised), s, 'gives', got[1],
            'although the table lacks', want[1])
        mon.check('calls', strict(w.log[:len(ref.log)], ref.log), s,
                  'called', w.log, 'instead of', ref.log)
        w.n = max(w.n, ref.n)
        return
    else:
        mon.check('raised', got[0] == 'error' and got[1] is w.raised, s,
                  'gives', got[1], 'instead of', w.raised)
    mon.check('calls', strict(w.log, ref.log), s, 'called', w.log,
              'instead of', ref.log)
    mon.count('calls', len(ref.log))
    for _, args, kw in ref.log:
        for a in args:
            mon.count(KIND[type(a)])
        for _, a in kw:
            mon.count('keyword argument')
            mon.count(KIND[type(a)])
    w.n = ref.n
