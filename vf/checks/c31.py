"""C31: a user's own types, classes and values are treated like built-in ones.

The types of vf.own (derived from the component classes, entered in the symbol
table) are put in the place of built-in ones in the cases of the other checks,
and go through the same monitors; objects of classes with a discoverer of the
user's are put in the place of the scalars it answers with.
"""
import copy
import datetime
import fractions
import importlib
import operator
import pickle
import random
from unittest import mock

import datashape
from datashape import coretypes as T, parser, typesets, type_symbol_table as S
from datashape.user import issubschema, validate
from datashape.util import testing

from vf import data, gen as G, model as M, npref, own, routes, text
from vf.checks import c15

RULE = ('cases of the checks on parsing, printing, evaluating, copying, '
        'comparing, building, indexing, exporting, searching, concatenating, '
        'asserting and records, with some of the types in them replaced by '
        'types of six classes and a scalar type of the user\'s; nests of '
        'values with scalars replaced by objects of classes with a '
        'discoverer, registered before or after earlier calls.  Non-trivial: '
        'distinct cases.')
BIG = (160, 700)
COUNT = {'quick': 26000, 'thorough': 500000}
BORROWED = {'c05': 'printed', 'c06': 'evaluated',
            'c07': 'copied', 'c08': 'compared', 'c09': 'built',
            'c11': 'indexed', 'c13': 'exported', 'c20': 'searched',
            'c22': 'concatenated', 'c24': 'asserted', 'c25': 'records'}
REQUIRED = tuple(BORROWED.values()) + ('parsed', 'unknown name',
    'discovered', 'derived class', 'nearest class', 'registered later',
    'no discoverer', 'promoted', 'type set', 'validated', 'predicates',
    'type of the object', 'dimension', 'united', 'derived type')
MODULES = {}


def module(n):
    if n not in MODULES:
        MODULES[n] = importlib.import_module('vf.checks.' + n)
        if n == 'c06':
            MODULES[n].PUBLIC.update(own.PUBLIC)
    return MODULES[n]


# ------------------------------------------------------- types in the cases

LEAVES = {'ct', 'null', 'date', 'bytes', 'json', 'time', 'datetime',
          'timedelta', 'string', 'decimal', 'tv'}


def is_leaf(x):
    if type(x) is not tuple or not x or x[0] not in LEAVES:
        return False
    k, n = x[0], len(x)
    if k in ('null', 'date', 'bytes', 'json'):
        return n == 1
    if k in ('ct', 'time', 'datetime', 'timedelta'):
        return n == 2 and (x[1] is None or type(x[1]) is str)
    return n == 3 and (k == 'decimal' and type(x[1]) is type(x[2]) is int or
                       k == 'string' and type(x[2]) is str and
                       x[2] in G.ENCODINGS)


def leaves(x, out):
    if is_leaf(x):
        if x not in out:
            out.append(x)
    elif isinstance(x, (tuple, list)):
        for y in x:
            leaves(y, out)
    return out


def swap(x, to):
    if type(x) is tuple:
        if is_leaf(x):
            return to.get(x, x)
        if len(x) == 4 and x[0] == 'cat':       # the categories are no types
            return x[:2] + (swap(x[2], to), x[3])
        return tuple(swap(y, to) for y in x)
    if type(x) is list:
        return [swap(y, to) for y in x]
    return x


def leaf(r, kinds):
    k = r.choice(kinds)
    if k == 'quad':
        return ('ct', 'quad')
    if k == 'Money':
        return ('own', k, r.choice(('EUR', 'USD', 'x', '')) if r.random() < .7
                else G.name(r), r.choice((0, 2, 2, 3, G.nat(r))))
    if k == 'Blob':
        return ('own', k) + tuple(
            G.name(r) if r.random() < .5 else G.nat(r)
            for _ in range(r.choice((0, 0, 1, 2, 4))))
    return ('own', k)


SIMPLE = ('Ip', 'Money', 'Money', 'Blob', 'Blob', 'Day', 'quad')


def replaced(r, case, composite=True):
    found = leaves(case, [])
    if not found:
        return None
    to = {}
    n = r.choice((1, 1, 2, 3, len(found)))
    for x in r.sample(found, min(n, len(found))):
        y = leaf(r, SIMPLE)
        if composite and r.random() < .25:
            if r.random() < .5:
                y = ('own', 'Range', y if r.random() < .4 else
                     small.any(r, 1))
            else:
                y = ('own', 'Lines') + tuple(
                    small.any(r, 1) for _ in range(r.choice((1, 2, 3))))
        if y not in to.values() and y not in found:
            to[x] = y
    return swap(case, to)


small = G.Gen(most_cats=2)
every = G.Gen(most_cats=3)
h = G.Gen(kinds=('ct', 'ct', 'string', 'date', 'bytes', 'null', 'timedelta'))


def gen(r):
    k = r.random()
    if k < .1:
        m = None
        while m is None:
            m = replaced(r, module('c01').gen(r)[1])
        return ('parse', text.spell(m, r), m)
    if k < .55:
        while True:
            n = r.choice(sorted(BORROWED))
            case = module(n).gen(r)
            case = replaced(r, case, n not in ('c13', 'c24', 'c25'))
            if case is not None:
                return ('type', n, case)
    if k < .85:
        x = c15.value(r, r.choice((1, 2, 2, 3, 4)))
        if x[0] not in data.SEQ and x[0] not in data.MAPS:
            x = ('L', x, data.scalar(r))
        return ('value', c15.clean(x), r.choice((.1, .5, 1)),
                r.getrandbits(30))
    if k < .93:
        return ('uses', leaf(r, SIMPLE), leaf(r, SIMPLE), h.scalar(r),
                r.getrandbits(30))
    if k < .97:
        return ('classes', r.getrandbits(30))
    if k < .98:
        return ('dimension', h.any(r, 1), r.getrandbits(30))
    return ('derive', every.any(r, r.choice((1, 2, 3))), r.getrandbits(30))


def fixed(tier):
    for n in sorted(BORROWED):
        for i in range(40):
            r = random.Random('%s:%d' % (n, i))
            for _ in range(200):
                case = replaced(r, module(n).gen(r),
                                n not in ('c13', 'c24', 'c25'))
                if case is not None and len(repr(case)) < 400:
                    yield ('type', n, case)
                    break
    for i in range(12):
        yield ('classes', i)
        yield ('dimension', ('ct', 'int32'), i)
    for i in range(60):
        r = random.Random(i)
        yield ('derive', every.any(r, 2), i)
    r = random.Random(5)
    for a in SIMPLE:
        for b in SIMPLE:
            for c in (('ct', 'int32'), ('ct', 'bool'), ('date',),
                      ('string', None, 'U8')):
                yield ('uses', leaf(r, (a,)), leaf(r, (b,)), c,
                       r.getrandbits(30))


class Under(object):
    """The monitor, under another name."""

    def __init__(self, mon, name):
        self.mon, self.name = mon, name
        self.counts = {}

    def __getattr__(self, n):
        return getattr(self.mon, n)

    def count(self, name, n=1):
        self.mon.count(self.name, n)

    def check(self, oracle, cond, *detail):
        if cond:
            self.mon.count(self.name)
        else:
            self.mon.check(self.name, False, oracle, *detail)

    def equal(self, oracle, got, want, *detail):
        self.check(oracle, type(got) is type(want) and got == want, got, want,
                   *detail)

    fail = lambda self, oracle, *detail: self.check(oracle, False, *detail)

    def refused(self, oracle, *args, **kwargs):
        return self.mon.refused(self.name, *args, **kwargs)


def run(case, mon):
    globals()['run_' + case[0]](mon, *case[1:])


def run_type(mon, n, case):
    module(n).run(case, Under(mon, BORROWED[n]))
    mon.seen(n, case)


def run_parse(mon, s, m):
    x = datashape.dshape(s)
    mon.check('parsed', repr(M.of(x)) == repr(m), s, 'gives', M.of(x), 'not',
              m)
    bare = S.TypeSymbolTable()      # knows the built-in ones only
    if any(y[0] == 'own' or y == ('ct', 'quad') for y in M.walk(m)):
        mon.refused('unknown name', datashape.DataShapeSyntaxError,
                    parser.parse, s, bare)
    own.install(bare)
    x = parser.parse(s, bare)
    mon.check('parsed', repr(M.of(x)) == repr(m), s, 'gives', M.of(x), 'not',
              m)
    mon.seen('parse', s)


# ---------------------------------------------------------------- uses

SAMPLE = {'Ip': lambda: Address(1), 'Money': lambda: Price(('int', 3)),
          'Blob': lambda: b'x', 'Day': lambda: datetime.date(2014, 1, 1),
          'quad': lambda: Address(3)}


class Address(object):
    def __init__(self, n):
        self.n = n


@validate.register(own.Ip, Address)
def _validate_ip(schema, value):
    return value.n > 0


@validate.register(own.Money, object)
def _validate_money(schema, value):
    return isinstance(value, Price)


def run_uses(mon, a, b, c, seed):
    r = random.Random(seed)
    x, y, z = M.build(a), M.build(b), M.build(c)
    # predicates
    for t in (x, T.DataShape(x), T.Option(x), T.DataShape(T.Option(x))):
        mon.check('predicates', datashape.isscalar(t) is True and
                  datashape.isrecord(t) is False and
                  datashape.iscollection(t) is False and
                  datashape.isfixed(t) is True, t)
        mon.check('predicates', datashape.isnumeric(t) is (
            a[:2] == ('own', 'Money')), t, datashape.isnumeric(t))
        mon.check('predicates', not datashape.isreal(t) and
                  not datashape.isboolean(t), t)
    mon.check('predicates', datashape.isdimension(x) is False, x)
    for t, n in ((T.Tuple([x, y]), len({a, b})), (T.Record([
            ('p', x), ('q', z), ('r', T.Option(x))]), len({a, c}) + 1)):
        mon.check('predicates', datashape.ishomogeneous(t) is (n == 1), t)
    t = 3 * (T.Var() * T.Record([('p', x), ('q', y)]))
    mon.check('predicates', datashape.isrecord(t.measure) and
              datashape.istabular(t[-1:] and t.subarray(1)) and
              datashape.iscollection(t) and not datashape.isfixed(t) and
              datashape.has_var_dim(t) and not datashape.has_ellipsis(t), t)
    # promotion
    for p, q in ((x, y), (y, x), (x, z), (z, x)):
        mp, mq = M.of(p), M.of(q)
        try:
            want = _promoted(mp, mq)
        except npref.Unspecified:
            continue
        for op in (0, 1):
            for oq in (0, 1):
                s, t = (T.Option(p) if op else p), (T.Option(q) if oq else q)
                if want is None and not (mp == mq and op == oq):
                    mon.refused('promoted', TypeError, datashape.promote, s, t)
                    continue
                m = ('opt', want) if op or oq else want
                if mp == mq and op == oq:
                    got = datashape.promote(s, t)
                    mon.check('promoted', got == s and datashape.promote(
                        s, t, False) == s, s, t, 'gives', got)
                    continue
                got = datashape.promote(s, t)
                mon.check('promoted', M.of(got) == m, s, t, 'gives', got)
                got = datashape.promote(s, t, False)
                mon.check('promoted', M.of(got) == want, s, t, 'gives', got)
    # type sets
    ts = typesets.TypeSet(x, y, z)
    mon.check('type set', x in ts and y in ts and z in ts and
              M.build(a) in ts and T.DataShape(x) in ts and
              len(set(ts.types)) == len({a, b, c}), ts)
    mon.check('type set', (x in typesets.scalar) is False and
              (x in typesets.TypeSet(z)) is (a == c), x)
    mon.check('type set', (typesets.TypeSet(x, z) == typesets.TypeSet(
        M.build(a), M.build(c))) is True and (typesets.TypeSet(x, z) ==
        typesets.TypeSet(y, z)) is (a == b), x)
    both = typesets.TypeSet(x) | typesets.TypeSet(y)
    mon.check('type set', set(both) == {x, y} and len(both) == len({a, b}), x,
              y)
    # validation
    if a[1] in ('Ip', 'Money', 'Day') and b[1] in ('Ip', 'Money', 'Day'):
        u, v = SAMPLE[a[1]](), SAMPLE[b[1]]()
        rec = T.Record([('p', x), ('q', T.DataShape(y))])
        for schema, value, want in (
                (x, u, True), (T.DataShape(x), u, True), (x, 1, False),
                (x, 'x', False), (x, None, False),
                (x, v, a[1] == b[1]), (y, u, a[1] == b[1]),
                ((T.int8, x), u, True), ((y, x), v, True), (own.Range(x), u, False),
                (T.DataShape(T.Fixed(2), x), [u, u], True),
                (T.DataShape(T.Fixed(2), x), (u, 'x'), False),
                (T.DataShape(T.Var(), x), [u] * r.randrange(5), True),
                (T.DataShape(T.Fixed(2), T.Fixed(1), x), [[u], (u,)], True),
                (rec, {'p': u, 'q': v}, True), (rec, (u, v), True),
                (rec, [u, v], True), (rec, [u], False), (rec, (u, 'x'), False),
                (rec, {'p': u}, False), (rec, [v, u], a[1] == b[1]),
                (T.DataShape(T.Var(), rec), [(u, v), {'q': v, 'p': u}], True),
                (str(T.DataShape(T.Var(), x)), [u, u], True)):
            got = validate(schema, value)
            mon.check('validated', bool(got) is want, schema, value, 'gives',
                      got)
    if a == ('own', 'Ip'):
        mon.check('validated', not validate(x, Address(0)) and
                  not validate(T.DataShape(T.Var(), x),
                               [Address(1), Address(0)]), x)
    mon.check('validated', bool(issubschema(x, M.build(a))) is True and
              bool(issubschema(x, y)) is (a == b) and
              bool(issubschema(str(3 * x), 3 * M.build(a))) is True and
              bool(issubschema(3 * x, 4 * x)) is False, x, y)
    # the object itself
    mon.check('type of the object', T.Option(x).ty is x and
              T.DataShape(x).measure is x and
              T.DataShape(x)[0] is x and x.measure is x and
              x.shape == () and len(x) == 1 and x[0] is x and
              x.subarray(0) is x and T.Tuple([x, y]).dshapes == (x, y) and
              T.Record([('p', x)]).fields == (('p', x),) and
              x.info() == (type(x), x.parameters), x)
    mon.refused('type of the object', TypeError, T.DataShape, x, T.int32)
    mon.refused('type of the object', TypeError, T.DataShape, T.Fixed(3), x,
                y)
    mon.refused('type of the object', IndexError, x.subarray, 1)
    if a[0] == 'own':
        mon.check('type of the object', T.Type.lookup_type(a[1]) is
                  own.CLASSES[a[1]], a)
        like = own.CLASSES[a[1]]
        twin = type('Twin', (T.Unit,), {
            'cls': T.MEASURE, '__str__': like.__str__})(*x.parameters)
        mon.check('type of the object', twin != x and x != twin and
                  (twin == x) is False and x not in [twin] and
                  len({x, twin}) == 2, x, twin)
        getattr(T.Type, '_registry', {}).pop('Twin', None)
        mon.refused('type of the object', AssertionError,
                    testing.assert_dshape_equal, x, twin)
    testing.assert_dshape_equal(3 * x, 3 * M.build(a))
    testing.assert_dshape_equal(x, M.build(a))
    if a != b:
        for wrap in (lambda t: t, lambda t: 3 * t, T.Option, lambda t: T.Tuple(
                [z, t]), lambda t: T.Record([('p', T.DataShape(t))]),
                lambda t: T.Map(z, t), lambda t: T.Function(t, z)):
            mon.refused('type of the object', AssertionError,
                        testing.assert_dshape_equal, wrap(x), wrap(y))
    # uniting
    from datashape import discovery as D
    if a[0] == 'own' and c != ('null',):
        for types, want in (
                ([x, x], 2 * x), ([x, T.null], 2 * T.Option(x)),
                ([T.null, x, x], 3 * T.Option(x)),
                ([T.DataShape(x), x], 2 * x)):
            got = D.unite_base(types)
            mon.check('united', got == want and M.of(got) == M.of(want), types,
                      'gives', got)
        got = D.unite_identical([x] * 3)
        mon.check('united', got == 3 * x, got)
        for ts in ([x, z], [z, x], [x, z, T.null]):
            got = D.unite_base(ts)
            mon.check('united', got is None, ts, 'gives', got)
    mon.seen('uses', a, b, c)


def _promoted(a, b):
    """The model of the promoted payload; None if refused."""
    import numpy as np
    def dt(m):
        npref.check_dtype(m, np.dtype('V0'))
        return own.NUMPY[m[1]] if m[0] == 'own' else \
            datashape.to_numpy_dtype(M.build(m))
    try:
        return npref.model_of(np.result_type(dt(a), dt(b)))
    except (npref.Refused, TypeError):
        return None


# ---------------------------------------------------------------- values

class Boxed(object):
    """A scalar in disguise."""

    def __init__(self, x):
        self.x = x
        self.value = data.decode(x)

    def __eq__(self, other):
        return self.value == getattr(other, 'value', other)

    def __hash__(self):
        return hash(self.value)

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self.x)


class Price(Boxed):
    pass


class Rate(Boxed):
    pass


class Special(Price):
    pass


class Odd(Price):
    """Has a discoverer of its own."""


class Slot(object):
    __slots__ = 'value',

    def __init__(self, x):
        self.value = data.decode(x)

    __eq__, __hash__ = Boxed.__eq__, Boxed.__hash__


class Unknown(Boxed):
    pass


class OnlyShape(Boxed):
    shape = (3,)


class OnlyDtype(Boxed):
    dtype = 'int32'


class Iterable(Boxed):
    def __iter__(self):
        return iter([1, 2])


class Sequence(Boxed):
    def __len__(self):
        return 2

    def __getitem__(self, i):
        return (1, 2)[i]


# no class any of these is of has a discoverer
UNKNOWN = (Unknown, Unknown, OnlyShape, OnlyDtype, Iterable, Sequence,
           lambda x: object(), lambda x: mock.Mock(), lambda x: mock.MagicMock(),
           lambda x: (y for y in (1, 2)), lambda x: int, lambda x: len,
           lambda x: Ellipsis, lambda x: fractions.Fraction(1, 2))


def ready():
    if Price in MODULES:
        return
    MODULES[Price] = True
    for c in (Price, Rate, Slot):
        datashape.discover.register(c)(
            lambda v, **kwargs: datashape.discover(v.value, **kwargs))
    datashape.discover.register(Odd)(lambda v: M.build(
        ('own', 'Money', 'EUR', 2)))


def boxed(x, r, share, classes):
    k = x[0]
    if k in data.SEQ:
        return data.SEQ[k](boxed(y, r, share, classes) for y in x[1:])
    if k in data.MAPS:
        items = [(n, boxed(y, r, share, classes)) for n, y in x[1:]]
        c = type(data.decode((k,)))
        return c(dict(items)) if k == 'P' else c(items)
    if r.random() < share:
        return r.choice(classes)(x)
    return data.decode(x)


def members(v, out):
    """The members of sets, which must not collapse in another way."""
    if isinstance(v, (set, frozenset)):
        out.append(len(v))
    if isinstance(v, (list, tuple, set, frozenset)):
        for y in v:
            members(y, out)
    elif hasattr(v, 'items'):
        for y in v.values():
            members(y, out)
    return out


def run_value(mon, x, share, seed):
    ready()
    r = random.Random(seed)
    plain = data.decode(x)
    want = datashape.discover(plain)
    for classes, oracle in (((Price, Rate, Slot), 'discovered'),
                            ((Special, Price), 'derived class')):
        v = boxed(x, r, share, classes)
        if sorted(members(v, [])) != sorted(members(plain, [])):
            continue
        if not alike(plain, v):
            continue
        got = datashape.discover(v)
        mon.check(oracle, same(got, want, plain), v, 'gives', got,
                  'instead of', want)
    # one object of a class without a discoverer, anywhere
    spots = list(scalars(x))
    if spots:
        spot = r.choice(spots)
        v = put(x, spot, r.choice(UNKNOWN))
        if not datashape_ignores(x, spot):
            mon.refused('no discoverer', NotImplementedError,
                        datashape.discover, v)
            mon.check('discovered', datashape.discover(plain) == want, plain)
    mon.seen('value', x)


def alike(a, b):
    """Whether the sets of a and b hold the same members' types: of equal
    members of a set, one is kept."""
    if isinstance(a, (set, frozenset)):
        return sorted(str(type(getattr(y, 'value', y))) for y in flat(a)) == \
            sorted(str(type(getattr(y, 'value', y))) for y in flat(b))
    if isinstance(a, (list, tuple)):
        return all(alike(y, z) for y, z in zip(a, b))
    if hasattr(a, 'items') and hasattr(b, 'items'):
        return all(alike(y, b[n]) for n, y in a.items())
    return True


def flat(v):
    for y in v:
        if isinstance(y, (list, tuple, set, frozenset)):
            for z in flat(y):
                yield z
        else:
            yield y


def same(got, want, plain):
    return got == want and M.of(got) == M.of(want) and type(got) is type(want)


def scalars(x, at=()):
    if x[0] in data.SEQ:
        for i, y in enumerate(x[1:]):
            for p in scalars(y, at + (i,)):
                yield p
    elif x[0] in data.MAPS:
        for i, (_, y) in enumerate(x[1:]):
            for p in scalars(y, at + (i,)):
                yield p
    else:
        yield at


def put(x, spot, c):
    """The value, with an object of class c there; sets turned into lists."""
    k = x[0]
    if k in data.SEQ:
        return data.SEQ['L' if k == 'S' else 'T' if k == 'F' else k](
            put(y, spot[1:] if spot and spot[0] == i else None, c)
            for i, y in enumerate(x[1:]))
    if k in data.MAPS:
        items = [(n, put(y, spot[1:] if spot and spot[0] == i else None, c))
                 for i, (n, y) in enumerate(x[1:])]
        return dict(items)
    if spot == ():
        return c(x)
    return data.decode(x)


def datashape_ignores(x, spot):
    """Nothing of a value is left out."""
    return False


# ---------------------------------------------------------------- classes

def run_classes(mon, seed):
    """A hierarchy of classes whose discoverers come one after the other."""
    r = random.Random(seed)
    n = r.choice((2, 3, 4, 6))
    classes, parent = [], {}
    for i in range(n):
        p = r.choice(classes) if classes and r.random() < .8 else object
        c = type('C%d' % i, (p,), {})
        parent[c] = p
        classes.append(c)
    known = {}
    objs = [c() for c in classes]

    def expected(c):
        while c is not object:
            if c in known:
                return known[c]
            c = parent[c]

    def look():
        for o in r.sample(objs, len(objs)):
            m = expected(type(o))
            values = [(o, m)]
            if m is not None:
                values += [([o], M.array((('fix', 1),), m)),
                           ([o, o, o], M.array((('fix', 3),), m)),
                           ({'a': o}, ('rec', (('a', m),))),
                           ({'b': [o, o], 'a': o}, ('rec', (
                               ('a', m), ('b', M.array((('fix', 2),), m))))),
                           ([[o, o], [o, o]], M.array(
                               (('fix', 2), ('fix', 2)), m)),
                           ((({'a': o},), o), ('tup', (M.array(
                               (('fix', 1),), ('rec', (('a', m),))), m)))]
            else:
                values += [([o], None), ({'a': o}, None), ([1, o], None),
                           ((o, o), None), ([{'a': o}, {}], None),
                           ([[1, 2], [3, o]], None), ({'a': [{'b': o}]}, None)]
            for v, want in [values[0]] + r.sample(values[1:], 3):
                if want is None:
                    mon.refused('no discoverer', NotImplementedError,
                                datashape.discover, v)
                else:
                    got = datashape.discover(v)
                    if not isinstance(got, T.Mono):     # not unified
                        mon.check('nearest class', [M.of(t) for t in got] ==
                                  list(want[1]), v, 'gives', got)
                        continue
                    mon.check('nearest class', M.of(got) == want, v, 'gives',
                              got, 'instead of', want)

    look()
    for c in r.sample(classes, len(classes)):
        m = leaf(r, SIMPLE) if r.random() < .5 else h.scalar(r)
        while m in known.values():
            m = leaf(r, ('Money', 'Blob'))
        known[c] = m
        t = M.build(m)
        if r.random() < .5:
            datashape.discover.register(c)(lambda v, t=t: t)
        else:
            from datashape.dispatch import dispatch
            namespace = {'dispatch': dispatch, 'c': c, 't': t}
            exec('@dispatch(c)\ndef discover(v):\n    return t\n', namespace)
        look()
        mon.count('registered later')
    try:                    # the table does not grow for ever
        for c in classes:
            datashape.discover.funcs.pop((c,), None)
        datashape.discover._cache.clear()
        datashape.discover.reorder()
    except AttributeError:
        pass
    mon.seen('classes', seed)


# ---------------------------------------------------------------- dimensions

class Ragged(T.Mono):
    """A dimension of a user's own."""
    cls = T.DIMENSION
    __slots__ = 'least',

    def __init__(self, least=0):
        self.least = least

    def __str__(self):
        return 'ragged%d' % self.least


for _n in range(5):
    S.sym.dim['ragged%d' % _n] = Ragged(_n)


def run_dimension(mon, m, seed):
    r = random.Random(seed)
    n = r.randrange(4)
    d, e = Ragged(n), Ragged(n + 1)
    t = M.build(m)
    x = T.DataShape(d, t)
    mon.check('dimension', x == T.DataShape(Ragged(n), M.build(m)) and
              x != T.DataShape(e, M.build(m)) and hash(x) == hash(
                  T.DataShape(Ragged(n), M.build(m))), x)
    mon.check('dimension', x.shape[:1] == (d,) and x[0] is d and
              x.measure == M.build(M.measure(m)), x)
    for s in (str(x), 'ragged%d*%s' % (n, text.spell(m, r))):
        y = datashape.dshape(s)
        mon.check('dimension', y == x and type(y[0]) is Ragged, s, 'gives', y)
    y = T.DataShape(T.Fixed(3), x)
    mon.check('dimension', y == datashape.dshape('3 * %s' % x) and
              y.subarray(1) == x and y.subarray(2) == t, y)
    mon.check('dimension', (d * t) == x and (3 * x) == y and
              T.Record([('p', x)]) == datashape.dshape(
                  '{p: %s}' % x).measure, x)
    for z in (copy.deepcopy(y), copy.copy(y), pickle.loads(pickle.dumps(y)),
              eval(repr(y), {'dshape': datashape.dshape})):
        mon.check('dimension', z == y and hash(z) == hash(y) and
                  str(z) == str(y), z, y)
    mon.refused('dimension', TypeError, T.DataShape, T.Fixed(3), d)
    mon.refused('dimension', TypeError, T.DataShape, d)
    mon.refused('dimension', AssertionError, testing.assert_dshape_equal, x,
                T.DataShape(e, t))
    testing.assert_dshape_equal(x, T.DataShape(Ragged(n), t))
    mon.seen('dimension', m, n)


ASSUMPTIONS = ('classes registered with discover derive from no built-in '
               'container', 'the classes of a user\'s types follow the '
               'documented contract: their parameters reconstruct them and '
               'they print as the symbol table knows them')


# ---------------------------------------------------------------- derived

def same_answer(mon, f, x, y):
    """f answers the same about both."""
    answers = []
    for t in (x, y):
        try:
            answers.append((True, f(t)))
        except Exception as e:
            answers.append((False, type(e)))
    mon.check('derived type', answers[0] == answers[1], y, 'gives',
              answers[1], 'not', answers[0])


ASK = [lambda t: t.shape, len, lambda t: datashape.isscalar(t),
       lambda t: datashape.isrecord(t), lambda t: datashape.isdimension(t),
       lambda t: datashape.isnumeric(t), lambda t: datashape.isreal(t),
       lambda t: datashape.isdatelike(t), lambda t: datashape.isboolean(t),
       lambda t: datashape.iscollection(t), lambda t: datashape.isfixed(t),
       lambda t: datashape.has_var_dim(t), lambda t: datashape.has_ellipsis(t),
       lambda t: datashape.to_numpy_dtype(t), lambda t: t.parameters,
       lambda t: datashape.istabular(3 * t),
       lambda t: datashape.promote(t, T.int32),
       lambda t: datashape.promote(T.float64, t, False),
       lambda t: datashape.to_numpy(T.DataShape(3, t)),
       lambda t: operator.index(t), lambda t: int(t), lambda t: t.names,
       lambda t: t.types, lambda t: t.dict, lambda t: t.ty, lambda t: t.dshapes,
       lambda t: t[t.names[-1]], lambda t: t.argtypes, lambda t: t.restype,
       lambda t: t.key, lambda t: t.itemsize,
       lambda t: [bool(validate(t, v)) for v in (
           1, 'x', b'x', 2.5, None, {}, (), (1, 2), datetime.date(2014, 1, 1),
           datetime.datetime(2014, 1, 1), datetime.time(1))]]


def run_derive(mon, m, seed):
    r = random.Random(seed)
    found = []

    def inside(t, depth=0):
        """The type, with one of its parts made of a derived class."""
        found.append(t)
        if isinstance(t, (tuple, list)):
            for u in t:
                inside(u)
        elif isinstance(t, T.Mono) and not isinstance(t, T.CType):
            for u in t.parameters:
                inside(u)

    inside(M.build(m))
    found = [t for t in found if type(t) in own.DERIVED]
    found += [T.String(), T.Fixed(r.randrange(4)), T.Record([('a', T.int32)]),
              T.DateTime('x'), T.Tuple([T.int32]), T.Option(T.int8)]
    for x in r.sample(found, min(3, len(found))):
        c = own.DERIVED[type(x)]
        y, z = c(*x.parameters), c(*x.parameters)
        mon.count('derived of %s' % type(x).__name__)
        if type(x) is T.DataShape:
            # a datashape is what its dimensions and its measure are
            mon.check('derived type', x == y and y == x and y == z and hash(
                x) == hash(y) and str(x) == str(y), x, y)
            testing.assert_dshape_equal(x, y)
            testing.assert_dshape_equal(y, x)
            for f in ASK:
                same_answer(mon, f, x, y)
            continue
        mon.check('derived type', y == z and not y != z and hash(y) == hash(z)
                  and str(y) == str(z) and repr(y) == repr(z) and
                  y in [z] and len({y, z}) == 1, y, z)
        mon.check('derived type', x != y and y != x and not x == y and
                  not y == x and len({x, y}) == 2 and x not in [y], x, y)
        for u in (copy.copy(y), copy.deepcopy(y), pickle.loads(pickle.dumps(
                y, r.choice((0, 1, 2, 4, 5)))), y):
            mon.check('derived type', type(u) is c and u == y and
                      hash(u) == hash(y) and str(u) == str(y) and
                      u.parameters == x.parameters, y, u)
        for f in ASK:
            same_answer(mon, f, x, y)
        if isinstance(x, (T.Fixed, T.Var, T.Ellipsis)):
            wraps = (lambda t: T.DataShape(t, T.int32),
                     lambda t: T.DataShape(2, t, T.Option(T.int8)),
                     lambda t: T.Record([('a', T.DataShape(t, T.int8))]))
        elif isinstance(x, T.TypeVar):
            wraps = (lambda t: t, lambda t: T.DataShape(t),
                     lambda t: T.DataShape(t, T.int32))
        else:
            wraps = (lambda t: t, lambda t: T.DataShape(t), lambda t: 3 * t,
                     lambda t: T.Record([('a', t), ('b', T.int8)]),
                     lambda t: T.Tuple([T.int8, t]),
                     lambda t: T.Map(T.int8, t), lambda t: T.Function(t, t),
                     lambda t: T.Function(T.int8, t))
            if not isinstance(x, (T.Option, T.Null)):
                wraps += (T.Option, lambda t: T.Option(T.DataShape(t)))
        for w in r.sample(wraps, min(3, len(wraps))):
            a, b, d = w(x), w(y), w(z)
            mon.check('derived type', b == d and hash(b) == hash(d) and
                      a != b and b != a, a, b)
            testing.assert_dshape_equal(b, d)
            mon.refused('derived type', AssertionError,
                        testing.assert_dshape_equal, a, b)
            mon.refused('derived type', AssertionError,
                        testing.assert_dshape_equal, b, a)
            mon.check('derived type', bool(issubschema(b, d)) is True and
                      bool(issubschema(a, b)) is False and
                      bool(issubschema(b, a)) is False, a, b)
            for f in ASK[1:13]:
                same_answer(mon, f, a, b)
            got = [t for t in datashape.util.collect(
                lambda t: isinstance(t, c), b)]
            mon.check('derived type', bool(got) and all(t == y for t in got),
                      b, got)
            u = pickle.loads(pickle.dumps(b))
            mon.check('derived type', u == b and u != a, u)
    mon.seen('derive', m)
