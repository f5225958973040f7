"""C30: registered names are never rebound.

Histories of registrations, creations and look-ups, each in a fresh copy of
the process, next to a model that remembers the first object of every name.
After every step all names ever mentioned, and all names registered at import,
are looked up and compared by identity.
"""
import copy
import pickle
import random
import sys

import numpy as np

import datashape
from datashape import coretypes as T, typesets

from vf import known, pristine
from vf.checks import c27

RULE = ('histories of 5-40 steps: registering, creating scalar types, named '
        'datashapes, type sets and classes (abstract ones too, failing ones '
        'too, interrupted ones too), looking up, copying, pickling, parsing, '
        'on fresh names, names registered at import, near misses of these and '
        'odd objects.  Non-trivial: distinct histories.')
COUNT = {'quick': 3600, 'thorough': 160000}
REQUIRED = ('bound for ever', 'refused', 'not found', 'registered', 'built in',
            'set refused', 'set registered', 'failed creation', 'interrupted',
            'own registry', 'unnamed', 'still works', 'listed finding',
            'standard names')

BUILTIN = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
           'uint64', 'float16', 'float32', 'float64', 'complex64',
           'complex128', 'complex[float32]', 'complex[float64]', 'bool',
           'void', 'object', 'char', 'real', 'intptr', 'uintptr', 'float128',
           'complex256', 'Record', 'Fixed', 'Option', 'DataShape', 'Mono',
           'CType', 'String', 'TypeVar', 'TypeSet', 'Unit', 'Map', 'Tuple',
           'Function', 'Categorical', 'Date', 'DateTime', 'Null', 'JSON',
           'Decimal', 'TimeDelta', 'bytes', 'Bytes', 'date', 'string',
           'int', 'float', 'double', 'uint', 'complex')
SETS = ('signed', 'unsigned', 'integral', 'floating', 'complexes', 'boolean',
        'real', 'numeric', 'scalar')
FRESH = ('foo', 'bar', 'baz', 'int33', 'Int32', 'INT32', 'int32 ', ' int32',
         'x' * 300, 'é', '', ' ', '0', 'numeric ', 'Numeric', 'number',
         'signed2', 'a-b', 'class', 'None', 'datetime64[us]', 'str160',
         'record', 'fixed')
ODD = (0, 1, 5, True, None, 1.5, ('a', 'b'), (), b'int32', frozenset(['a']))
UNHASHABLE = ([], {}, ['int32'])


def name(r):
    k = r.random()
    if k < .4:
        return r.choice(FRESH[:6])
    if k < .65:
        return r.choice(BUILTIN)
    if k < .8:
        return r.choice(SETS)
    if k < .9:
        return r.choice(FRESH)
    return r.choice(ODD)


# What the names registered at import stand for, by the name in coretypes
STANDARD = dict(
    {n: n for n in (
        'Bytes', 'CType', 'Categorical', 'DataShape', 'Date', 'DateTime',
        'Decimal', 'Ellipsis', 'Fixed', 'Function', 'JSON', 'Map', 'Mono',
        'Null', 'Option', 'Record', 'String', 'Time', 'TimeDelta', 'Tuple',
        'TypeVar', 'Unit', 'Units', 'Var', 'char', 'float16', 'float32',
        'float64', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
        'uint32', 'uint64', 'intptr', 'uintptr', 'null', 'void', 'real',
        'complex64', 'complex128', 'double')},
    **{'bool': 'bool_', 'bytes': 'bytes_', 'date': 'date_', 'time': 'time_',
       'datetime': 'datetime_', 'timedelta': 'timedelta_', 'int': 'int_',
       'object': 'object_', 'float': 'float32',
       'complex[float32]': 'complex64', 'complex[float64]': 'complex128'})
# a name that denotes no more than an equal type
EQUAL = {'string': T.String}

STEPS = ('register', 'register', 'register', 'ctype', 'ctype', 'ctype', 'named',
         'named', 'typeset', 'typeset', 'typeset', 'typeset direct', 'class',
         'abstract', 'bad class', 'bad ctype', 'bad named', 'unhashable',
         'other registry', 'unnamed', 'copies', 'parse', 'lookup', 'numpy',
         'discover', 'interrupted', 'interrupted')


def gen(r):
    return ('history', tuple((r.choice(STEPS), name(r), r.getrandbits(30))
                             for _ in range(r.choice((5, 10, 20, 40)))))


def mutate(r, case):
    if case[0] != 'history':
        return gen(r)
    xs = list(case[1])
    xs[r.randrange(len(xs)):] = gen(r)[1][:20]
    return ('history', tuple(xs))


def fixed(tier):
    yield ('finding', 'class-name')
    for n in sorted(STANDARD) + sorted(EQUAL):
        yield ('standard', n)
    for n in SETS:
        yield ('standard set', n)
    # each name registered at import, against each way of taking it
    for n in BUILTIN + SETS + FRESH:
        for how in ('register', 'ctype', 'named', 'typeset', 'typeset direct',
                    'interrupted'):
            yield ('history', ((how, n, 1), (how, n, 2), ('numpy', n, 3),
                               ('ctype', n, 4), ('register', n, 5)))


class Watch(object):
    """The model: what every name is bound to, if anything."""

    def __init__(self):
        self.types, self.sets, self.counts = {}, {}, {}
        self.other = typesets.TypesetRegistry()
        self.others = {}
        for n in BUILTIN:
            x = self.find(n)
            if x is not None:
                self.types[n] = x[0]
        for n in SETS:
            self.sets[n] = getattr(typesets, n)
        self.never = set()
        self.work = self.working()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def find(self, n):
        try:
            return (T.Type.lookup_type(n),)
        except KeyError:
            return None

    def working(self):
        """Uses of the built-in names."""
        out = []
        for s in ('int32', '3 * ?float64', 'var * {a: complex[float32]}', 'bool',
                  'real', 'string[3]'):
            out.append(str(datashape.dshape(s)))
        for d in ('i1', 'i4', 'i8', 'u2', 'f4', 'f8', 'c8', 'c16', '?', 'U5',
                  'S3', 'M8[us]', 'm8[s]', 'O'):
            try:
                t = T.CType.from_numpy_dtype(np.dtype(d))
                out.append((d, type(t).__name__, str(t)))
            except Exception as e:
                out.append((d, type(e).__name__))
        out.append(str(datashape.discover([1, 2.5, None, 'a'])))
        out.append(str(datashape.maxtype(datashape.int8)))
        out.append(str(typesets.supertype(datashape.int8)))
        return out

    def verify(self, step, extra=()):
        for n, x in self.types.items():
            y = self.find(n)
            if y is None or y[0] is not x:
                raise Bad('bound for ever', step, 'type name', n, 'was', repr(x),
                          'now', repr(y))
        for n, x in self.sets.items():
            for y in (typesets.registry.lookup(n), typesets.lookup(n),
                      typesets.registry[n]):
                if y is not x:
                    raise Bad('bound for ever', step, 'type set name', n, 'was',
                              repr(x), 'now', repr(y))
        for n, x in self.others.items():
            if self.other[n] is not x:
                raise Bad('own registry', step, n, 'was', repr(x))
        self.count('bound for ever', len(self.types) + len(self.sets))
        self.never.update(extra)
        for n in self.never:
            if n not in self.types and self.find(n) is not None:
                raise Bad('not found', step, 'type name', n, 'is',
                          repr(self.find(n)))
            if n not in self.sets:
                try:
                    y = typesets.registry[n]
                except KeyError:
                    y = typesets.registry.lookup(n)
                if y is not None:
                    raise Bad('not found', step, 'type set name', n, 'is',
                              repr(y))
        self.count('not found', len(self.never))


class Bad(Exception):
    pass


def attempt(f, *args, **kwargs):
    try:
        return None, f(*args, **kwargs)
    except Exception as e:
        return e, None


def scalars(r):
    return [r.choice((T.int8, T.int16, T.float32, T.bool_, T.complex64))
            for _ in range(r.choice((0, 1, 2, 3)))]


def step(w, how, n, seed):
    r = random.Random(seed)
    what = (how, n)
    made = 'registered'
    if how in ('register', 'ctype', 'named'):
        if how == 'register':
            x = r.choice((T.int32, T.Record, object(), None, 5,
                          datashape.dshape('3 * int32'),
                          w.types['int64'], []))
            e, y = attempt(T.Type.register, n, x)
        elif how == 'ctype':
            x = None
            e, y = attempt(T.CType, n, r.choice((1, 4, 8)), r.choice((1, 4)))
            x = y
        else:
            e, y = attempt(T.DataShape, *([T.Fixed(3)] * r.choice((0, 1)) +
                                          [T.int32]), name=n)
            x = y
            if not n:
                if e is not None:
                    raise Bad('unnamed', what, repr(e))
                return
        if n in w.types:
            if not isinstance(e, TypeError):
                raise Bad('refused', what, 'gave', repr(e), repr(y))
            w.count('refused')
            if n in BUILTIN:
                w.count('built in')
        else:
            if e is not None:
                raise Bad('registered', what, 'gave', repr(e))
            w.types[n] = x
            w.count('registered')
    elif how in ('typeset', 'typeset direct'):
        if how == 'typeset':
            e, y = attempt(typesets.TypeSet, *scalars(r), name=n)
            x = y
            if not n:
                if e is not None or y.name:
                    raise Bad('unnamed', what, repr(e))
                w.count('unnamed')
                return
        else:
            x = typesets.TypeSet(*scalars(r))
            f = r.choice((typesets.registry.register_typeset,
                          typesets.register_typeset))
            e, y = attempt(f, n, x)
        if n in w.sets:
            if not isinstance(e, TypeError):
                raise Bad('set refused', what, 'gave', repr(e), repr(y))
            w.count('set refused')
        else:
            if e is not None:
                raise Bad('set registered', what, 'gave', repr(e))
            if how == 'typeset direct' and y is not x:
                raise Bad('set registered', what, 'gave', repr(y))
            w.sets[n] = x
            w.count('set registered')
    elif how == 'class':
        c = 'Class%d' % (seed % 50)
        if c not in w.types:
            base = r.choice((T.Mono, T.Unit, T.CType, T.Record))
            w.types[c] = T.Type(c, (base,), {'__slots__': ()})
    elif how == 'abstract':
        base = r.choice((T.Mono, T.Unit, T.CType))
        T.Type(n if isinstance(n, str) else 'Abstract', (base,),
               {'abstract': True})
        w.count('unnamed')
    elif how == 'bad class':
        e, _ = attempt(T.Type, n if isinstance(n, str) else 'Bad', (T.Mono, int),
                       {'__slots__': ('x',)})
        if e is None:
            raise Bad('failed creation', what, 'did not fail')
        w.count('failed creation')
    elif how == 'bad ctype':
        e, _ = attempt(T.CType, *r.choice(((n,), (n, 1), (n, 1, 2, 3), ())))
        if not isinstance(e, TypeError):
            raise Bad('failed creation', what, repr(e))
        w.count('failed creation')
    elif how == 'bad named':
        args = r.choice(((T.int32, T.int32), (T.Fixed(3),), ('int32',), (),
                         (T.Fixed(3), T.Fixed(4)), (T.int32, T.Fixed(2))))
        e, _ = attempt(T.DataShape, *args, name=n)
        if not isinstance(e, (TypeError, ValueError)):
            raise Bad('failed creation', what, args, repr(e))
        w.count('failed creation')
    elif how == 'unhashable':
        x = r.choice(UNHASHABLE)
        for f in (lambda: T.Type.register(x, T.int32),
                  lambda: T.CType(x, 1, 1),
                  lambda: typesets.registry.register_typeset(
                      x, typesets.TypeSet(T.int8)),
                  lambda: typesets.TypeSet(T.int8, name=x or ['a']),
                  lambda: T.DataShape(T.int32, name=x or ['a'])):
            e, _ = attempt(f)
            if not isinstance(e, TypeError):
                raise Bad('failed creation', what, x, repr(e))
        w.count('failed creation')
    elif how == 'other registry':
        x = typesets.TypeSet(*scalars(r))
        e, _ = attempt(w.other.register_typeset, n, x)
        if n in w.others:
            if not isinstance(e, TypeError):
                raise Bad('own registry', what, repr(e))
        elif e is not None:
            raise Bad('own registry', what, repr(e))
        else:
            w.others[n] = x
        if attempt(lambda: typesets.TypesetRegistry()[n])[0] is None:
            raise Bad('own registry', what, 'a new one knows it')
        w.count('own registry')
    elif how == 'unnamed':
        a = typesets.TypeSet(*scalars(r))
        b = a | r.choice(list(w.sets.values()))
        for s in (a, b):
            if s.name:
                raise Bad('unnamed', what, s.name)
        w.count('unnamed')
    elif how == 'copies':
        for x in r.sample(list(w.types.values()), 6) + list(w.sets.values()):
            for f in (copy.copy, copy.deepcopy,
                      lambda x: pickle.loads(pickle.dumps(x, r.randrange(6)))):
                attempt(f, x)
    elif how == 'parse':
        for s in (n, '3 * %s' % (n,), '?%s' % (n,), '{a: %s}' % (n,)):
            if isinstance(s, str):
                attempt(datashape.dshape, s)
    elif how == 'numpy':
        for d in (n, 'M8[us]', 'U40', 'V8', 'i4'):
            attempt(lambda d: T.CType.from_numpy_dtype(np.dtype(d)), d)
    elif how == 'discover':
        attempt(datashape.discover, [n, 1, {'a': n}])
    elif how == 'interrupted':
        x = object()
        box = []
        f = r.choice((lambda: T.Type.register(n, x),
                      lambda: box.append(T.CType(n, 1, 1)),
                      lambda: box.append(T.DataShape(T.int32, name=n)),
                      lambda: typesets.registry.register_typeset(
                          n, typesets.TypeSet(T.int8)),
                      lambda: box.append(typesets.TypeSet(T.int8, name=n))))
        c27.interrupted(f, r.choice((1, 2, 3, 4, 5, 6, 8, 10, 20)))
        y = w.find(n)
        if y is not None and n not in w.types:
            if not (y[0] is x or isinstance(y[0], (T.CType, T.DataShape))):
                raise Bad('interrupted', what, 'left', repr(y))
            if isinstance(y[0], T.CType) and (y[0].name != n or
                                              y[0].itemsize != 1):
                raise Bad('interrupted', what, 'left', repr(y))
            w.types[n] = y[0]
        y = typesets.registry.lookup(n)
        if y is not None and n not in w.sets:
            if tuple(y.types) != (T.int8,):
                raise Bad('interrupted', what, 'left', repr(y))
            w.sets[n] = y
        w.count('interrupted')


def history(steps):
    """In a fresh copy of the process: (violation or None, counts)."""
    w = Watch()
    try:
        for s in steps:
            step(w, *s)
            w.verify(s, [s[1]])
            if s[2] % 4 == 0:
                w.verify(s)
                same(w, s)
        same(w, 'the end')
    except Bad as e:
        return [str(a) for a in e.args], w.counts, len(w.types)
    return None, w.counts, len(w.types)


def same(w, s):
    if w.find('datetime64[us]') or w.find('str160'):
        return              # NumPy's own names, taken by the history
    now = w.working()
    if now != w.work:
        raise Bad('still works', s, 'before', w.work, 'now', now)
    w.count('still works')


def finding(ident):
    """Whether the listed finding is still there."""
    if ident == 'class-name':
        old = T.Type.lookup_type('Record')
        T.Type('Record', (T.Mono,), {'__slots__': ()})
        return T.Type.lookup_type('Record') is not old
    raise ValueError(ident)


def standard(kind, n):
    """What is wrong with a name that is registered at import, if anything,
    and that it cannot be taken."""
    if kind == 'standard':
        x = T.Type.lookup_type(n)
        if n in EQUAL:
            if x != EQUAL[n]() or type(x) is not EQUAL[n]:
                return 'the name %r finds %r' % (n, x)
        elif x is not getattr(T, STANDARD[n]):
            return 'the name %r finds %r' % (n, x)
        take = (lambda: T.Type.register(n, T.int8), lambda: T.CType(n, 1, 1),
                lambda: T.DataShape(T.int32, name=n))
        after = lambda: T.Type.lookup_type(n)
    else:
        x = getattr(typesets, n)
        for y in (typesets.registry.lookup(n), typesets.lookup(n),
                  typesets.registry[n]):
            if y is not x:
                return 'the name %r finds %r' % (n, y)
        take = (lambda: typesets.TypeSet(T.int8, name=n),
                lambda: typesets.register_typeset(n, typesets.integral))
        after = lambda: typesets.registry[n]
    for f in take:
        e, y = attempt(f)
        if not isinstance(e, TypeError):
            return 'the name %r was taken: %r %r' % (n, e, y)
    if after() is not x:
        return 'the name %r finds %r' % (n, after())


def in_copy(arg):
    sys.settrace(None)
    if arg[0].startswith('standard'):
        return standard(*arg)
    return finding(arg[1]) if arg[0] == 'finding' else history(arg[1])


CTX = {}


def run(case, mon):
    if 'server' not in CTX:
        CTX['server'] = pristine.Server(in_copy)
    got = CTX['server'].call(case)
    if case[0] == 'finding':
        ids = known.listed('C30')
        if got:
            mon.check('listed finding', case[1] in ids, case[1],
                      'is not a listed finding')
            mon.known(ids[case[1]])
        else:
            mon.count('listed finding')
        return
    if case[0].startswith('standard'):
        mon.check('standard names', got is None, got)
        return
    bad, counts, names = got
    for k, v in counts.items():
        mon.count(k, v)
    if bad is not None:
        mon.fail(bad[0], *bad[1:])
    mon.seen(case[1])
