"""An independent description of the types, and how to get it from, and turn
it into, objects of the code under test.

A model is a nest of tuples:

  ('ds', dims, measure)    an array, dims a non-empty tuple of
                           ('fix', n) ('var',) ('ell', None | name) ('tv', name)
  measures                 ('ct', name) ('null',) ('date',) ('time', tz)
                           ('datetime', tz) ('timedelta', unit)
                           ('units', unit, X) ('bytes',) ('json',)
                           ('string', fixlen, encoding) ('decimal', p, s)
                           ('cat', categories, X, ordered) ('opt', X)
                           ('rec', ((name, X), ...)) ('tup', (X, ...))
                           ('fn', (X, ...), X) ('map', X, X) ('tv', name)

A zero-dimensional datashape is the same as its measure.
"""
import datashape
from datashape import coretypes as T


class Malformed(Exception):
    pass


OWN = {}            # see own.py
FALSE = set()       # type variables that count as false


# ---------------------------------------------------------------- objects -> models

def _name(x, what):
    if not isinstance(x, str):
        raise Malformed('%s is %r' % (what, x))
    return x if type(x) is str else str.__str__(x)


def dim_of(d):
    k = type(d)
    if k is T.Fixed:
        n = d.val
        if type(n) is not int or n < 0:
            raise Malformed('fixed dimension of size %r' % (n,))
        return ('fix', n)
    if k is T.Var:
        return ('var',)
    if k is T.Ellipsis:
        tv = d.typevar
        if tv is None:
            return ('ell', None)
        if type(tv) is T.TypeVar:
            tv = tv.symbol
        if not _name(tv, 'ellipsis')[:1].isupper():
            raise Malformed('ellipsis named %r' % (tv,))
        return ('ell', tv)
    if k is T.TypeVar or k in FALSE:
        if not _name(d.symbol, 'type variable')[:1].isupper():
            raise Malformed('type variable %r' % (d.symbol,))
        return ('tv', d.symbol)
    raise Malformed('%s in dimension position' % k.__name__)


def of(x):
    """The model of a type object; Malformed if it is none."""
    k = type(x)
    if k is T.DataShape:
        p = x.parameters
        if type(p) is not tuple or not p:
            raise Malformed('datashape with parameters %r' % (p,))
        dims = tuple(map(dim_of, p[:-1]))
        if sum(d[0] == 'ell' for d in dims) > 1:
            raise Malformed('two ellipses in one array')
        if type(p[-1]) is T.DataShape:
            raise Malformed('datashape as measure')
        m = of(p[-1])
        return ('ds', dims, m) if dims else m
    if k is T.CType:
        return ('ct', _name(x.name, 'ctype'))
    if k is T.Null:
        return ('null',)
    if k is T.Date:
        return ('date',)
    if k is T.Time or k is T.DateTime:
        tz = x.tz
        if tz is not None:
            _name(tz, 'time zone')
        return ('time' if k is T.Time else 'datetime', tz)
    if k is T.TimeDelta:
        return ('timedelta', _name(x.unit, 'unit'))
    if k is T.Units:
        return ('units', _name(x.unit, 'unit'), of(x.tp))
    if k is T.Bytes:
        return ('bytes',)
    if k is T.JSON:
        return ('json',)
    if k is T.String:
        n = x.fixlen
        if n is not None and (type(n) is not int or n < 0):
            raise Malformed('string length %r' % (n,))
        if x.encoding not in ('A', 'U8', 'U16', 'U32'):
            raise Malformed('string encoding %r' % (x.encoding,))
        return ('string', n, x.encoding)
    if k is T.Decimal:
        return ('decimal', x.precision, x.scale)
    if k is T.Categorical:
        if type(x.categories) is not tuple:
            raise Malformed('categories %r' % (x.categories,))
        cats = tuple(of(c) if isinstance(c, T.Mono) else c
                     for c in x.categories)
        return ('cat', cats, of(x.type), x.ordered)
    if k is T.Option:
        return ('opt', of(x.ty))
    if k is T.Record:
        fs = x.fields
        if type(fs) is not tuple:
            raise Malformed('fields %r' % (fs,))
        names = [_name(n, 'field name') for n, _ in fs]
        if len(set(names)) != len(names):
            raise Malformed('duplicate field names %r' % (names,))
        return ('rec', tuple((n, of(t)) for n, t in fs))
    if k is T.Tuple:
        if type(x.dshapes) is not tuple:
            raise Malformed('dshapes %r' % (x.dshapes,))
        return ('tup', tuple(map(of, x.dshapes)))
    if k is T.Function:
        p = x.parameters
        if type(p) is not tuple or not p:
            raise Malformed('function of %r' % (p,))
        return ('fn', tuple(map(of, p[:-1])), of(p[-1]))
    if k is T.Map:
        return ('map', of(x.key), of(x.value))
    if k is T.TypeVar or k in FALSE:
        if not _name(x.symbol, 'type variable')[:1].isupper():
            raise Malformed('type variable %r' % (x.symbol,))
        return ('tv', x.symbol)
    if k in OWN:
        return OWN[k](x)
    raise Malformed('%s in measure position: %r' % (k.__name__, x))


# ---------------------------------------------------------------- models -> objects

_ct = {}
for _n in ('bool_ char int8 int16 int32 int64 uint8 uint16 uint32 uint64 '
           'float16 float32 float64 complex64 complex128 void object_').split():
    _ct[getattr(T, _n).name] = getattr(T, _n)
CT_NAMES = tuple(sorted(_ct))


def build_dim(d):
    k = d[0]
    if k == 'fix':
        return T.Fixed(d[1])
    if k == 'var':
        return T.Var()
    if k == 'ell':
        return T.Ellipsis() if d[1] is None else T.Ellipsis(T.TypeVar(d[1]))
    return T.TypeVar(d[1])


def build(m, wrap=False):
    """The type object of a model, made from the component classes only.

    Arrays are datashapes; measures are bare unless `wrap`."""
    k = m[0]
    if k == 'ds':
        return T.DataShape(*([build_dim(d) for d in m[1]] + [build(m[2])]))
    if wrap:
        return T.DataShape(build(m))
    if k == 'ct':
        if m[1] == 'quad':
            from . import own
        return _ct[m[1]]
    if k == 'null':
        return T.Null()
    if k == 'date':
        return T.Date()
    if k == 'time':
        return T.Time(m[1])
    if k == 'datetime':
        return T.DateTime(m[1])
    if k == 'timedelta':
        return T.TimeDelta(m[1])
    if k == 'units':
        return T.Units(m[1], build(m[2], True))
    if k == 'bytes':
        return T.Bytes()
    if k == 'json':
        return T.JSON()
    if k == 'string':
        return T.String(m[1], m[2])
    if k == 'decimal':
        return T.Decimal(m[1], m[2])
    if k == 'cat':
        return T.Categorical(list(m[1]), build(m[2]), m[3])
    if k == 'opt':
        return T.Option(build(m[1]))
    if k == 'rec':
        return T.Record([(n, build(x)) for n, x in m[1]])
    if k == 'tup':
        return T.Tuple([build(x, True) for x in m[1]])
    if k == 'fn':
        return T.Function(*[build(x, True) for x in m[1] + (m[2],)])
    if k == 'map':
        return T.Map(build(m[1]), build(m[2]))
    if k == 'tv':
        return T.TypeVar(m[1])
    if k == 'own':
        from . import own
        return own._build(m)
    raise ValueError(m)


def implied(cats):
    """The type plain categories have when none is given, if that is clear."""
    if cats and all(type(c) is str and c in ('a', 'b', 'ab', 'red', 'x')
                    for c in cats):
        return ('string', None, 'U8')
    if cats and all(type(c) is bool for c in cats):
        return ('ct', 'bool')
    if cats and all(type(c) is int and abs(c) < 2 ** 63 for c in cats):
        return ('ct', 'int64')


# ---------------------------------------------------------------- structure

def dims(m):
    return m[1] if m[0] == 'ds' else ()


def measure(m):
    return m[2] if m[0] == 'ds' else m


def array(ds, m):
    """The array of `ds` dimensions over m."""
    if not ds:
        return m
    if m[0] == 'ds':
        return ('ds', tuple(ds) + m[1], m[2])
    return ('ds', tuple(ds), m)


def children(m):
    """The types directly inside a type, in order (dimensions excluded)."""
    k = m[0]
    if k == 'ds':
        return (m[2],)
    if k == 'units':
        return (m[2],)
    if k == 'cat':
        return (m[2],)
    if k == 'opt':
        return (m[1],)
    if k == 'rec':
        return tuple(t for _, t in m[1])
    if k == 'tup':
        return m[1]
    if k == 'fn':
        return m[1] + (m[2],)
    if k == 'map':
        return (m[1], m[2])
    if k == 'own':
        return m[2:] if m[1] in ('Range', 'Lines') else ()
    return ()


def rebuild(m, kids):
    """m with its children replaced."""
    k = m[0]
    kids = tuple(kids)
    if k == 'ds':
        return array(m[1], kids[0])
    if k == 'units':
        return ('units', m[1], kids[0])
    if k == 'cat':
        return ('cat', m[1], measure(kids[0]), m[3])
    if k == 'opt':
        return ('opt', kids[0])
    if k == 'rec':
        return ('rec', tuple((n, t) for (n, _), t in zip(m[1], kids)))
    if k == 'tup':
        return ('tup', kids)
    if k == 'fn':
        return ('fn', kids[:-1], kids[-1])
    if k == 'map':
        return ('map', kids[0], kids[1])
    if k == 'own' and kids:
        return m[:2] + kids
    return m


def walk(m):
    yield m
    for c in children(m):
        for x in walk(c):
            yield x


def size(m):
    return sum(1 for _ in walk(m))


def paths(m, at=()):
    """The paths of child positions to every node of m."""
    yield at
    for i, c in enumerate(children(m)):
        for p in paths(c, at + (i,)):
            yield p


def at(m, path):
    for i in path:
        m = children(m)[i]
    return m


def replace(m, path, new):
    if not path:
        return new
    kids = list(children(m))
    kids[path[0]] = replace(kids[path[0]], path[1:], new)
    return rebuild(m, kids)


def kinds(m):
    return {x[0] for x in walk(m)} | {d[0] for x in walk(m)
                                      for d in dims(x)}


def shape_key(m):
    """m without its names and sizes: the structure, for counting."""
    k = m[0]
    if k == 'ds':
        return (tuple(d[0] for d in m[1]), shape_key(m[2]))
    kids = children(m)
    if kids:
        return (k,) + tuple(map(shape_key, kids))
    return m[:2] if k == 'ct' else k
