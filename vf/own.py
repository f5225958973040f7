"""Types of a user's own, made known to the code under test the documented way:
classes derived from the component classes, entered in the default symbol table
and registered with the generic functions.

Importing this module adds the model form ('own', name, *arguments).
"""
import numpy as np

import datashape
from datashape import coretypes as T, type_symbol_table as S

from . import model as M


def quoted(x):
    if not isinstance(x, str):
        return str(x)
    return "'%s'" % ''.join(
        c if ' ' <= c and c not in '\\\'' and not '\x7f' <= c <= '\uffff'
        else '\\u%04x' % ord(c)
        for c in x)


def listed(args):
    return '[%s]' % ', '.join(map(quoted, args)) if args else ''


class Ip(T.Unit):
    """Without parameters, and one that counts as false."""
    cls = T.MEASURE
    __slots__ = ()

    def __bool__(self):
        return False


class Money(T.Unit):
    """With slots, and a NumPy type."""
    cls = T.MEASURE
    __slots__ = 'currency', 'digits'

    def __init__(self, currency, digits=2):
        self.currency = currency
        self.digits = digits

    def __str__(self):
        return 'money' + listed(self.parameters)

    def to_numpy_dtype(self):
        return np.dtype('i8')


class Blob(T.Unit):
    """Without slots: its parameters are what it was made with."""
    cls = T.MEASURE

    def __str__(self):
        return 'blob' + listed(self.parameters)


class Day(T.Date):
    """Derived from a built-in one."""


class Range(T.Mono):
    """With a type inside."""
    cls = T.MEASURE
    __slots__ = 'of',

    def __init__(self, of):
        if isinstance(of, T.DataShape) and len(of) == 1:
            of = of[0]
        self.of = of

    def __str__(self):
        return 'range[%s]' % self.of


class Lines(T.Mono):
    """With types inside, without slots."""
    cls = T.MEASURE

    def __init__(self, *of):
        super(Lines, self).__init__(*[
            x[0] if isinstance(x, T.DataShape) and len(x) == 1 else x
            for x in of])

    def __str__(self):
        return 'lines[%s]' % ', '.join(map(str, self.parameters))


CLASSES = {c.__name__: c for c in (Ip, Money, Blob, Day, Range, Lines)}
COMPOSITE = ('Range', 'Lines')
NUMPY = {'Money': np.dtype('i8'), 'Day': np.dtype('M8[D]')}
quad = T.CType('quad', 16, 16)


def _of(x):
    n = type(x).__name__
    if n in COMPOSITE:
        return ('own', n) + tuple(map(M.of, x.parameters))
    return ('own', n) + x.parameters


def _build(m):
    c = CLASSES[m[1]]
    if m[1] in COMPOSITE:
        return c(*[M.build(x) for x in m[2:]])
    return c(*m[2:])


def install(sym=S.sym):
    for n, c in CLASSES.items():
        M.OWN[c] = _of
        if n in ('Ip', 'Day', 'Blob'):
            sym.dtype[n.lower()] = c()
        if n not in ('Ip', 'Day'):
            sym.dtype_constr[n.lower()] = c
    sym.dtype['quad'] = quad
    M._ct['quad'] = quad


install()
PUBLIC = dict(CLASSES, quad=quad)


# A class derived from each component class
DERIVED = {}
for _c in (T.Null, T.Date, T.Time, T.DateTime, T.TimeDelta, T.Units, T.Bytes,
           T.String, T.Decimal, T.JSON, T.Record, T.Tuple, T.Option,
           T.Function, T.Map, T.Categorical, T.Fixed, T.Var, T.TypeVar,
           T.Ellipsis, T.DataShape):
    _n = 'Own' + _c.__name__
    DERIVED[_c] = globals()[_n] = T.Type(_n, (_c,), {'__module__': __name__})
