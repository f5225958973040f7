"""Values, as literals that can be written out, and what they are.

  ('L', x...) ('T', x...)        list, tuple
  ('S', x...) ('F', x...)        set, frozenset
  ('D', (k, x)...)               dictionary; 'O' ordered, 'P' a proxy
  (kind, argument)               a scalar
"""
import collections
import datetime as dt
import enum
import functools
from collections import OrderedDict
from types import MappingProxyType

import numpy as np

from . import gen as G
from .checks import c16

NP = {'i1': ('ct', 'int8'), 'i2': ('ct', 'int16'), 'i4': ('ct', 'int32'),
      'i8': ('ct', 'int64'), 'u1': ('ct', 'uint8'), 'u2': ('ct', 'uint16'),
      'u4': ('ct', 'uint32'), 'u8': ('ct', 'uint64'), 'f2': ('ct', 'float16'),
      'f4': ('ct', 'float32'), 'f8': ('ct', 'float64'),
      'c8': ('ct', 'complex[float32]'), 'c16': ('ct', 'complex[float64]')}
SEQ = {'L': list, 'T': tuple, 'S': set, 'F': frozenset}
MAPS = 'DOP'


def decode(x):
    k = x[0]
    if k in SEQ:
        return SEQ[k](map(decode, x[1:]))
    if k in MAPS:
        items = [(n, decode(v)) for n, v in x[1:]]
        return {'D': dict, 'O': OrderedDict,
                'P': lambda i: MappingProxyType(dict(i))}[k](items)
    if k == 'str':
        return x[1]
    if k in NP:
        return np.dtype(k).type(x[1])
    return c16.value(k, x[1])


def derived(c):
    return type(c.__name__.title(), (c,), {})


DERIVED = {c: derived(c) for c in (
    list, tuple, set, frozenset, dict, OrderedDict, int, float, complex, str,
    bytes, dt.date, dt.time, dt.timedelta, dt.datetime)}


@functools.lru_cache(None)
def row(n):
    return collections.namedtuple('Row', ['c%d' % i for i in range(n)])


def dressed(v, r, share=.7, scalars=DERIVED):
    """v with instances of classes derived from those of its parts."""
    c = type(v)
    if c in (list, tuple, set, frozenset):
        v = c(dressed(x, r, share, scalars) for x in v)
    elif c in (dict, OrderedDict):
        v = c((k, dressed(x, r, share, scalars)) for k, x in v.items())
    elif c not in scalars:
        return v
    if c not in DERIVED or r.random() > share:
        return v
    k = r.random()
    if c is tuple and k < .5 and len(v) < 40:
        return row(len(v))(*v)
    if c is dict and k < .3:
        return collections.defaultdict(list, v)
    if c is int and k < .3:
        return enum.IntEnum('Number', {'one': v}).one
    if c is str and k < .3 and not v.endswith('\0'):
        return np.str_(v)
    if c is dt.datetime:
        return DERIVED[c].combine(v.date(), v.timetz())
    if c is dt.date:
        return DERIVED[c](v.year, v.month, v.day)
    if c is dt.time:
        return DERIVED[c](v.hour, v.minute, v.second, v.microsecond, v.tzinfo)
    if c is dt.timedelta:
        return DERIVED[c](v.days, v.seconds, v.microseconds)
    return DERIVED[c](v)


def names(r, n):
    """n names of fields, sometimes much alike."""
    if r.random() < .25:
        i = r.randrange(len(G.FAMILIES))
        f = G.FAMILIES[i:i + n + r.choice((0, 0, 2, 8))] if r.random() < .7 \
            else G.FAMILIES
        if len(f) >= n:
            return r.sample(f, n)
    out = []
    for _ in range(n):
        s = G.name(r)
        if s not in out:
            out.append(s)
    return out


def missing(x):
    return x[0] in ('none', 'null') or x == ('str', '')


def base(x):
    """The model of a scalar; None if unspecified."""
    if x[0] == 'str':
        return c16.classify(x[1])[1]
    return NP.get(x[0]) or c16.VALUES[x[0]]


TEXTS = ('', '', '1', '-5', '1.5', '1e5', 'nan', 'True', 'false', '3 days',
         '1 us', '5 microseconds', '12:30:00', '2014-01-01',
         '2014-01-01 12:30:00', 'Alice', 'a b', ' ', 'x1', 'Zoë', '0')
SCALARS = ('int', 'int', 'int', 'float', 'float', 'str', 'str', 'str', 'none',
           'bool', 'date', 'datetime', 'time', 'timedelta', 'complex', 'bytes')


def scalar(r, kinds=SCALARS):
    k = r.choice(kinds)
    if k == 'none':
        return ('none', 0)
    if k == 'str':
        q = r.random()
        return ('str', r.choice(TEXTS) if q < .7 else c16.txt(r) if q < .85
                else G.name(r))
    if k == 'int':
        return (k, r.choice((0, 1, 2, -1, 7, 10 ** 6, 2 ** 31, -2 ** 63,
                             2 ** 63 - 1)) if r.random() < .7
                else r.randrange(-100, 100))
    if k == 'float':
        return (k, r.choice(('1.5', '0', '-2', '1e300', 'nan', 'inf')))
    if k in NP:
        return (k, r.randrange(0, 100))
    if k == 'np':
        return (r.choice(sorted(NP)), r.randrange(0, 100))
    while True:
        x = c16.val(r)
        if x[0] == k:
            return x[:2]


# ---------------------------------------------------------------- widening

UP = {('ct', 'int32'): (('ct', 'int64'),),
      ('ct', 'int64'): (('ct', 'float64'),),
      ('ct', 'float64'): (c16.STRING,),
      ('date',): (('datetime', None),),
      ('datetime', None): (c16.STRING,),
      ('ct', 'bool'): (c16.STRING,),
      ('timedelta', 'us'): (c16.STRING,),
      c16.STRING: ()}


def widens(m):
    """The types m widens to, itself first, from the least to the greatest."""
    out = [m]
    while UP.get(out[-1]):
        out.append(UP[out[-1]][0])
    return out


def least(types):
    """The least type all of them widen to, or None."""
    common = None
    for t in types:
        w = widens(t)
        common = w if common is None else [x for x in common if x in w]
    return common[0] if common else None
