"""C18: NumPy data is discovered with its exact shape and type."""
import random

import numpy as np

import datashape

from vf import gen as G, model as M, npref
from vf.checks import c12

RULE = ('arrays and NumPy scalars of generated dtypes (see C12) and shapes, '
        'empty to broadcast to billions of elements, in C and Fortran order, '
        'transposed, strided, reversed, read-only, as views, record arrays '
        'and sub-classes, with random bytes as contents; arrays and record '
        'columns of Python objects holding text only, or something else '
        'first.  Non-trivial: distinct (shape, dtype, layout, contents).')
COUNT = {'quick': 240000, 'thorough': 3500000}
REQUIRED = ('array', 'numpy scalar', 'text', 'objects', 'text column',
            'object column', 'refused', 'contents unchanged', 'layouts',
            'huge')
REFUSED = (TypeError, ValueError, NotImplementedError)
LAYOUTS = ('C', 'F', 'T', 'step', 'reversed', 'readonly', 'broadcast', 'view',
           'sub', 'swapaxes', 'matrix', 'masked', 'rec', 'like')


class Sub(np.ndarray):
    pass


class Like(object):
    """Not an array, but with a shape and a dtype."""

    def __init__(self, x):
        self.shape, self.dtype = x.shape, x.dtype


def shape(r):
    k = r.random()
    if k < .12:
        return ()
    return tuple(r.choice((0, 1, 1, 2, 3, 4, 5, 7, 11))
                 for _ in range(r.choice((1, 1, 1, 2, 2, 3, 4))))


def shapes(r):
    """The shape of an array of any size."""
    if not G.big(r):
        return shape(r)
    if r.random() < .3:     # many dimensions
        return tuple(r.choice((1, 1, 1, 1, 2)) for _ in
                     range(min(G.size(r), 20)))
    return (G.size(r),) + r.choice(((), (1,), (2,)))


def gen(r):
    k = r.random()
    if k < .2:
        s = shapes(r)
        return ('objects', s, r.choice(CONTENTS), r.choice(LAYOUTS[:12]),
                r.getrandbits(30))
    if k < .4:
        fs = []
        for _ in range(G.count(r, (1, 2, 3, 4, 6), grows=True)):
            n = G.name(r)
            if not n or n in [f[0] for f in fs]:
                continue
            fs.append((n, r.choice(CONTENTS) if r.random() < .7 else
                       r.choice(('i4', 'f8', 'S3', '>U4', 'M8[D]', '?'))))
        return ('columns', shapes(r), tuple(fs), r.choice(LAYOUTS[:12]),
                r.getrandbits(30))
    if k < .55:
        return ('scalar', (), c12.scalar(r, .05), '', r.getrandbits(30))
    if k < .62:
        return ('huge', c12.shape(r), c12.scalar(r, 0), '', 0)
    return ('array', shapes(r), c12.desc(r, r.choice((0, 0, 1, 2, 3)),
                                        r.choice((0, 0, .1))),
            r.choice(LAYOUTS), r.getrandbits(30))


def fixed(tier):
    for c in c12.SIMPLE + tuple('M8[%s]' % u for u in c12.UNITS) + tuple(
            'm8[%s]' % u for u in c12.UNITS) + c12.BAD + ('S1', 'U1', 'S7'):
        for e in '<>':
            yield ('scalar', (), e + c, '', 1)
            for lay in LAYOUTS:
                yield ('array', (3, 4), e + c, lay, 2)
    for c in CONTENTS:
        for s in ((), (1,), (4,), (5,), (6,), (2, 3), (1, 7), (0,), (2, 0)):
            for lay in LAYOUTS[:12]:
                yield ('objects', s, c, lay, 3)
                yield ('columns', s, (('a', c), ('b', 'i4')), lay, 4)


CONTENTS = ('text', 'text', 'empty text', 'str subclass', 'first', 'none',
            'numbers', 'bytes', 'None', 'lists', 'second', 'fifth')


class Str(str):
    pass


def content(r, kind, n):
    """n Python objects, and whether all are texts (None: unspecified)."""
    ts = [r.choice(('a', 'Bob', '1', 'é', '\x00', 'x y')) for _ in range(n)]
    if kind == 'text':
        return ts, True
    if kind == 'empty text':
        return [''] * n, True
    if kind == 'str subclass':
        return [Str(t) for t in ts], True
    other = {'first': 1, 'second': None, 'fifth': b'x'}.get(kind)
    if kind in ('first', 'second', 'fifth'):
        i = {'first': 0, 'second': 1, 'fifth': 4}[kind]
        if i >= n:
            return ts, True
        ts[i] = other
        return ts, False
    if kind == 'none':
        return [1.5] * n, False
    if kind == 'numbers':
        return list(range(n)), False
    if kind == 'bytes':
        return [b'abc'] * n, False
    if kind == 'None':
        return [None] * n, False
    return [['a'] for _ in range(n)], False


def lay(x, how, r):
    """A view on x's data, in logical order, with another layout."""
    if how == 'C':
        return x
    if how == 'F':
        return np.asfortranarray(x) if x.ndim else x
    if how == 'T':
        return x.T.copy().T
    if how == 'swapaxes':
        return x.swapaxes(0, -1).copy().swapaxes(0, -1) if x.ndim else x
    if how == 'step' and x.nbytes << x.ndim < 10 ** 8:
        y = np.empty(tuple(2 * n for n in x.shape), x.dtype)
        y = y[tuple(slice(None, None, 2) for _ in x.shape)] if x.ndim else y
        y[...] = x
        return y
    if how == 'reversed':
        i = tuple(slice(None, None, -1) for _ in x.shape)
        return x[i].copy()[i] if x.ndim else x
    if how == 'readonly':
        x = x.copy()
        x.flags.writeable = False
        return x
    if how == 'view':
        return x.view()
    if how == 'sub':
        return x.view(Sub)
    if how == 'matrix':
        return np.matrix(x, copy=False) if x.ndim == 2 else x
    if how == 'masked':
        return np.ma.array(x, copy=False) if x.dtype.names is None else x
    if how == 'broadcast':
        return np.broadcast_to(x, x.shape)
    if how == 'rec':
        return x.view(np.recarray) if x.dtype.names else x
    return Like(x) if how == 'like' else x


def look(x):
    """Everything about the array but its contents."""
    if isinstance(x, Like):
        return None
    return (x.shape, x.strides, x.dtype, str(x.flags), type(x))


def objects(values, shp):
    a = np.empty(len(values), object)
    for i, v in enumerate(values):
        a[i] = v
    return a.reshape(shp)


def run(case, mon):
    kind, shp, d, how, seed = case
    r = random.Random(seed)
    n = int(np.prod(shp, dtype=object)) if shp else 1
    fixes = tuple(('fix', k) for k in shp)
    if kind == 'objects':
        vs, texts = content(r, d, n)
        if n == 0:
            return
        x = lay(objects(vs, shp), how, r)
        want = ('string', None, 'U8') if texts else ('ct', 'object')
        before = [id(v) for v in x.flat], look(x)
        got = datashape.discover(x)
        mon.check('text' if texts else 'objects',
                  M.of(got) == M.array(fixes, want), vs, shp, how, 'gives',
                  got)
        mon.check('contents unchanged', ([id(v) for v in x.flat],
                                         look(x)) == before, before, look(x))
        mon.count('layouts')
    elif kind == 'columns':
        fs, want = [], []
        if n == 0:
            return
        dt = np.dtype([(name, 'O' if c in CONTENTS else c) for name, c in d])
        x = np.zeros(shp, dt)
        for name, c in d:
            if c in CONTENTS:
                vs, texts = content(r, c, n)
                x[name] = objects(vs, shp)
                want.append((name, ('string', None, 'U8') if texts else
                             ('ct', 'object')))
                mon.count('text column' if texts else 'object column')
            else:
                want.append((name, npref.model_of(np.dtype(c))))
        x = lay(x, how, r)
        before = look(x)
        got = datashape.discover(x)
        mon.check('array', M.of(got) == M.array(fixes, ('rec', tuple(want))),
                  x, shp, how, 'gives', got, 'expected', want)
        mon.check('contents unchanged', look(x) == before, before, look(x))
    else:
        try:
            dt = c12.make(d)
        except ValueError:
            return
        try:
            want = npref.model_of(dt)
        except npref.Unspecified:
            return
        except npref.Refused:
            want = None
        if kind == 'scalar':
            if dt.kind in 'SUOV':
                return
            x = np.zeros(1, dt)
            x.view(np.uint8)[:] = [r.choice((0, 0, 1, 7, 255)) if
                                   dt.kind != 'b' else 1
                                   for _ in range(dt.itemsize)]
            x = x[0]
        elif kind == 'huge':
            if dt.kind == 'O' or len(shp) > 30 or any(
                    k >= 2 ** 31 for k in shp) or 0 in shp:
                return
            if n * max(dt.itemsize, 1) >= 2 ** 60:
                return
            x = np.broadcast_to(np.zeros((), dt), shp)
            mon.count('huge')
        else:
            if dt.itemsize * n > 200000 or dt.hasobject and not n:
                return
            x = np.zeros(shp, dt)
            if x.size and not dt.hasobject and dt.itemsize and r.random() < .5:
                b = bytes(r.getrandbits(8) if dt.kind != 'b' else 1
                          for _ in range(dt.itemsize))
                x = np.frombuffer(b * x.size, np.uint8).view(
                    [('', dt)]).view(dt).reshape(shp) if dt.kind != 'V' else x
            x = lay(x, how, r)
            mon.count('layouts')
        if x.dtype != dt and dt.kind in 'SU':   # NumPy has no empty strings
            dt = x.dtype
            want = npref.model_of(dt)
        if want is None:
            mon.refused('refused', REFUSED, datashape.discover, x)
        else:
            before = None if kind == 'huge' or how == 'like' else \
                (x.tobytes(), look(x))
            got = datashape.discover(x)
            mon.check('numpy scalar' if kind == 'scalar' else 'array',
                      M.of(got) == M.array(fixes, want), dt, shp, how,
                      'gives', got, 'expected', want)
            if before is not None:
                mon.check('contents unchanged', (x.tobytes(), look(x)) ==
                          before, before, look(x))
    mon.seen(case[:4])
