"""C12: NumPy types are imported faithfully."""
import numpy as np

import datashape
from datashape import coretypes as T

from vf import gen as G, model as M, npref, words

RULE = ('dtypes generated from descriptors: every scalar kind, width, unit and '
        'byte order, and structures of them to any depth, packed, aligned, '
        'with explicit offsets, titles, sub-arrays, as record; all shapes.  '
        'Non-trivial: distinct (shape, dtype descriptor).')
COUNT = {'quick': 300000, 'thorough': 4000000}
REQUIRED = ('imported', 'refused', 'exported again', 'nested', 'sub-arrays',
            'big endian', 'titles')

SIMPLE = ('b1', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4',
          'f8', 'c8', 'c16', 'O', 'q', 'l', 'Q', 'L', 'p', 'P', 'b', 'B', 'h',
          'H', 'i', 'I', 'e', 'f', 'd', 'F', 'D')
UNITS = ('Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as')
BAD = ('g', 'G', 'V3', 'V1', 'V16', 'm8', 'm8[ps]', 'm8[fs]', 'm8[as]',
       'm8[10us]', 'm8[2D]', 'm8[7W]', 'm8[25s]')


def scalar(r, bad=.03):
    k = r.random()
    if k < bad:
        return r.choice(BAD)
    if k < .5:
        s = r.choice(SIMPLE)
    elif k < .62:
        s = 'S%d' % size(r)
    elif k < .75:
        s = 'U%d' % size(r)
    elif k < .88:
        s = r.choice(('M8[%s]' % r.choice(UNITS), 'M8'))
    else:
        s = 'm8[%s]' % r.choice(UNITS[:10])
    return r.choice(('<', '>', '>', '=', '|', '')) + s if len(s) > 1 \
        else r.choice(('<', '>', '')) + s


def size(r):
    n = G.nat(r, True) if r.random() < .6 else G.nat(r)
    return n if n < 10 ** 6 else n % 1009


def desc(r, depth, bad):
    if depth <= 0 or r.random() < .4:
        return scalar(r, bad)
    names, fields = set(), []
    for _ in range(min(G.count(r, (0, 1, 1, 2, 2, 3, 4, 6), grows=depth > 1),
                       600)):
        n = G.name(r)
        if n in names:
            continue
        names.add(n)
        title = None
        if r.random() < .2:
            title = G.name(r)
            if title in names or not title or title == n:
                title = None
            else:
                names.add(title)
        k = r.random()
        shape = () if k < .65 else tuple(
            r.choice((0, 1, 1, 2, 3, 4, 7, 20))
            for _ in range(r.choice((1, 1, 1, 2, 2, 3, 5))))
        fields.append((n, title, desc(r, depth - 1, bad), shape))
    return (r.choice(('packed', 'packed', 'align', 'offsets', 'record')),
            tuple(fields))


def bytes_of(dt):
    """Its size; NumPy's own may have overflown."""
    n = int(np.prod(dt.shape, dtype=object)) if dt.subdtype else 1
    dt = dt.base
    if not dt.names:
        return n * dt.itemsize
    return n * max(dt.fields[f][1] % 2 ** 32 + bytes_of(dt.fields[f][0])
                   for f in dt.names)


def make(d):
    dt = compose(d)
    if bytes_of(dt) >= 2 ** 31:
        raise ValueError('too large')
    return dt


def compose(d):
    if isinstance(d, str):
        return np.dtype(d)
    mode, fields = d
    if any(f[0] == '' for f in fields):     # not as a list of fields
        mode = 'offsets'
    fs = [((t, n) if t else n, compose(x), s) if s else
          ((t, n) if t else n, compose(x)) for n, t, x, s in fields]
    if mode == 'record':
        return np.dtype((np.record, np.dtype(fs)))
    if mode != 'offsets' or not fs:
        return np.dtype(fs, align=mode == 'align')
    formats = [np.dtype(f[1:]) if len(f) > 2 else f[1] for f in fs]
    # the last field first, with gaps
    off, o = [], 8
    for f in formats[::-1]:
        off.insert(0, o)
        o += -(-f.itemsize // 8) * 8 + 16
    return np.dtype({'names': [n for n, _, _, _ in fields],
                     'formats': formats, 'offsets': off,
                     'titles': [t for _, t, _, _ in fields],
                     'itemsize': o + 24})


def shape(r):
    k = r.random()
    if k < .25:
        return ()
    return tuple(G.nat(r, r.random() < .6)
                 for _ in range(G.count(r, (1, 1, 2, 2, 3, 4, 7), grows=True)))


def fixed(tier):
    for c in SIMPLE:
        for e in '<>=|':
            for s in ((), (0,), (3,), (2, 5)):
                yield (s, e + c, 0)
    for u in UNITS:
        for c in 'Mm':
            for e in '<>':
                yield ((2,), '%s%s8[%s]' % (e, c, u), 0)
                yield ((), '%s%s8[%s]' % (e, c, u), 1)
    for n in range(0, 70):
        for c in ('S', '<U', '>U'):
            yield ((), c + str(n), n)
    for c in BAD:
        yield ((), c, 0)
        yield ((3,), ('packed', (('a', None, 'i4', ()), ('b', None, c, ()))), 0)


def gen(r):
    return (shape(r), desc(r, r.choice((0, 1, 1, 2, 3)),
                           r.choice((0, 0, .15))), r.randrange(12))


def mutate(r, case):
    if r.random() < .5:
        return (shape(r), case[1], r.randrange(12))
    return (case[0], desc(r, 2, .05), r.randrange(12))


def has(d, f):
    return f(d) or not isinstance(d, str) and any(has(x[2], f) for x in d[1])


def run(case, mon):
    shp, d, how = case
    try:
        dt = make(d)
    except ValueError:          # NumPy has no such dtype
        return
    spec = dt
    s = shp
    if how == 1:
        s = tuple(np.int64(n) if n < 2 ** 63 else n for n in shp)
    elif how == 2 and isinstance(d, str):
        spec = d
    elif how == 3 and not shp:
        s = ()
    elif how == 4 and isinstance(d, str) and dt.isnative and \
            dt == np.dtype(dt.type):
        spec = dt.type
    elif how == 5:
        s = list(shp)
    before = hash(dt)
    try:
        want = npref.model_of(dt)
    except npref.Unspecified:
        return
    except npref.Refused:
        mon.refused('refused', (TypeError, ValueError, NotImplementedError),
                    datashape.from_numpy, s, spec)
        if isinstance(d, str):
            mon.refused('refused', (TypeError, ValueError,
                                    NotImplementedError),
                        T.CType.from_numpy_dtype, dt)
        mon.seen(shp, d)
        return
    full = M.array(tuple(('fix', n) for n in shp), want)
    got = datashape.from_numpy(s, spec)
    mon.check('imported', M.of(got) == full, s, spec, 'gives', got,
              'expected', full)
    mon.check('imported', got == M.build(full), got)
    mon.check('imported', hash(dt) == before, dt)
    if isinstance(d, str):
        x = T.CType.from_numpy_dtype(dt)
        mon.check('imported', M.of(x) == want, dt, 'gives', x)
    # a round trip
    shape2, dt2 = datashape.to_numpy(got)
    mon.check('exported again', shape2 == tuple(int(n) for n in shp) and
              all(type(n) is int for n in shape2), shape2)
    bad = same(dt, dt2)
    mon.check('exported again', bad is None, dt, 'came back as', dt2, bad)
    if not isinstance(d, str):
        mon.count('nested', 1 if has(d, lambda x: not isinstance(x, str) and any(
            not isinstance(y[2], str) for y in x[1])) else 0)
        mon.count('sub-arrays', int(has(d, lambda x: not isinstance(
            x, str) and any(y[3] for y in x[1]))))
        mon.count('titles', int(has(d, lambda x: not isinstance(
            x, str) and any(y[1] for y in x[1]))))
    mon.count('big endian', int(has(d, lambda x: isinstance(x, str) and
                                    x[:1] == '>')))
    mon.seen(shp, d)


def same(a, b):
    """What differs, up to byte order, packing and the unit of datetimes."""
    if a.subdtype is not None:
        if b.subdtype is None or a.shape != b.shape:
            return 'sub-array %s' % (b,)
        return same(a.base, b.base)
    if b.subdtype is not None:
        return 'sub-array %s' % (b,)
    if a.names is not None:
        if a.names != b.names:
            return 'names %r' % (b.names,)
        for n in a.names:
            x = same(a.fields[n][0], b.fields[n][0])
            if x:
                return 'field %r: %s' % (n, x)
        return None
    if b.names is not None:
        return 'fields'
    if a.kind != b.kind or not b.isnative:
        return 'kind %s' % b
    if a.kind == 'M':
        u = np.datetime_data(a)[0]
        want = 'D' if u in npref.DATES else 'us'
        return None if b == np.dtype('M8[%s]' % want) else 'unit of %s' % b
    if a.itemsize != b.itemsize or a.kind == 'm' and \
            np.datetime_data(a) != np.datetime_data(b):
        return 'width or unit of %s' % b
    return None
