"""An independent account of how types correspond to NumPy dtypes."""
import numpy as np

from . import model as M


class Refused(Exception):
    """There is no counterpart."""


class Unspecified(Exception):
    """Left open by the properties."""


# ---------------------------------------------------------------- import

KINDS = {'b1': 'bool', 'i1': 'int8', 'i2': 'int16', 'i4': 'int32',
         'i8': 'int64', 'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32',
         'u8': 'uint64', 'f2': 'float16', 'f4': 'float32', 'f8': 'float64',
         'c8': 'complex[float32]', 'c16': 'complex[float64]', 'O8': 'object'}
DATES = ('D', 'W', 'M', 'Y')


def model_of(dt):
    """The model of a dtype."""
    if dt.subdtype is not None:
        base, shape = dt.subdtype
        return M.array(tuple(('fix', int(n)) for n in shape), model_of(base))
    if dt.names is not None:
        return ('rec', tuple((n, model_of(dt.fields[n][0]))
                             for n in dt.names))
    k = dt.kind
    if k == 'S':
        return ('string', dt.itemsize, 'A')
    if k == 'U':
        return ('string', dt.itemsize // 4, 'U32')
    if k == 'M':
        unit, n = np.datetime_data(dt)
        if n != 1:
            raise Unspecified
        return ('date',) if unit in DATES else ('datetime', None)
    if k == 'm':
        unit, n = np.datetime_data(dt)
        if n != 1 or unit not in ('ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W',
                                  'M', 'Y'):
            raise Refused
        return ('timedelta', unit)
    try:
        return ('ct', KINDS['%s%d' % (k, dt.itemsize)])
    except KeyError:
        if k == 'V' and dt.itemsize == 0:
            raise Unspecified
        raise Refused


# ---------------------------------------------------------------- export

CT = {v: k for k, v in KINDS.items()}
INTC = 2 ** 31 - 1


def integral(dt, precision):
    return dt.kind == 'i' and np.iinfo(dt).max >= 10 ** precision - 1


def check_dtype(m, dt):
    """What is wrong with dt as the dtype of the measure m, or None.

    Raises Refused if m has no dtype, whatever dt is."""
    k = m[0]
    if k == 'ct':
        if m[1] == 'void':
            return None if dt.kind == 'V' and dt.itemsize == 0 and \
                dt.names is None else 'void'
        if m[1] in ('char', 'quad'):
            raise Refused
        want = np.dtype(CT[m[1]].replace('O8', 'O'))
        return None if dt == want and dt.isnative else 'scalar type'
    if k == 'date':
        return None if dt == np.dtype('M8[D]') else 'date'
    if k == 'datetime':
        return None if dt == np.dtype('M8[us]') else 'datetime'
    if k == 'timedelta':
        return None if dt == np.dtype('m8[%s]' % m[1]) else 'timedelta'
    if k == 'string':
        if m[1] is None:
            return None if dt == np.dtype('O') else 'string'
        code, width = ('S', 1) if m[2] == 'A' else ('U', 4)
        if m[1] * width > INTC:
            raise Refused
        return None if dt is not None and dt.kind == code and \
            dt.itemsize == m[1] * width and dt.isnative else 'fixed string'
    if k == 'decimal':
        if m[2] == 0:
            if m[1] > 18:
                raise Refused
            return None if dt is not None and integral(dt, m[1]) else 'decimal'
        return None if dt is not None and dt.kind == 'f' and \
            dt.itemsize == 8 else 'decimal'
    if k == 'opt':
        if m[1][0] in ('date', 'datetime', 'timedelta'):
            return check_dtype(m[1], dt)
        if m[1][0] == 'own' and m[1][1] == 'Day':
            raise Unspecified
        raise Refused
    if k in ('rec', 'tup'):
        fields = m[1] if k == 'rec' else [('f%d' % i, x)
                                          for i, x in enumerate(m[1])]
        refused = 0
        for _, x in fields:
            try:
                expected_size(x)
            except Refused:
                refused = 1
        if refused:
            raise Refused
        measure_size(m)             # too large for NumPy
        if dt is None:
            return 'record'
        if dt.names is None or tuple(dt.names) != tuple(n for n, _ in fields):
            return 'field names %r' % (dt.names,)
        if dt.subdtype is not None:
            return 'sub-array'
        off = 0
        for n, x in fields:
            f, o = dt.fields[n][:2]
            if o != off:
                return 'offset of %r' % n
            off += f.itemsize
            bad = check_field(x, f)
            if bad:
                return 'field %r: %s' % (n, bad)
        return None if off == dt.itemsize else 'item size'
    if k == 'map':
        raise Unspecified
    if k == 'own':
        return None if dt == own_dtype(m) else 'own type'
    raise Refused


def own_dtype(m):
    from . import own
    try:
        return own.NUMPY[m[1]]
    except KeyError:
        raise Refused


def check_field(x, f):
    ds = M.dims(x)
    if ds:
        if any(d[0] != 'fix' for d in ds):
            raise Refused
        shape = tuple(d[1] for d in ds)
        if f is None:
            return 'none'
        if f.shape != shape:
            return 'shape %r' % (f.shape,)
        return check_dtype(M.measure(x), f.base)
    if f is not None and f.subdtype is not None:
        return 'sub-array'
    return check_dtype(x, f)


def has_integral(m):
    return any(y[0] == 'decimal' and y[2] == 0 for y in M.walk(m))


def expected_size(x):
    """The item size of a field; Refused if it has none."""
    n = 1
    for d in M.dims(x):
        if d[0] != 'fix':
            raise Refused
        n *= d[1]
        if d[1] > INTC:
            raise Refused
    m = M.measure(x)
    if M.dims(x) and (m == ('ct', 'void') or m[0] == 'string' and m[1] == 0):
        raise Unspecified
    s = measure_size(m)
    if n * s > INTC and has_integral(m):
        raise Unspecified       # depends on the integers chosen
    if n * s > INTC or len(M.dims(x)) > 32:
        raise Refused
    bound = max(s, 1)
    for d in M.dims(x):
        bound *= max(d[1], 1)
    if bound > INTC:                # empty, NumPy may refuse it or not
        raise Unspecified
    return n * s


def measure_size(m):
    k = m[0]
    if k == 'ct':
        if m[1] in ('char', 'quad'):
            raise Refused
        return 0 if m[1] == 'void' else int(CT[m[1]][1:])
    if k in ('date', 'datetime', 'timedelta'):
        return 8
    if k == 'string':
        if m[1] is None:
            return 8
        n = m[1] * (1 if m[2] == 'A' else 4)
        if n > INTC:
            raise Refused
        return n
    if k == 'decimal':
        if m[2] == 0:
            if m[1] > 18:
                raise Refused
            return 8            # at most
        return 8
    if k == 'opt':
        if m[1][0] in ('date', 'datetime', 'timedelta'):
            return 8
        if m[1][0] == 'own' and m[1][1] == 'Day':
            raise Unspecified
        raise Refused
    if k == 'own':
        return own_dtype(m).itemsize
    if k in ('rec', 'tup'):
        total, bad = 0, False
        for x in (t for _, t in m[1]) if k == 'rec' else m[1]:
            try:
                total += expected_size(x)
            except Refused:
                bad = True
        if not bad and total > INTC and has_integral(m):
            raise Unspecified       # depends on the integers chosen
        if bad or total > INTC:
            raise Refused
        return total
    if k == 'map':
        raise Unspecified
    raise Refused
