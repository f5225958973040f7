"""Building the same type along randomly chosen routes."""
from collections import OrderedDict

import numpy as np

import datashape
from datashape import coretypes as T

from . import data
from . import model as M
from . import text

ENC = text.ENC_ALIASES
UNIT = text.UNIT_ALIASES


class Builder(object):
    """Builds a model by random routes.

    `flaws` maps a path to a value put there instead of the type, or to
    ('dims', list): the dimensions (objects, numbers) of the array there, or to
    ('names', list): the names of the record there.
    """

    def __init__(self, r, flaws=None, texts=True):
        self.r = r
        self.flaws = flaws or {}
        self.texts = texts and not self.flaws

    def p(self, x):
        return self.r.random() < x

    def dim(self, d):
        r = self.r
        if d[0] == 'fix':
            k = r.randrange(4)
            if k == 0 and d[1] < 2 ** 31:
                return T.Fixed(np.int64(d[1]))
            if self.p(.05):
                n = data.dressed(d[1], r, 1)
                return n if self.p(.5) else T.Fixed(n)
            return d[1] if k < 3 else T.Fixed(d[1])
        if d[0] == 'var':
            return datashape.var if self.p(.5) else T.Var()
        if d[0] == 'ell':
            return T.Ellipsis() if d[1] is None else \
                T.Ellipsis(T.TypeVar(d[1]))
        return T.TypeVar(d[1])

    def text(self, m):
        s = text.spell(m, self.r) if self.p(.5) else text.canonical(m)
        return data.dressed(s, self.r, .1)

    def part(self, m, path):
        """Where a type, its text or its datashape is accepted."""
        f = self.flaws.get(path)
        if f is not None and not (type(f) is tuple and f[:1] in (
                ('dims',), ('names',))):
            return f
        if self.texts and self.p(.25):
            return self.text(m)
        return self.any(m, path)

    def wrapped(self, m, path):
        """Where only a datashape object is accepted."""
        x = self.any(m, path)
        if type(x) is not T.DataShape and isinstance(x, T.Mono) and \
                getattr(x, 'cls', 2) == 2:
            x = T.DataShape(x)
        return x

    def any(self, m, path=()):
        """A type object (bare, or its datashape) for m."""
        f = self.flaws.get(path)
        r = self.r
        if f is not None and not (type(f) is tuple and f[:1] in (
                ('dims',), ('names',))):
            return f
        if self.texts and self.p(.15):
            x = datashape.dshape(self.text(m))
            return x if m[0] == 'ds' or self.p(.5) else x[0]
        if m[0] == 'ds' or f is not None and f[0] == 'dims':
            return self.array(m, path, f)
        x = self.measure(m, path)
        k = r.randrange(6)
        if k == 0:
            return T.DataShape(x)
        if k == 1:
            return datashape.dshape(x)
        if k == 2:
            return datashape.dshape([x])
        if k == 3:
            return T.DataShape(T.DataShape(x))
        return x

    def array(self, m, path, f):
        r = self.r
        if f is not None and f[0] == 'dims':
            ds = list(f[1])
        else:
            ds = [self.dim(d) for d in m[1]]
        if m[0] == 'ds':
            x = self.part(m[2], path + (0,))
        else:
            x = self.measure(m, path)
        k = r.randrange(6)
        if k == 0:
            return T.DataShape(*(ds + [x]))
        if k == 1:
            return datashape.dshape(data.dressed(ds + [x], r, .2, ()))
        if k == 2:
            return datashape.dshape(data.dressed(tuple(ds + [x]), r, .2, ()))
        if k == 3:
            # in two steps
            n = r.randrange(len(ds) + 1)
            if n == len(ds):
                return T.DataShape(*(ds + [x]))
            inner = T.DataShape(*(ds[n:] + [x]))
            return datashape.dshape(ds[:n] + [inner]) if n else inner
        # products, from the right
        for i, d in enumerate(reversed(ds)):
            if isinstance(x, str) and not isinstance(d, T.Mono):
                d = T.Fixed(d)
            if isinstance(d, np.integer) and not isinstance(x, str):
                d = int(d)      # NumPy would try to iterate over the type
            x = d * x
        return x

    def measure(self, m, path):
        """The bare measure object."""
        r = self.r
        k = m[0]
        f = self.flaws.get(path)
        if k in ('ct', 'null', 'date', 'bytes', 'json', 'tv') or \
                k == 'own' and not M.children(m):
            return M.build(m)
        if k in ('time', 'datetime'):
            c = T.Time if k == 'time' else T.DateTime
            if m[1] is None and self.p(.5):
                return c()
            return c(m[1]) if self.p(.5) else c(tz=m[1])
        if k == 'timedelta':
            u = r.choice(UNIT[m[1]])
            if m[1] == 'us' and self.p(.3):
                return T.TimeDelta()
            return T.TimeDelta(u) if self.p(.5) else T.TimeDelta(unit=u)
        if k == 'units':
            if m[2] == ('ct', 'float64') and self.p(.5) and \
                    path + (0,) not in self.flaws:
                return T.Units(m[1])
            x = self.wrapped(m[2], path + (0,))
            return T.Units(m[1], x) if self.p(.5) else T.Units(m[1], tp=x)
        if k == 'string':
            e = r.choice(ENC[m[2]])
            if m[1] is None:
                if m[2] == 'U8' and self.p(.5):
                    return T.String()
                return T.String(e) if self.p(.5) else T.String(None, e)
            if m[2] == 'U8' and self.p(.5):
                return T.String(m[1])
            return T.String(m[1], e)
        if k == 'decimal':
            if m[2] == 0 and self.p(.5):
                return T.Decimal(m[1])
            return T.Decimal(m[1], m[2]) if self.p(.5) else \
                T.Decimal(scale=m[2], precision=m[1])
        if k == 'cat':
            cats = list(m[1]) if self.p(.5) else tuple(m[1])
            cats = data.dressed(cats, r, .1, ())
            if m[2] == M.implied(m[1]) and self.p(.4) and \
                    not self.flaws:
                return T.Categorical(list(m[1]), ordered=m[3])
            x = self.any(m[2], path + (0,))
            if self.p(.15) and isinstance(x, T.Mono) and \
                    not self.flaws:
                x = T.DataShape(*[T.Fixed(3), T.var][:r.randrange(3)] + [x])
            return T.Categorical(cats, x, m[3]) if self.p(.5) else \
                T.Categorical(categories=cats, ordered=m[3], type=x)
        if k == 'opt':
            return T.Option(self.part(m[1], path + (0,)))
        if k == 'rec':
            names = [n for n, _ in m[1]]
            if f is not None and f[0] == 'names':
                names = f[1]
            fs = [(n, self.part(x, path + (i,)))
                  for i, (n, (_, x)) in enumerate(zip(names, m[1]))]
            q = r.randrange(7)
            if q == 0:
                return T.Record(fs)
            if q == 1:
                return T.Record(tuple(fs))
            if q == 6:      # derived classes
                if self.p(.5) and len(set(names)) == len(names):
                    fs = OrderedDict(fs)
                return T.Record(data.dressed(fs, r, 1, ()))
            if q == 2:
                return T.Record([list(p) for p in fs])
            if q == 3 and len(set(names)) == len(names):
                return T.Record(OrderedDict(fs))
            if q == 4 and fs and not any(x is None for _, x in fs):
                return T.R[tuple(slice(n, x) for n, x in fs)]
            return T.Record(p for p in fs)
        if k == 'tup':
            xs = [self.any(x, path + (i,)) for i, x in enumerate(m[1])]
            xs = xs if self.p(.5) else tuple(xs)
            return T.Tuple(data.dressed(xs, r, .2, ()))
        if k == 'fn':
            return T.Function(*[self.any(x, path + (i,)) for i, x in
                                enumerate(m[1] + (m[2],))])
        if k == 'map':
            a = self.part(m[1], path + (0,))
            b = self.part(m[2], path + (1,))
            return T.Map(a, b) if self.p(.5) else T.Map(value=b, key=a)
        if k == 'own':
            from . import own
            return own.CLASSES[m[1]](*[
                self.any(x, path + (i,)) for i, x in enumerate(m[2:])])
        raise ValueError(m)
