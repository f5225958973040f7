"""Random models, names and numbers."""
import itertools

from . import model as M
from . import words

IDENT1 = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
IDENT = IDENT1 + '0123456789'
PLAIN = ('a', 'b', 'c', 'x', 'y', 'z', 'id', 'name', 'amount', 'Foo', '_x',
         'f0', 'f1', 'value', 'x1', 'when', 'A', 'AB', '_')
KEYWORDISH = ('int32', 'var', 'string', 'True', 'False', 'Truely', 'Falsetto',
              'true', 'None', 'option', 'struct', 'tz', 'unit', 'type',
              'ellipsis', 'fixed', 'typevar', 'null', 'json', 'map', 'self',
              'class', 'key', 'ordered', 'True_', 'False0', 'dshape', 'bytes',
              'R', 'date', 'time')
SPICY = (' ', '  ', 'a b', ' a', 'a ', 'é', 'naïve', 'Ünï', '名前', '\u00a0',
         '\u2028', '\u200b', '\ufeff', '\U0001f600', "it's", '"q"', '\'"',
         '\\', 'a\\', '\\\\', '\\n', '\\u0041', 'C:\\x', '\n', '\t', 'a\nb',
         '\r', '\x00', '\x7f', '\x85', '\ud800', '\udfff', 'a,b', 'a:b',
         '{', '}', '[', ']', '(', ')', '*', '?', '...', '->', '#', 'a#b',
         '# x', '1', '1a', '-', 'a-b', 'a.b', '"""', "'''", '""', '%s', '{0}',
         'café', 'ß', 'İ', '\u0301', 'x' * 70, 'True\n', 'a\n', '$', '@',
         '\x0b', '\x1f', '\u2029', 'ﬁ', 'ª', 'µ', '½', '٣', 'a٣', 'é1', '_é')

# names that differ late, or in little
FAMILIES = (tuple('measurement_' + c for c in 'abcdefgh') +
            tuple('col%d' % i for i in (1, 2, 3, 9, 10, 11, 20, 100)) +
            ('ab', 'Ab', 'aB', 'AB', 'abc', 'ABC', 'abd', 'ab_', '_ab', 'ab1') +
            tuple('a_rather_long_field_name_number_%d' % i for i in range(9)) +
            ('x' * 30, 'x' * 31, 'x' * 29 + 'y'))

UNITS = ('ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y')
ENCODINGS = ('A', 'U8', 'U16', 'U32')
TZS = ('UTC', 'US/Eastern', 'America/New_York', 'Europe/Zürich', "O'Clock",
       'A"B', '', 'a\\b', 'tab\t', '\u2603')


def ident(r):
    n = r.choice((1, 1, 2, 3, 5, 9))
    return r.choice(IDENT1) + ''.join(r.choice(IDENT) for _ in range(n - 1))


def text(r, n=None):
    """A string of arbitrary code points."""
    if n is None:
        n = r.choice((0, 1, 1, 2, 3, 5, 8, 20))
    out = []
    for _ in range(n):
        k = r.random()
        if k < .5:
            out.append(chr(r.randrange(32, 127)))
        elif k < .65:
            out.append(r.choice('\\\'"\n\r\t\b\f\x00#,:[]{}()*?.->/_'))
        elif k < .8:
            out.append(chr(r.randrange(0x80, 0x250)))
        elif k < .95:
            out.append(chr(r.randrange(0, 0x10000)))
        else:
            out.append(chr(r.randrange(0x10000, 0x110000)))
    return ''.join(out)


def word(r):
    """A string from the dictionary."""
    if words.NEW_STRS and r.random() < .6:
        return r.choice(words.NEW_STRS)
    return r.choice(words.STRS)


def name(r, style='any'):
    """A field name, or other free text."""
    k = r.random()
    if words.NEW_STRS and k < .08:
        s = r.choice(words.NEW_STRS)
        return s if style == 'any' or s.isidentifier() else 'x'
    if style == 'plain':
        return r.choice(PLAIN) if k < .55 else r.choice(FAMILIES) \
            if k < .75 else ident(r)
    if k < .3:
        return r.choice(PLAIN)
    if k < .4:
        return r.choice(FAMILIES)
    if k < .5:
        return ident(r)
    if k < .65:
        return r.choice(KEYWORDISH)
    if k < .85:
        return r.choice(SPICY)
    if k < .9:
        return word(r)
    return text(r)


def upper(r):
    k = r.random()
    if k < .5:
        return r.choice('ABMNTXZ')
    if k < .6:
        return r.choice(('True_', 'Truth', 'FalseX', 'False1', 'TrueA', 'T1',
                         'Dim', 'N_', 'Type', 'Var', 'A0b'))
    return r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') + ''.join(
        r.choice(IDENT) for _ in range(r.choice((0, 1, 2, 5))))


EDGES = (0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 24, 30,
         31, 32, 33, 50, 60, 63, 64, 65, 79, 80, 81, 99, 100, 101, 127, 128,
         129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 4095, 4096,
         9999, 10000, 32767, 32768, 65535, 65536, 99999, 10 ** 5, 10 ** 6,
         2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53,
         2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1,
         10 ** 20, 10 ** 30)


def nat(r, small=False):
    """A number >= 0."""
    k = r.random()
    if words.NEW_INTS and k < .15:
        n = abs(r.choice(words.NEW_INTS)) + r.choice((-1, 0, 0, 0, 1))
        if n >= 0 and (not small or n <= 40):
            return n
    if small:
        return r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 7))
    if k < .55:
        return r.choice((0, 1, 2, 3, 4, 5, 6, 10))
    if k < .9:
        return r.choice(EDGES)
    if k < .95:
        return r.randrange(0, 300)
    return r.randrange(0, 10 ** r.choice((2, 4, 6, 9, 12, 19, 25)))


def dim(r, kinds=('fix', 'var', 'tv', 'ell'), small=False):
    k = r.choice(kinds) if r.random() > .45 or 'fix' not in kinds else 'fix'
    if k == 'fix':
        return ('fix', nat(r, small))
    if k == 'tv':
        return ('tv', upper(r))
    if k == 'ell':
        return ('ell', upper(r) if r.random() < .5 else None)
    return ('var',)


# The greatest size of the values made at present; 0: everyday ones
BIG = [0]
LADDER = (9, 11, 13, 16, 17, 20, 21, 26, 31, 33, 40, 41, 50, 51, 63, 65, 80,
          81, 99, 100, 101, 127, 129, 150, 200, 201, 255, 256, 257, 300, 400,
          500, 513, 600, 1000, 1001, 1025, 2049, 4097, 5000, 8193, 10001,
          16385, 32769, 65537, 100001)


def size(r, cap=None):
    """A size for a big value."""
    cap = min(cap or BIG[0], BIG[0])
    k = r.random()
    if words.NEW_INTS and k < .5:
        n = abs(r.choice(words.NEW_INTS)) + r.choice((0, 1, 1, 2, 5))
        if 2 <= n <= cap:
            return n
    if k < .85:
        return r.choice([n for n in LADDER if n <= cap])
    return r.randrange(8, cap + 1)


def big(r):
    """Is it time for a big one?"""
    return BIG[0] > 0 and r.random() < .75


def count(r, choices, most=24, grows=False):
    """How many of something: mostly one of the choices."""
    if grows and big(r):
        return size(r)
    k = r.random()
    if k > .97:
        return min(most, r.choice((5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20)))
    if k > .95 and words.NEW_INTS:
        n = abs(r.choice(words.NEW_INTS)) + r.choice((-1, 0, 0, 1, 1))
        if 0 <= n <= most:
            return n
    return r.choice(choices)


def dims(r, kinds=('fix', 'var', 'tv', 'ell'), most=4, least=1, small=False):
    n = r.choice((1, 1, 1, 2, 2, 3, 4, 6))
    if most >= 4 and not small and r.random() < .03:
        n = most = count(r, (5, 6, 7, 8, 9, 13, 16))
    n = max(least, min(n, most))
    out = []
    for _ in range(n):
        d = dim(r, kinds, small)
        if d[0] == 'ell' and any(x[0] == 'ell' for x in out):
            d = ('var',) if 'var' in kinds else ('fix', 2)
        out.append(d)
    return tuple(out)


SCALARS = ('ct', 'ct', 'ct', 'null', 'date', 'time', 'datetime', 'timedelta',
           'units', 'bytes', 'json', 'string', 'string', 'decimal', 'cat',
           'tv')
COMPOUND = ('opt', 'rec', 'rec', 'tup', 'fn', 'map')
ALL = SCALARS + COMPOUND


class Gen(object):
    """A generator of models."""

    def __init__(self, kinds=ALL, names='any', dims=('fix', 'var', 'tv', 'ell'),
                 small=False, nested_opt=True, ct=M.CT_NAMES, arrays=True,
                 inner_arrays=True, cats=('str', 'int', 'bool'), most_cats=4,
                 opt_arrays=True):
        self.kinds, self.names, self.dims = kinds, names, dims
        self.small, self.nested_opt, self.ct = small, nested_opt, ct
        self.arrays, self.inner_arrays = arrays, inner_arrays
        self.cats, self.most_cats = cats, most_cats
        self.opt_arrays = opt_arrays
        self.scalars = tuple(k for k in kinds if k in SCALARS)
        self.compound = tuple(k for k in kinds if k in COMPOUND)

    def name(self, r):
        return name(r, self.names)

    def scalar(self, r, k=None):
        k = k or r.choice(self.scalars)
        if k == 'ct':
            return ('ct', r.choice(self.ct))
        if k in ('null', 'date', 'bytes', 'json'):
            return (k,)
        if k in ('time', 'datetime'):
            q = r.random()
            return (k, None if q < .5 else r.choice(TZS) if q < .8
                    else self.name(r))
        if k == 'timedelta':
            return (k, r.choice(UNITS))
        if k == 'units':
            q = r.random()
            return (k, r.choice(('m', 'kg', 'm/s', 'second', '')) if q < .5
                    else self.name(r),
                    ('ct', 'float64') if r.random() < .4 else
                    self.any(r, 1) if r.random() < .3 else self.scalar(r))
        if k == 'string':
            return (k, None if r.random() < .5 else nat(r, self.small),
                    r.choice(ENCODINGS))
        if k == 'decimal':
            return (k, nat(r, True) if r.random() < .5
                    else r.randrange(0, 40), r.choice((0, 0, 1, 2, 5, 18)))
        if k == 'cat':
            n = r.choice((0, 1, 2, 2, 3, 3)) if self.most_cats <= 4 else \
                r.choice((r.randrange(0, 4), r.randrange(0, self.most_cats + 1),
                          self.most_cats))
            kind = r.choice(self.cats)
            cats = []
            for _ in range(n):
                c = (self.name(r) if kind == 'str' else
                     bool(r.getrandbits(1)) if kind == 'bool' else
                     r.choice((-1, 1)) * nat(r))
                cats.append(c)
            return (k, tuple(cats), r.random() < .25 and M.implied(cats) or
                    M.measure(self.scalar(r)), bool(r.getrandbits(1)))
        if k == 'tv':
            return (k, upper(r))
        raise ValueError(k)

    def measure(self, r, depth):
        if depth <= 0 or not self.compound or r.random() < .35:
            return self.scalar(r)
        k = r.choice(self.compound)
        d = depth - 1
        if k == 'opt':
            x = self.any(r, d) if self.opt_arrays else self.measure(r, d)
            if not self.nested_opt and x[0] == 'opt':
                x = x[1]
            while not self.nested_opt and M.measure(x)[0] == 'opt' and \
                    x[0] != 'ds':
                x = x[1]
            return ('opt', x)
        if k == 'rec':
            n = count(r, (0, 1, 1, 2, 2, 3, 3, 4, 6))
            names = []
            for _ in range(n):
                s = self.name(r)
                while s in names:
                    s = ident(r)
                names.append(s)
            return ('rec', tuple(zip(names, self.siblings(r, d, n))))
        if k == 'tup':
            return ('tup', self.siblings(
                r, d, count(r, (0, 1, 1, 2, 2, 3, 4))))
        if k == 'fn':
            xs = self.siblings(r, d, count(r, (0, 1, 1, 2, 3)) + 1)
            return ('fn', xs[1:], xs[0])
        return ('map',) + self.siblings(r, d, 2)

    def siblings(self, r, depth, n):
        """n types next to each other, sometimes alike."""
        if n > 4:
            depth = min(depth, 1)
        k = r.random()
        out = []
        for i in range(n):
            if i and k < .12 and (k < .06 or i < n - 1):
                out.append(out[0])
            elif i and k < .25 and r.random() < .5:
                x = r.choice(out)
                y = near(r, x, self) if k < .2 else x
                out.append(y if self.fits(y) else x)
            else:
                out.append(self.any(r, depth))
        return tuple(out)

    def fits(self, m):
        """Does m keep to what measure() makes?"""
        for x in M.walk(m):
            k = x[0]
            if k == 'ds':
                if not self.inner_arrays:
                    return False
            elif k not in self.kinds:
                return False
            elif k == 'opt':
                if x[1][0] == 'ds' and not self.opt_arrays or \
                        M.measure(x[1])[0] == 'opt' and not self.nested_opt:
                    return False
        return True

    def any(self, r, depth):
        m = self.measure(r, depth)
        if self.inner_arrays and r.random() < .35:
            return M.array(dims(r, self.dims, small=self.small), m)
        return m

    def big(self, r):
        """A type with a great many parts, mostly alike."""
        kinds = [k for k in ('rec', 'rec', 'rec', 'tup', 'tup', 'fn', 'cat')
                 if k in self.kinds]
        if self.arrays:
            kinds += ['dims', 'dims']
        if self.compound:
            kinds += ['deep', 'deep']
        if 'rec' in kinds or 'cat' in kinds or 'units' in self.kinds:
            kinds += ['long']
        if not kinds:
            return self.top(r, 3)
        k = r.choice(kinds)
        few = [self.any(r, 0) for _ in range(3)]

        def some(n):
            out = [r.choice(few) for _ in range(n)]
            for _ in range(r.choice((0, 1, 1, 2))):
                out[r.choice((n - 1, r.randrange(n)))] = self.any(r, 1)
            return tuple(out)

        if k == 'rec':
            n = size(r)
            names = ['%s%d' % (r.choice(('a', 'f', 'x_')), i)
                     for i in range(n)]
            if r.random() < .5:
                r.shuffle(names)
            for _ in range(r.choice((0, 1, 2))):
                s = self.name(r)
                if s not in names:
                    names[r.randrange(n)] = s
            m = ('rec', tuple(zip(names, some(n))))
        elif k == 'tup':
            m = ('tup', some(size(r)))
        elif k == 'fn':
            m = ('fn', some(size(r)), r.choice(few))
        elif k == 'cat':
            n = min(size(r), self.most_cats if self.most_cats <= 10
                    else 10 ** 6)
            kind = r.choice(self.cats)
            cats = ['c%d' % i if kind == 'str' else i * r.choice((1, 1, -1))
                    if kind == 'int' else bool(r.getrandbits(1))
                    for i in range(n)]
            if r.random() < .5:
                r.shuffle(cats)
            m = ('cat', tuple(cats), M.measure(self.scalar(r)),
                 bool(r.getrandbits(1)))
        elif k == 'long':
            s = r.choice(('a', 'b_', 'long name ', 'Ab', '\u00e9')) * size(r)
            s = s[:max(8, BIG[0])]
            if self.names == 'plain':
                s = 'a' + ''.join(c for c in s if c in IDENT)
            m = ('rec', ((s, few[0]), (s[:-1] or 'q', few[1]))) \
                if 'rec' in kinds else ('cat', (s, s[:-1]), few[0], False) \
                if 'cat' in kinds and 'str' in self.cats else \
                ('units', s, few[0]) if 'units' in self.kinds else few[0]
        elif k == 'deep':
            m = self.deep(r, size(r, r.choice((40, 40, 130))))
        else:
            ds = tuple(dim(r, [t for t in self.dims if t != 'ell'] or ['fix'],
                           True) for _ in range(size(r, 200)))
            m = M.array(ds, M.measure(few[0]))
        if m[0] not in ('ds', 'fn') and self.arrays and r.random() < .3:
            m = M.array(dims(r, self.dims, small=self.small), m)
        return m

    def top(self, r, depth=None):
        if depth is None:
            if big(r):
                return self.big(r)
            depth = r.choice((0, 1, 1, 2, 2, 3))
            if r.random() < .04:
                return self.deep(r)
        m = self.measure(r, depth)
        if self.arrays and r.random() < .6:
            return M.array(dims(r, self.dims, small=self.small), m)
        return m

    def deep(self, r, levels=None):
        """A type nested deeply, with little in every level."""
        if not self.compound:
            return self.top(r, 3)
        m = self.any(r, 0)
        kinds, pure = self.compound, False
        if levels and r.random() < .4:
            # all the levels of one or two kinds, and nothing beside them
            kinds, pure = r.sample(kinds, min(len(kinds), r.choice((1, 1, 2)))), True
            if m[0] != 'ds' and self.inner_arrays and r.random() < .6:
                m = M.array(dims(r, self.dims, small=self.small), m)
        for _ in range(levels or count(r, (4, 5, 6, 7, 9), 12)):
            k = r.choice(kinds)
            more = [] if pure else [
                self.any(r, 0) for _ in range(r.choice((0, 0, 1)))]
            if k == 'opt':
                m = ('opt', m) if self.fits(('opt', m)) else m
            elif k == 'rec':
                xs = [m] + more
                r.shuffle(xs)
                m = ('rec', tuple(zip(r.sample(PLAIN, len(xs)), xs)))
            elif k == 'tup':
                m = ('tup', tuple([m] + more))
            elif k == 'fn':
                m = ('fn', tuple(more), m) if r.random() < .5 else \
                    ('fn', tuple([m] + more), self.any(r, 0))
            else:
                m = ('map', m, self.any(r, 0)) if r.random() < .5 else \
                    ('map', self.any(r, 0), m)
            if m[0] != 'ds' and self.inner_arrays and not pure and \
                    r.random() < .2:
                m = M.array(dims(r, self.dims, small=self.small), m)
        if m[0] == 'ds' and not self.arrays:
            m = m[2]
        return m


# names that look, compare or normalise alike
ALIKE = (('\u00e9', 'e\u0301'), ('\u00c5', '\u212b', 'A\u030a'),
         ('\ufb01', 'fi'), ('\u00df', 'ss', 'SS', '\u1e9e'), ('a', 'A', '\uff41'),
         ('\u0131', 'i', 'I', '\u0130'), ('\u03c3', '\u03c2', '\u03a3'),
         ('1', '\u0661', '\uff11', '01', '1.0', ' 1', '\u00b9'),
         ('a', 'a ', ' a', 'a\t', 'a\u00a0', 'a\u200b', 'a\ufeff', 'a\0',
          'a\u00ad'), ('a b', 'a  b', 'a\u00a0b', 'a_b', 'a-b'),
         ('', ' ', '\0', '\u200b'), ('\u00b5', '\u03bc'), ('K', '\u212a'),
         ('a\nb', 'a\r\nb', 'a\rb', 'a\\nb'), ('\ud800', '\udc00', '\ufffd'),
         ('x', '"x"', "'x'", 'u"x"'), ('n' * 80, 'n' * 79, 'n' * 81))


def alike():
    i = ('ct', 'int8')
    for names in ALIKE:
        for x, y in itertools.combinations(names, 2):
            for f in (lambda s: ('rec', ((s, i),)),
                      lambda s: ('rec', (('q', i), (s, ('rec', ((s, i),))))),
                      lambda s: ('ds', (('fix', 3),), ('opt', (
                          'rec', ((s, i), ('q', i))))),
                      lambda s: ('cat', (s, 'q'), ('string', None, 'U8'), False),
                      lambda s: ('units', s, i), lambda s: ('time', s),
                      lambda s: ('datetime', s)):
                yield f(x), f(y)
            yield ('rec', ((x, i), (y, i))), ('rec', ((y, i), (x, i)))


def near(r, m, g):
    n = _near(r, m, g)
    if any(sum(d[0] == 'ell' for d in M.dims(x)) > 1 for x in M.walk(n)):
        return m
    return n


def other_int(r, n):
    """Another integer, at times with the same hash."""
    if r.random() < .6:
        return n + 1
    if n in (-1, -2):
        return -3 - n
    return n + r.choice((2 ** 61 - 1, 1 - 2 ** 61))


def _near(r, m, g):
    """A model that differs from m in one place (mostly)."""
    paths = list(M.paths(m))
    p = r.choice(paths)
    x = M.at(m, p)
    k = x[0]
    ops = ['new']
    if k == 'ds':
        ops += ['dim', 'dim', 'adddim', 'deldim', 'swapdim']
    if k == 'rec' and x[1]:
        ops += ['rename', 'delfield', 'addfield', 'swapfield']
    if k in ('rec', 'tup'):
        ops += ['addfield']
    if k == 'tup' and x[1]:
        ops += ['delfield', 'swapfield', 'dupfield']
    if k == 'fn':
        ops += ['delfield', 'swapfield', 'addfield']
    if k == 'map':
        ops += ['swapfield']
    if k == 'opt':
        ops += ['unopt']
    else:
        ops += ['opt']
    if k in ('time', 'datetime', 'timedelta', 'units', 'string', 'decimal',
             'cat', 'ct', 'tv'):
        ops += ['param', 'param', 'param']
    op = r.choice(ops)
    new = x
    if op == 'new':
        new = g.measure(r, 1)
        if p == () and k == 'ds':
            new = M.array(x[1], new)
    elif op == 'opt':
        new = ('opt', x)
    elif op == 'unopt':
        new = x[1]
    elif op == 'dim':
        i = r.randrange(len(x[1]))
        d = x[1][i]
        nd = ('fix', d[1] + 1 if g.small or r.random() < .8 else
              abs(other_int(r, d[1]))) if d[0] == 'fix' and \
            r.random() < .5 else \
            dim(r, [t for t in g.dims if t != 'ell'] or ['fix'], g.small)
        new = ('ds', x[1][:i] + (nd,) + x[1][i + 1:], x[2])
    elif op == 'adddim':
        i = r.randrange(len(x[1]) + 1)
        nd = dim(r, [t for t in g.dims if t != 'ell'] or ['fix'], g.small)
        new = ('ds', x[1][:i] + (nd,) + x[1][i:], x[2])
    elif op == 'deldim':
        i = r.randrange(len(x[1]))
        new = M.array(x[1][:i] + x[1][i + 1:], x[2])
    elif op == 'swapdim':
        d = list(x[1])
        r.shuffle(d)
        new = ('ds', tuple(d), x[2])
    elif op == 'rename':
        fs = list(x[1])
        i = r.randrange(len(fs))
        s = g.name(r)
        if s not in [n for n, _ in fs]:
            fs[i] = (s, fs[i][1])
        new = ('rec', tuple(fs))
    elif op == 'delfield':
        if k == 'fn':
            new = ('fn', x[1][:-1], x[2])
        else:
            i = r.randrange(len(x[1]))
            new = (k, x[1][:i] + x[1][i + 1:])
    elif op == 'addfield':
        t = g.measure(r, 0)
        if k == 'rec':
            s = g.name(r)
            if s not in [n for n, _ in x[1]]:
                i = r.randrange(len(x[1]) + 1)
                new = ('rec', x[1][:i] + ((s, t),) + x[1][i:])
        elif k == 'fn':
            new = ('fn', x[1] + (t,), x[2])
        else:
            i = r.randrange(len(x[1]) + 1)
            new = ('tup', x[1][:i] + (t,) + x[1][i:])
    elif op == 'dupfield':
        i = r.randrange(len(x[1]))
        new = ('tup', x[1][:i] + (x[1][i],) + x[1][i:])
    elif op == 'swapfield':
        if k == 'map':
            new = ('map', x[2], x[1])
        elif k == 'fn':
            kids = list(x[1] + (x[2],))
            r.shuffle(kids)
            new = M.rebuild(x, kids)
        else:
            fs = list(x[1])
            r.shuffle(fs)
            new = (k, tuple(fs))
    elif op == 'param':
        new = g.scalar(r, k)
        if k == 'string' and r.random() < .5:
            new = ('string', x[1], r.choice(ENCODINGS))
        if k == 'cat' and r.random() < .7:
            i = r.randrange(5)
            if i == 0:
                new = x[:1] + (x[1][::-1],) + x[2:]
            elif i >= 3 and x[1]:
                cs = list(x[1])
                j = len(cs) - 1 if i == 3 else r.randrange(len(cs))
                c = cs[j]
                c = (not c if isinstance(c, bool) else other_int(r, c)
                     if isinstance(c, int) else r.choice((c + '_', g.name(r))))
                if r.random() < .8:
                    cs[j] = c
                elif r.random() < .5 or len(cs) >= max(4, g.most_cats):
                    del cs[j]
                else:
                    cs.append(c)
                new = x[:1] + (tuple(cs),) + x[2:]
            elif i == 1:
                new = x[:3] + (not x[3],)
            elif i == 2:
                new = x[:2] + (M.measure(g.scalar(r)),) + x[3:]
        if k == 'units' and r.random() < .5:
            new = ('units', x[1], g.scalar(r))
        if k == 'decimal' and r.random() < .5:
            new = ('decimal', x[1], x[2] + 1)
    return M.replace(m, p, new)
