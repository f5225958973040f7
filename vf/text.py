"""Spelling models in the published grammar."""
import random

from . import gen as G
from . import model as M

IDENT1 = set(G.IDENT1)
IDENT = set(G.IDENT)
SPACES = (' ', ' ', ' ', '  ', '\n', '\t', '\r\n', '\r', '\x0b', '\x0c',
          '\u00a0', '\u2003', '\u2028', '\u3000', '\x85', '\x1c', '\n\n')
COMMENTS = ('', ' x', ' comment, [with] {things} "in', "it's", '#', ' 3 * int',
            '\u00e9\U0001f600', ' \\', '\r', '\u2028 int32', ' -> ...', '\x00')

ENC_ALIASES = {'A': ('A', 'ascii'), 'U8': ('U8', 'utf-8', 'utf_8', 'utf8'),
               'U16': ('U16', 'utf-16', 'utf_16', 'utf16'),
               'U32': ('U32', 'utf-32', 'utf_32', 'utf32')}
UNIT_ALIASES = {'Y': ('Y', 'year', 'years'), 'W': ('W', 'week', 'weeks'),
                'D': ('D', 'day', 'days', 'date', 'dates'),
                'h': ('h', 'hour', 'hours'), 'm': ('m',), 'M': ('M',),
                's': ('s', 'second', 'seconds'),
                'ms': ('ms', 'millisecond', 'milliseconds'),
                'us': ('us', 'microsecond', 'microseconds'),
                'ns': ('ns', 'nanosecond', 'nanoseconds')}
CT_ALIASES = {'int32': ('int32', 'int'), 'int64': ('int64', 'intptr'),
              'uint64': ('uint64', 'uintptr'), 'float64': ('float64', 'real'),
              'complex[float64]': ('complex128', 'complex',
                                   'complex[float64]', 'complex[real]'),
              'complex[float32]': ('complex64', 'complex[float32]')}


def bare(s):
    """Can the name stand without quotes?"""
    return (bool(s) and s[0] in IDENT1 and all(c in IDENT for c in s) and
            s not in ('True', 'False'))


_ESC = {'\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't'}


def literal(s, r=None):
    """A string literal of the grammar for s; with r, in any spelling."""
    q = '"' if r is None else r.choice('"\'')
    out = [q]
    for c in s:
        n = ord(c)
        opts = []
        if c not in '\n\r\\' and c != q:
            opts.append(c)
        if c == q:
            opts.append('\\' + q)
        if c in _ESC:
            opts.append('\\' + _ESC[c])
        if n < 0x10000:
            h = '%04x' % n
            if r is not None and r.random() < .5:
                h = h.upper()
            opts.append('\\u' + h)
        out.append(opts[0] if r is None else
                   opts[0] if r.random() < .7 else r.choice(opts))
    return ''.join(out) + q


class Style(object):
    """Spells with a source of randomness; plain if it is None."""

    def __init__(self, r=None):
        self.r = r

    def one(self, *opts):
        return opts[0] if self.r is None else self.r.choice(opts)

    def maybe(self, p=.5):
        return self.r is not None and self.r.random() < p

    def lit(self, s):
        return [literal(s, self.r)]

    def name(self, s):
        if bare(s) and not self.maybe(.3):
            return [s]
        return self.lit(s)

    def dim(self, d):
        k = d[0]
        if k == 'fix':
            return [str(d[1])]
        if k == 'var':
            return ['var']
        if k == 'tv':
            return [d[1]]
        if d[1] is None:
            return [self.one('...', '...', '...', 'ellipsis')]
        return [d[1], '...']

    def commas(self, items, trailing=False):
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(',')
            out += x
        if trailing and items and self.maybe(.2):
            out.append(',')
        return out

    def list(self, items):
        return ['['] + self.commas(items) + [']']

    def args(self, pos, named=(), byname=()):
        """A constructor's arguments; `named` may be positional or by name,
        `byname` by name only."""
        named = list(named)
        out = list(pos)
        n = 0
        if named:
            n = 0 if self.r is None else self.r.randrange(len(named) + 1)
        # the first n of the named ones by position
        for name, x in named[:n]:
            out.append(x)
        rest = named[n:] + list(byname)
        if self.r is not None:
            self.r.shuffle(rest)
        out += [[name, '='] + x for name, x in rest]
        return ['['] + self.commas(out) + [']']

    def toks(self, m):
        """The tokens of one spelling of m, as a list of strings."""
        k = m[0]
        if k == 'ds':
            out = []
            for d in m[1]:
                out += self.dim(d) + ['*']
            return out + self.toks(m[2])
        if k == 'ct':
            s = self.one(*CT_ALIASES.get(m[1], (m[1],)))
            if '[' in s:
                return [s[:7], '[', s[8:-1], ']']
            return [s]
        if k in ('null', 'date', 'bytes', 'json'):
            return [k]
        if k in ('time', 'datetime'):
            if m[1] is None:
                return [k]
            return [k] + self.args([], [('tz', self.lit(m[1]))])
        if k == 'timedelta':
            if m[1] == 'us' and self.maybe():
                return [k]
            u = self.one(*UNIT_ALIASES[m[1]])
            return [k] + self.args([], [('unit', self.lit(u))])
        if k == 'units':
            named = [('unit', self.lit(m[1]))]
            if m[2] != ('ct', 'float64') or self.maybe(.3):
                named.append(('tp', self.toks(m[2])))
            return [k] + self.args([], named)
        if k == 'string':
            args = []
            if m[1] is not None:
                args.append([str(m[1])])
            if m[2] != 'U8' or self.maybe(.3):
                args.append(self.lit(self.one(*ENC_ALIASES[m[2]])))
            return [k] + (['['] + self.commas(args) + [']'] if args else [])
        if k == 'decimal':
            named = [('precision', [str(m[1])])]
            if m[2] or self.maybe(.4):
                named.append(('scale', [str(m[2])]))
            return [k] + self.args([], named)
        if k == 'cat':
            cats = [self.lit(c) if isinstance(c, str) else [str(c)]
                    for c in m[1]]
            named = [('categories', self.list(cats))]
            # the type may be left to the categories; its dimensions go
            if self.r is None or m[2] != M.implied(m[1]) or self.maybe(.7):
                named.append(('type', (
                    ['3', '*'] if self.maybe(.1) else []) + self.toks(m[2])))
            order = [('ordered', [str(m[3])])] if m[3] or self.maybe(.5) \
                else []
            if len(named) == 1:
                return ['categorical'] + self.args([], named, order)
            return ['categorical'] + self.args([], named + order)
        if k == 'opt':
            inner = self.toks(m[1])
            if m[1][0] != 'opt' and not self.maybe(.25) and inner[0] != '?':
                return ['?'] + inner
            return ['option', '['] + inner + [']']
        if k == 'rec':
            if self.maybe(.15):
                return ['struct', '['] + self.commas([
                    self.list([self.lit(n) for n, _ in m[1]]),
                    self.list([self.toks(x) for _, x in m[1]])]) + [']']
            return ['{'] + self.commas([self.name(n) + [':'] + self.toks(x)
                                        for n, x in m[1]], True) + ['}']
        if k == 'tup':
            items = [self.toks(x) for x in m[1]]
            if self.maybe(.15):
                return ['tuple', '['] + self.list(items) + [']']
            return ['('] + self.commas(items, True) + [')']
        if k == 'fn':
            items = [self.toks(x) for x in m[1]]
            if self.maybe(.15):
                return ['funcproto', '['] + self.commas(
                    [self.list(items), self.toks(m[2])]) + [']']
            return ['('] + self.commas(items, True) + [')', '->'] + \
                self.toks(m[2])
        if k == 'map':
            return ['map'] + self.args([], [('key', self.toks(m[1])),
                                            ('value', self.toks(m[2]))])
        if k == 'tv':
            return [m[1]]
        if k == 'own':
            args = [self.toks(x) for x in m[2:]] if M.children(m) else [
                self.lit(x) if isinstance(x, str) else [str(x)]
                for x in m[2:]]
            return [m[1].lower()] + (
                ['['] + self.commas(args) + [']'] if args else [])
        raise ValueError(m)


def gap(r):
    k = r.random()
    if k < .55:
        return ''
    if k < .8:
        return ' '
    if k < .95:
        return ''.join(r.choice(SPACES) for _ in range(r.choice((1, 1, 2, 4))))
    return ''.join('#' + r.choice(COMMENTS) + '\n' + r.choice(('', ' '))
                   for _ in range(r.choice((1, 1, 2))))


def wordy(c):
    return c in IDENT


def join(tokens, r=None):
    """The text of a token sequence, with its (start, end) spans."""
    out, spans, pos = [], [], 0

    def add(s):
        nonlocal pos
        out.append(s)
        pos += len(s)

    prev = ''
    if r is not None:
        add(gap(r))
    for i, t in enumerate(tokens):
        if i:
            if r is None:
                g = '' if t in ',]}):' or prev in '[{(?' else ' '
            else:
                g = gap(r)
            if not g and prev and (wordy(prev[-1]) or prev[-1] == '-') and \
                    (wordy(t[0]) or t[0] == '-'):
                g = ' '
            if not g and prev == '-' or not g and prev.endswith('.') and \
                    t.startswith('.'):
                g = ' '
            if not g and prev[-1:] == '-' and t[:1] == '>':
                g = ' '
            add(g)
        spans.append((pos, pos + len(t)))
        add(t)
        prev = t
    if r is not None:
        add(gap(r))
        if r.random() < .05:
            add('#' + r.choice(COMMENTS))
    return ''.join(out), spans


def canonical(m):
    return join(Style().toks(m))[0]


def spell(m, r):
    return join(Style(r).toks(m), r)[0]
