"""C16: scalars and scalar text are classified by what they hold."""
import datetime as dt
import re

from dateutil.parser import parse as dateparse

import datashape
from datashape import coretypes as T

from vf import gen as G, model as M, words

RULE = ('texts composed of number, word, unit, clock time and date pieces, '
        'near misses of these, dictionary words and random Unicode; Python '
        'scalars of every supported type.  Non-trivial: distinct texts and '
        'values.')
COUNT = {'quick': 240000, 'thorough': 4000000}
REQUIRED = ('null', 'int64', 'float64', 'bool', 'timedelta', 'time', 'date',
            'datetime', 'string', 'scalar', 'overflowing', 'unit names')

UNITS = {'ns': 'ns', 'us': 'us', 'ms': 'ms', 's': 's', 'm': 'm', 'h': 'h',
         'D': 'D', 'W': 'W', 'M': 'M', 'Y': 'Y', 'year': 'Y', 'week': 'W',
         'day': 'D', 'date': 'D', 'hour': 'h', 'second': 's',
         'millisecond': 'ms', 'microsecond': 'us', 'nanosecond': 'ns'}
LONG = [u for u in UNITS if len(u) > 2]
STRING = ('string', None, 'U8')


def unit(s):
    """The unit a word names; None if none; Unspecified as ''."""
    if s in UNITS:
        return UNITS[s]
    if s.endswith('s') and s[:-1] in LONG:
        return UNITS[s[:-1]]
    if s.endswith('ss'):
        return ''               # plural of a plural
    return None


def whole(s):
    """The whole number within the range of NumPy's time deltas, or None."""
    try:
        f = float(s)
    except ValueError:
        return None
    if f != f or f in (float('inf'), float('-inf')) or f != int(f):
        return None
    n = int(f)
    return n if -2 ** 63 <= n < 2 ** 63 else None


def classify(s):
    """(kind, model) of a text; model None if unspecified."""
    if s == '':
        return 'null', ('null',)
    try:
        int(s)
        return 'int64', ('ct', 'int64')
    except ValueError:
        pass
    try:
        float(s)
        return 'float64', ('ct', 'float64')
    except ValueError:
        pass
    if s in ('True', 'true', 'False', 'false'):
        return 'bool', ('ct', 'bool')
    parts = s.split()
    if len(parts) == 2:
        u = unit(parts[1])
        if u == '':
            return 'unspecified', None
        if u and whole(parts[0]) is not None:
            return 'timedelta', ('timedelta', u)
    for f in ('%H:%M:%S', '%H:%M:%S.%f'):
        try:
            dt.datetime.strptime(s, f)
            return 'time', ('time', None)
        except ValueError:
            pass
    if s.isalpha() or s.isspace():
        return 'string', STRING
    try:
        d = dateparse(s)
    except Exception:
        return 'string', STRING
    if d.hour or d.minute or d.second or d.microsecond:
        return 'datetime', ('datetime', None)
    return 'date', ('date',)


DIGITS = '0123456789'
MONTHS = ('Jan', 'Feb', 'March', 'apr', 'May', 'June', 'jul', 'August', 'Sep',
          'Oct', 'nov', 'December')
WORDS = ('True', 'False', 'true', 'false', 'TRUE', 'FALSE', 'True ', ' False',
         'nan', 'NaN', 'inf', '-inf', 'Infinity', 'infinity', 'infinit', 'None',
         'null', 'NULL', 'NA', 'N/A', '', ' ', '\t', '\n', '  \n ', 'a', 'am',
         'pm', 'AM', 'UTC', 'Z', 'T', 'sunday', 'Monday', 'mon', 'May', 'today',
         'now', 'yesterday', 'x', 'year', 'days', 'hello world', 'Alice', 'e',
         'E', 'j', '1j', 'J', '0x10', '0b1', '1e5', '1E5', '1e', 'e5', '1_000',
         '1__0', '_1', '1_', '--1', '+-1', '+', '-', '.', '5.', '.5', '+.5e-3',
         '٣', '١٢٣', '½', '²', '３', '\u00a01', '1\u00a0', '1\x00', '\x00',
         '1,000', '1.5.2', '10%', '$5', '1/2', '(1)', '[1]', '{}', '"1"',
         "it's", 'naïve', 'ß', '日本', '\U0001f600', '\ud800', 'İ', '00', '-0',
         '007', '1 2 3', '1 2', 'T1', 'inf day', 'nan day', 'inf days', '1e400',
         '-1e400', '1e400 days', '9223372036854775808 s', '1e18 s', '1e19 s',
         '-9223372036854775808 ns', '-9223372036854775809 ns', '1e300 h',
         '10000000000000000000000', 'True days', '1 ', ' 1', '\n1\n', '1\n2')


def number(r):
    k = r.random()
    if k < .4:
        s = str(G.nat(r))
    elif k < .5:
        s = ''.join(r.choice(DIGITS) for _ in range(r.choice((1, 2, 4, 8, 20))))
    elif k < .7:
        s = '%s.%s' % (r.randrange(100), r.choice(('0', '00', '5', '', '25')))
    elif k < .8:
        s = '%s%s%s' % (r.choice(('1', '12', '1.5', '.5', '100', '2.')), r.choice('eE'),
                        r.choice(('5', '+5', '-5', '18', '19', '300', '400', '')))
    elif k < .9:
        s = r.choice(('inf', 'nan', '1_000', '1_0.5', '٣', '-', '', '1,0',
                      '0x1', 'infinity', '½', '1e1_0'))
    else:
        s = str(r.random() * 10 ** r.choice((-5, 0, 3, 17)))
    return r.choice(('', '', '', '-', '+', '--')) + s


def space(r, some=True):
    k = r.random()
    if k < .7:
        return ' ' if some else ''
    return r.choice(('', '  ', '\t', '\n', '\u00a0', '\u2003', '\x1f', '\x0b',
                     '\u200b', ' \t'))


def delta(r):
    u = r.choice(list(UNITS))
    k = r.random()
    if k < .35:
        u += 's'
    elif k < .4:
        u += 'ss'
    elif k < .47:
        u = u.upper() if r.random() < .5 else u.capitalize()
    elif k < .54:
        i = r.randrange(len(u) + 1)
        u = u[:i] + r.choice('sSdymh.1 ') + u[i:]
    elif k < .57:
        u = r.choice(('minute', 'minutes', 'month', 'months', 'sec', 'min',
                      'hr', 'ps', 'd', 'y', 'w', '', 'seconds ago', 'decade'))
    k = r.random()
    s = number(r) + (space(r) or ' ') + u
    if k < .2:
        s = space(r, False) + s + space(r, False)
    elif k < .25:
        s += space(r) + delta(r)
    return s


def clock(r):
    def two(m):
        k = r.random()
        n = r.randrange(m) if k < .85 else r.choice((m, m - 1, 0, 99, m + 1))
        return ('%02d' if r.random() < .8 else '%d') % n
    s = two(24) + ':' + two(60)
    if r.random() < .85:
        s += ':' + two(60)
        if r.random() < .35:
            s += r.choice('..,') + ''.join(r.choice(DIGITS) for _ in range(
                r.choice((0, 1, 3, 6, 6, 7, 9))))
    return s + r.choice(('',) * 8 + (' am', ' PM', 'Z', '+00:00', ' UTC',
                                     '-0500', ' ', ' EST', ' x'))


def day(r):
    y = r.choice((2014, 1999, 2000, 1, 9999, 1970, 2038, r.randrange(1, 10000),
                  99, 0, 10000))
    m, d = r.randrange(1, 13), r.randrange(1, 32)
    if r.random() < .1:
        m, d = r.choice((0, 13, 2, 99)), r.choice((0, 29, 30, 31, 32, 99))
    k = r.randrange(10)
    if k < 4:
        return '%04d-%02d-%02d' % (y, m, d)
    if k == 4:
        return '%d/%d/%d' % (m, d, y)
    if k == 5:
        return '%04d%02d%02d' % (y, m, d)
    if k == 6:
        return '%s %d, %d' % (r.choice(MONTHS), d, y)
    if k == 7:
        return '%d %s %d' % (d, r.choice(MONTHS), y)
    if k == 8:
        return '%s %d' % (r.choice(MONTHS), y)
    return '%s %d %s' % (r.choice(('Mon,', 'Tuesday', 'sun', 'Sat')), d,
                         r.choice(MONTHS))


def long(r):
    """A long text of every class."""
    n = G.size(r)
    k = r.randrange(9)
    if k == 0:
        return '%s' % ('1' * min(n, 4000))
    if k == 1:
        return '0' * min(n, 4000) + r.choice(('1', '.5', '1e5', ' days'))
    if k == 2:
        return '1.%s' % ('0' * (n - 1) + r.choice('01'))
    if k == 3:
        return r.choice((' ', '\t', '\n')) * n + r.choice(
            ('1', '1.5', 'nan', '3 days', 'True', 'x'))
    if k == 4:
        return r.choice(('1', '1.5', '3 days', 'x')) + ' ' * n
    if k == 5:
        return r.choice(('3', '0.5')) + ' ' * n + r.choice(list(UNITS))
    if k == 6:
        return '3 ' + r.choice(list(UNITS)) + 's' * r.choice((1, n))
    if k == 7:
        return r.choice('abZ ') * n
    return 'word ' * (n // 5)


def txt(r):
    if G.big(r):
        return long(r)
    k = r.random()
    if k < .1:
        s = r.choice(WORDS)
    elif k < .22:
        s = number(r)
    elif k < .42:
        s = delta(r)
    elif k < .54:
        s = clock(r)
    elif k < .64:
        s = day(r)
    elif k < .76:
        s = day(r) + r.choice((' ', 'T', ', ', ' at ', '  ', '')) + r.choice((
            clock(r), '00:00:00', '00:00', '0:00:00.000000',
            '00:00:00.000001', '12:00', '12 am', '00:00:00Z'))
    elif k < .84:
        s = G.word(r)
    elif k < .92:
        s = G.name(r)
    else:
        s = ' '.join(r.choice((number, clock, day, G.name))(r)
                     for _ in range(r.choice((1, 2, 2, 3))))
    return edit(r, s) if r.random() < .15 else s


def edit(r, s):
    i = r.randrange(len(s) + 1)
    c = r.choice(('a', '1', ' ', ':', '-', '.', 's', '\u00e9', '', '/', 'T', '+',
                  '\n', '0', '9', ',', '٣', '\x00', 'e', '_'))
    return s[:i] + c + s[i + r.choice((0, 0, 1)):]


VALUES = {
    'bool': ('ct', 'bool'), 'int': ('ct', 'int64'), 'float': ('ct', 'float64'),
    'complex': ('ct', 'complex[float64]'), 'bytes': ('string', None, 'A'),
    'date': ('date',), 'time': ('time', None), 'datetime': ('datetime', None),
    'timedelta': ('timedelta', 'us'), 'none': ('null',), 'null': ('null',)}


class Utc(dt.tzinfo):
    def utcoffset(self, d):
        return dt.timedelta(0)

    dst = utcoffset


def value(kind, x):
    if kind in ('bool', 'int', 'bytes', 'float', 'complex'):
        return {'float': float, 'complex': complex}.get(kind, lambda x: x)(x)
    if kind == 'date':
        return dt.date(*x)
    if kind == 'time':
        return dt.time(*x, tzinfo=Utc() if x[3] % 2 else None)
    if kind == 'datetime':
        return dt.datetime(*x, tzinfo=Utc() if x[5] % 2 else None)
    if kind == 'timedelta':
        return dt.timedelta(*x)
    return None if kind == 'none' else T.Null() if x else datashape.null


class Int(int):
    pass


class Str(str):
    pass


class Float(float):
    pass


class Date(dt.date):
    pass


SUB = {'int': Int, 'float': Float}


def val(r):
    kind = r.choice(sorted(VALUES))
    x = {'bool': lambda: bool(r.getrandbits(1)),
         'int': lambda: r.choice((1, -1)) * min(G.nat(r), 2 ** 63 - 1),
         'float': lambda: r.choice(('nan', 'inf', '-inf', '0', '-0', '1e300',
                                    '5e-324', '1.5', '3', '1e18')),
         'complex': lambda: r.choice(('1j', '0j', '1+2j', 'nanj', '3')),
         'bytes': lambda: r.choice((b'', b'1', b'True', b'\xff', b'abc',
                                    b'2014-01-01', b'1 day')),
         'date': lambda: (r.randrange(1, 10000), r.randrange(1, 13),
                          r.randrange(1, 29)),
         'time': lambda: (r.randrange(24) if r.random() < .5 else 0,
                          r.choice((0, 59)), r.choice((0, 1)),
                          r.choice((0, 1, 999999))),
         'datetime': lambda: (r.randrange(1, 10000), r.randrange(1, 13),
                              r.randrange(1, 29), r.choice((0, 23)),
                              r.choice((0, 59)), r.choice((0, 1)),
                              r.choice((0, 999999))),
         'timedelta': lambda: (r.choice((0, 1, -1, 999999999)),
                               r.choice((0, 3600)), r.choice((0, 1))),
         'none': lambda: 0, 'null': lambda: r.getrandbits(1)}[kind]()
    return (kind, x, r.random() < .2)


def fixed(tier):
    for s in WORDS:
        yield ('text', s)
    for u in list(UNITS) + [u + 's' for u in UNITS] + ['minute', 'month', 'ps']:
        for n in ('1', '-3', '2.0', '2.5', '1e3', '0', 'x', '١'):
            for a, b in (('', ''), (' ', ' '), ('\n', '')):
                yield ('text', a + n + ' ' + u + b)
            yield ('text', n + '\t  ' + u)
            yield ('text', n + u)
    for c in range(0x300) if tier == 'quick' else range(0x11000):
        yield ('text', chr(c))
        yield ('text', '1' + chr(c))
        yield ('text', '1' + chr(c) + 'day')


def gen(r):
    return ('value', val(r)) if r.random() < .06 else ('text', txt(r))


def mutate(r, case):
    if case[0] == 'value':
        return gen(r)
    return ('text', edit(r, case[1]))


def run(case, mon):
    if case[0] == 'value':
        kind, x, sub = case[1]
        v = value(kind, x)
        if sub and kind in SUB:
            v = SUB[kind](v)
        elif sub and kind == 'date':
            v = Date(*x)
        got = datashape.discover(v)
        mon.check('scalar', M.of(got) == VALUES[kind], v, 'gives', got)
        mon.seen(kind, x)
        return
    s = case[1]
    try:
        kind, want = classify(s)
    except Exception as e:          # never happened
        raise AssertionError('reference: %r on %r' % (e, s))
    got = datashape.discover(s)
    if want is None:
        want = M.of(got)
        mon.check('unspecified', want in (STRING, ('date',),
                                          ('datetime', None)) or
                  want[0] == 'timedelta', s, got)
    mon.check(kind, M.of(got) == want, s, 'gives', got, 'expected', want)
    mon.check(kind, M.of(datashape.discover(Str(s))) == want, s)
    if kind == 'timedelta':
        mon.count('unit names', int(len(s.split()[1]) > 2))
    if kind == 'string':
        p = s.split()
        if len(p) == 2 and unit(p[1]):
            mon.count('overflowing')
    mon.seen(s)
