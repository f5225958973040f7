"""A reference lexer and parser, written from the published grammar."""
from . import model as M

WORD1 = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
WORD = WORD1 | set('0123456789')
HEX = set('0123456789abcdefABCDEF')
DIGITS = set('0123456789')
PUNCT = {'*': 'ASTERISK', ',': 'COMMA', '=': 'EQUAL', ':': 'COLON',
         '[': 'LBRACKET', ']': 'RBRACKET', '{': 'LBRACE', '}': 'RBRACE',
         '(': 'LPAREN', ')': 'RPAREN', '?': 'QUESTIONMARK'}
ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


class LexError(Exception):
    def __init__(self, pos, tokens):
        self.pos, self.tokens = pos, tokens


def skip(s, i):
    """The end of the whitespace and comments at i."""
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
        elif s[i] == '#':
            while i < n and s[i] != '\n':
                i += 1
        else:
            break
    return i


def token(s, i):
    """(name, end, value) of the token at i, or None."""
    c = s[i]
    n = len(s)
    if c in WORD1:
        j = i
        while j < n and s[j] in WORD:
            j += 1
        w = s[i:j]
        if w in ('True', 'False'):
            return 'BOOLEAN', j, w == 'True'
        if c == '_':
            return 'NAME_OTHER', j, w
        return ('NAME_LOWER' if c.islower() else 'NAME_UPPER'), j, w
    if c in PUNCT:
        return PUNCT[c], i + 1, None
    if s[i:i + 3] == '...':
        return 'ELLIPSIS', i + 3, None
    if s[i:i + 2] == '->':
        return 'RARROW', i + 2, None
    if c in DIGITS or c == '-':
        j = i + 1 if c == '-' else i
        k = j
        while k < n and s[k] in DIGITS:
            k += 1
        d = s[j:k]
        if d == '0' and c != '-':
            return 'INTEGER', k, 0
        if d and d[0] != '0':
            return 'INTEGER', k, int(s[i:k])
        return None
    if c in '"\'':
        out = []
        j = i + 1
        while j < n:
            d = s[j]
            if d == c:
                return 'STRING', j + 1, ''.join(out)
            if d in '\n\r':
                return None
            if d == '\\':
                e = s[j + 1:j + 2]
                if e == 'u' and len(s) >= j + 6 and all(
                        x in HEX for x in s[j + 2:j + 6]):
                    out.append(chr(int(s[j + 2:j + 6], 16)))
                    j += 6
                    continue
                if e and e == c:
                    out.append(c)
                elif e in ESC and e:
                    out.append(ESC[e])
                else:
                    return None
                j += 2
                continue
            out.append(d)
            j += 1
        return None
    return None


def lex(s):
    """[(name, (start, end), value)]; raises LexError."""
    out = []
    i = skip(s, 0)
    while i < len(s):
        t = token(s, i)
        if t is None:
            raise LexError(i, out)
        out.append((t[0], (i, t[1]), t[2]))
        i = skip(s, t[1])
    return out


# ---------------------------------------------------------------- the parser

class Syntax(Exception):
    def __init__(self, pos):
        self.pos = pos


class Unspecified(Exception):
    """The grammar's documentation does not settle this text."""


class Bad(object):
    """Stands for a type whose construction is refused."""


BAD = Bad()

TYPES = {'bool': ('ct', 'bool'), 'char': ('ct', 'char'), 'null': ('null',),
         'void': ('ct', 'void'), 'object': ('ct', 'object'),
         'string': ('string', None, 'U8'), 'bytes': ('bytes',),
         'json': ('json',), 'date': ('date',), 'time': ('time', None),
         'datetime': ('datetime', None), 'timedelta': ('timedelta', 'us'),
         'int': ('ct', 'int32'), 'real': ('ct', 'float64'),
         'intptr': ('ct', 'int64'), 'uintptr': ('ct', 'uint64'),
         'complex': ('ct', 'complex[float64]'),
         'complex64': ('ct', 'complex[float32]'),
         'complex128': ('ct', 'complex[float64]')}
for _n in ('int8 int16 int32 int64 uint8 uint16 uint32 uint64 float16 float32 '
           'float64').split():
    TYPES[_n] = ('ct', _n)
CONSTRUCTORS = ('complex', 'string', 'struct', 'tuple', 'funcproto', 'typevar',
                'option', 'map', 'time', 'datetime', 'timedelta', 'units',
                'decimal', 'categorical')
DIMS = {'var': ('var',), 'ellipsis': ('ell', None)}
DIM_CONSTRUCTORS = ('fixed', 'typevar', 'ellipsis')

ENC = {a: e for e, al in {
    'A': ('A', 'ascii'), 'U8': ('U8', 'utf-8', 'utf_8', 'utf8'),
    'U16': ('U16', 'utf-16', 'utf_16', 'utf16'),
    'U32': ('U32', 'utf-32', 'utf_32', 'utf32')}.items() for a in al}
UNIT = {a: e for e, al in {
    'Y': ('Y', 'year', 'years'), 'W': ('W', 'week', 'weeks'),
    'D': ('D', 'day', 'days', 'date', 'dates'), 'h': ('h', 'hour', 'hours'),
    'm': ('m',), 'M': ('M',), 's': ('s', 'second', 'seconds'),
    'ms': ('ms', 'millisecond', 'milliseconds'),
    'us': ('us', 'microsecond', 'microseconds'),
    'ns': ('ns', 'nanosecond', 'nanoseconds')}.items() for a in al}


class Type(object):
    """A datashape argument, apart from the other arguments."""

    def __init__(self, m):
        self.m = m


class Parser(object):
    def __init__(self, s):
        self.s = s
        self.semantic = False     # has a construction been refused so far?
        self.unspecified = False
        try:
            self.toks = lex(s)
            self.lexerr = None
        except LexError as e:
            self.toks = e.tokens
            self.lexerr = e.pos
        self.i = 0

    # -- tokens
    def kind(self, k=0):
        if self.i + k < len(self.toks):
            return self.toks[self.i + k][0]
        return 'ERROR' if self.lexerr is not None else None

    def val(self):
        return self.toks[self.i][2]

    def fail(self):
        if self.i < len(self.toks):
            raise Syntax(self.toks[self.i][1][0])
        if self.lexerr is not None:
            raise Syntax(self.lexerr)
        raise Syntax(len(self.s))

    def eat(self, kind):
        if self.kind() != kind:
            self.fail()
        self.i += 1

    def bad(self):
        self.semantic = True
        return BAD

    # -- grammar
    def parse(self):
        m = self.datashape()
        if self.kind() is not None:
            self.fail()
        if m is not BAD and not self.semantic and not self.valid(m):
            self.bad()
        return m

    def valid(self, m):
        return all(sum(d[0] == 'ell' for d in M.dims(x)) <= 1
                   for x in M.walk(m))

    def starts(self):
        """Does a datashape start here?"""
        k = self.kind()
        if k in ('QUESTIONMARK', 'LBRACE', 'LPAREN', 'ELLIPSIS', 'NAME_UPPER'):
            return True
        if k == 'INTEGER':
            return self.kind(1) == 'ASTERISK'
        return k == 'NAME_LOWER'

    def datashape(self):
        if self.kind() == 'QUESTIONMARK':
            self.i += 1
            x = self.nooption()
            return BAD if x is BAD else ('opt', x)
        return self.nooption()

    def nooption(self):
        k = self.kind()
        d = None
        if k == 'INTEGER':
            n = self.val()
            if self.kind(1) != 'ASTERISK':
                if self.kind(1) in (None, 'ERROR'):
                    self.i += 1
                    self.fail()
                self.fail_at_next_or_here()
            self.i += 1
            d = ('fix', n) if n >= 0 else self.bad()
        elif k == 'ELLIPSIS':
            self.i += 1
            if self.kind() != 'ASTERISK':
                self.fail()
            d = ('ell', None)
        elif k == 'NAME_UPPER':
            name = self.val()
            if self.kind(1) == 'ELLIPSIS':
                self.i += 2
                if self.kind() != 'ASTERISK':
                    self.fail()
                d = ('ell', name)
            elif self.kind(1) == 'ASTERISK':
                self.i += 1
                d = ('tv', name)
            else:
                self.i += 1
                return ('tv', name)
        elif k == 'NAME_LOWER':
            name = self.val()
            if self.kind(1) == 'LBRACKET' and name in DIM_CONSTRUCTORS:
                self.i += 2
                self.args()
                self.eat('RBRACKET')
                self.semantic = True
                if self.kind() == 'ASTERISK':
                    self.i += 1
                    self.datashape()
                return BAD
            if name in DIMS and self.kind(1) != 'LBRACKET':
                self.i += 1
                if self.kind() != 'ASTERISK':
                    self.fail()
                d = DIMS[name]
        if d is not None:
            self.eat('ASTERISK')
            x = self.datashape()
            if d is BAD or x is BAD:
                return BAD
            return M.array((d,), x)
        return self.dtype()

    def fail_at_next_or_here(self):
        # the integer could still be a dimension: what follows it is wrong
        self.i += 1
        self.fail()

    def dtype(self):
        k = self.kind()
        if k == 'NAME_LOWER':
            name = self.val()
            if self.kind(1) == 'LBRACKET':
                if name not in CONSTRUCTORS:
                    self.i += name in TYPES or name in DIMS
                    self.fail()
                self.i += 2
                pos, kw = self.args()
                if self.kind() != 'RBRACKET' or not (pos or kw):
                    self.fail()
                self.i += 1
                return self.construct(name, pos, kw)
            if name in TYPES:
                self.i += 1
                return TYPES[name]
            self.i += name in CONSTRUCTORS or name in DIM_CONSTRUCTORS
            self.fail()
        if k == 'LBRACE':
            self.i += 1
            fields = []
            while self.kind() in ('NAME_LOWER', 'NAME_UPPER', 'NAME_OTHER',
                                  'STRING'):
                name = self.val()
                self.i += 1
                self.eat('COLON')
                fields.append((name, self.datashape()))
                if self.kind() != 'COMMA':
                    break
                self.i += 1
            self.eat('RBRACE')
            names = [n for n, _ in fields]
            if len(set(names)) != len(names):
                return self.bad()
            if any(t is BAD for _, t in fields):
                return BAD
            return ('rec', tuple(fields))
        if k == 'LPAREN':
            self.i += 1
            items = []
            while self.kind() != 'RPAREN':
                items.append(self.datashape())
                if self.kind() != 'COMMA':
                    break
                self.i += 1
            self.eat('RPAREN')
            if self.kind() == 'RARROW':
                self.i += 1
                ret = self.datashape()
                if ret is BAD or BAD in items:
                    return BAD
                return ('fn', tuple(items), ret)
            return BAD if BAD in items else ('tup', tuple(items))
        self.fail()

    def args(self):
        pos, kw = [], []
        while True:
            k = self.kind()
            if k == 'NAME_LOWER' and self.kind(1) == 'EQUAL':
                if self.val() in TYPES or self.val() in DIMS:
                    self.unspecified = True
                name = self.val()
                self.i += 2
                kw.append((name, self.arg()))
            elif k == 'RBRACKET' and not pos and not kw:
                break
            elif kw:
                self.fail()
            else:
                pos.append(self.arg())
            if self.kind() != 'COMMA':
                break
            self.i += 1
        names = [n for n, _ in kw]
        if len(set(names)) != len(names):
            self.semantic = True
            return pos, {'repeated': BAD}
        return pos, dict(kw)

    def arg(self):
        k = self.kind()
        if k == 'LBRACKET':
            self.i += 1
            if self.kind() == 'RBRACKET':
                self.i += 1
                return []
            k = self.kind()
            items = []
            if k in ('STRING', 'BOOLEAN') or \
                    k == 'INTEGER' and self.kind(1) != 'ASTERISK':
                while True:
                    if self.kind() != k or k == 'INTEGER' and \
                            self.kind(1) == 'ASTERISK':
                        if self.kind() == k:
                            self.i += 1
                        self.fail()
                    items.append(self.val())
                    self.i += 1
                    if self.kind() != 'COMMA':
                        break
                    self.i += 1
            else:
                while True:
                    items.append(Type(self.datashape()))
                    if self.kind() != 'COMMA':
                        break
                    self.i += 1
            self.eat('RBRACKET')
            return items
        if k in ('STRING', 'BOOLEAN') or \
                k == 'INTEGER' and self.kind(1) != 'ASTERISK':
            v = self.val()
            self.i += 1
            return v
        return Type(self.datashape())

    # -- constructors
    def construct(self, name, pos, kw):
        flat = []
        for a in list(pos) + list(kw.values()):
            flat += a if isinstance(a, list) else [a]
        if any(isinstance(a, Type) and a.m is BAD for a in flat) or \
                BAD in flat:
            self.semantic = True
            return BAD
        sig = {'complex': None, 'string': None, 'struct': None, 'tuple': None,
               'funcproto': None, 'option': None,
               'map': ('key', 'value'), 'time': ('tz',), 'datetime': ('tz',),
               'timedelta': ('unit',), 'units': ('unit', 'tp'),
               'decimal': ('precision', 'scale'),
               'categorical': ('categories', 'type', 'ordered')}[name]
        if sig is None:
            if kw:
                if name == 'string':
                    return self.bad()
                self.unspecified = True
                return BAD
        else:
            if len(pos) > len(sig):
                return self.bad()
            vals = dict(zip(sig, pos))
            for n, v in kw.items():
                if n not in sig or n in vals:
                    return self.bad()
                vals[n] = v
        isint = lambda x: type(x) is int
        isstr = lambda x: type(x) is str
        ist = lambda x: isinstance(x, Type)

        def types(x):
            return isinstance(x, list) and all(map(ist, x))

        if name == 'complex':
            if len(pos) != 1:
                return self.bad()
            if ist(pos[0]) and pos[0].m in (('ct', 'float32'),
                                            ('ct', 'float64')):
                return ('ct', 'complex[%s]' % pos[0].m[1])
            return self.bad()
        if name == 'string':
            if len(pos) > 2:
                return self.bad()
            n, e = None, 'U8'
            if len(pos) == 1:
                if isstr(pos[0]):
                    e = pos[0]
                else:
                    n = pos[0]
            else:
                n, e = pos
            if isinstance(n, bool) or not e or isinstance(e, bool):
                self.unspecified = True
                return BAD
            if n is not None and (not isint(n) or n < 0) or not isstr(e) \
                    or e not in ENC:
                return self.bad()
            return ('string', n, ENC[e])
        if name == 'struct':
            if len(pos) != 2:
                return self.bad()
            names, ts = pos
            if not isinstance(names, list) or not isinstance(ts, list):
                self.unspecified = True
                return BAD
            if names and not all(map(isstr, names)) or not types(ts):
                self.unspecified = True
                return BAD
            if len(names) != len(ts) or len(set(names)) != len(names):
                return self.bad()
            return ('rec', tuple(zip(names, [t.m for t in ts])))
        if name == 'tuple':
            if len(pos) != 1:
                return self.bad()
            if not types(pos[0]):
                self.unspecified = True
                return BAD
            return ('tup', tuple(t.m for t in pos[0]))
        if name == 'funcproto':
            if len(pos) != 2:
                return self.bad()
            if not types(pos[0]) or not ist(pos[1]):
                self.unspecified = True
                return BAD
            return ('fn', tuple(t.m for t in pos[0]), pos[1].m)
        if name == 'option':
            if len(pos) != 1:
                return self.bad()
            if ist(pos[0]):
                return ('opt', pos[0].m)
            if isinstance(pos[0], str):
                self.unspecified = True
                return BAD
            return self.bad()
        if name == 'map':
            if len(vals) != 2:
                return self.bad()
            if all(map(ist, vals.values())):
                return ('map', vals['key'].m, vals['value'].m)
            if any(isstr(v) for v in vals.values()):
                self.unspecified = True
                return BAD
            return self.bad()
        if name in ('time', 'datetime'):
            if not isstr(vals['tz']):
                return self.bad()
            return (name, vals['tz'])
        if name == 'timedelta':
            u = vals['unit']
            if not isstr(u):
                if ist(u):
                    self.unspecified = True
                    return BAD
                return self.bad()
            if u.strip() in UNIT:
                return ('timedelta', UNIT[u.strip()])
            if u.strip().rstrip('s') in UNIT or \
                    u.strip().rstrip('s') + 's' in UNIT:
                self.unspecified = True
                return BAD
            return self.bad()
        if name == 'units':
            if not isstr(vals.get('unit')):
                return self.bad()
            tp = vals.get('tp', Type(('ct', 'float64')))
            if not ist(tp):
                return self.bad()
            return ('units', vals['unit'], tp.m)
        if name == 'decimal':
            p, s = vals.get('precision'), vals.get('scale', 0)
            if isinstance(p, bool) or isinstance(s, bool):
                self.unspecified = True
                return BAD
            if not isint(p) or not isint(s):
                return self.bad()
            return ('decimal', p, s)
        if name == 'categorical':
            cats = vals.get('categories')
            if 'categories' not in vals:
                return self.bad()
            if not isinstance(cats, list):
                if isint(cats) or isinstance(cats, bool):
                    return self.bad()
                self.unspecified = True
                return BAD
            t = vals.get('type')
            if types(cats) and cats or t is None:
                self.unspecified = True
                return BAD
            o = vals.get('ordered', False)
            if not isinstance(o, bool):
                self.unspecified = True
                return BAD
            if not ist(t):
                return self.bad()
            return ('cat', tuple(cats), M.measure(t.m), o)
        raise AssertionError(name)


def parse(s):
    """What the grammar makes of a text:

      ('ok', model)          it denotes this type
      ('syntax', pos, also)  not derivable, the first offending character at
                             pos; `also`: a construction before that is refused
      ('semantic',)          grammatical, but its construction is refused
      ('unspecified',)
    """
    p = Parser(s)
    try:
        m = p.parse()
    except Syntax as e:
        return ('syntax', e.pos, p.semantic or p.unspecified)
    if p.unspecified:
        return ('unspecified',)
    if p.semantic or m is BAD:
        return ('semantic',)
    return ('ok', m)
