"""Malformed (and some well-formed) texts."""
from . import gen as G
from . import model as M
from . import text
from . import words

g = G.Gen()
ILLEGAL = '$@!%^&~`|\\;/<>+.-"\'\x00\u00e90'
TOKENS = ('3', '0', '-1', '*', ',', ':', '=', '[', ']', '{', '}', '(', ')',
          '...', '->', '?', '"a"', "'b'", 'True', 'False', 'int32', 'string',
          'var', 'ellipsis', 'T', 'A', 'A', 'x', '_y', 'foo', 'fixed',
          'typevar', 'option', 'struct', 'tuple', 'funcproto', 'map', 'time',
          'units', 'decimal', 'categorical', 'complex', 'tz', '..', '-', '>',
          '01', '10', '"', "'", '$', '#', 'type', 'null', 'bytes', 'json',
          'ordered')
CONSTR = ('complex', 'string', 'struct', 'tuple', 'funcproto', 'option', 'map',
          'time', 'datetime', 'timedelta', 'units', 'decimal', 'categorical',
          'fixed', 'typevar', 'ellipsis', 'int32', 'var', 'foo', 'bool',
          'json', 'date')
KW = ('tz', 'unit', 'tp', 'precision', 'scale', 'categories', 'ordered', 'key',
      'value', 'foo', 'type')

CURATED = (
    '', ' ', '#', '\n', '# int32', '3', '3 *', '* int32', '3 int32',
    '3 * * int32', 'int32 int32', 'int32,', '(int32', 'int32)', '{x: int32',
    '{x int32}', '{x: }', '{: int32}', '{,}', '(,)', '{x: int32,, y: int32}',
    '(int32,,)', '{x: int32 y: int32}', '[int32]', '[]', 'string[]',
    'string[', 'string]', 'string[10', 'string[10,]', 'string[,10]',
    'string["A", 10]', 'string[10, "A", 3]', 'string["bogus"]', 'string[-1]',
    'string[?10]', 'string[tz="a"]', 'foo', 'foo * int32', 'int32 * int32',
    'var', 'var int32', 'var *', '...', '... int32', '... * ...',
    '... * ... * int32', 'A... * B... * int32', 'A...', 'A... int32', '3 ...',
    '?', '??int32', '?3', '?*', '? , int32', 'int32?', '!int32',
    '() ->', '() -> ,', '->', '-> int32', 'int32 -> int32', '() -> () ->',
    '{x: int32} -> int32', '3 * ->', '{x: int32, x: int8}',
    '{"x": int32, x: int8}', 'complex[int32]', 'complex[]', 'complex[3]',
    'time[3]', 'time[tz=3]', 'time[tz="a", tz="b"]', 'time[zone="a"]',
    'datetime["a", "b"]', 'timedelta["fortnight"]', 'timedelta[unit=3]',
    'timedelta[]', 'units[]', 'units[3]', 'units["m", "m"]', 'decimal[]',
    'decimal["a"]', 'decimal[1, 2, 3]', 'decimal[scale=2]', 'option[]',
    'option[3]', 'option[int32, int32]', 'map[int32]', 'map[]', 'map[1, 2]',
    'map[int32, int32, int32]', 'categorical[]', 'categorical[3]',
    'categorical[["a"], type=3]', 'categorical[["a", 3], type=string]',
    'categorical[["a",], type=string]', 'struct[["a"], []]',
    'struct[[], [int32]]', 'struct[["a", "a"], [int32, int32]]',
    'funcproto[[int32]]', 'fixed[3] * int32', 'typevar["T"] * int32',
    'ellipsis["A"] * int32', 'typevar["T"]', '-1 * int32', '-0 * int32',
    '00 * int32', '01 * int32', '1.5 * int32', '3 * 3', '3 * "a"', '"a"',
    'True', 'True * int32', '{True: int32}', '{3: int32}', '{x: 3}',
    '{x: "a"}', '_x', '_x * int32', 'INT32 int32', 'int32 # x\n)', 'int 32',
    '{x: int32}}', '((int32)', '(int32))', '{x: (int32}', '({x: int32)}',
    '3 * {x: 4 * }', '{x: 3 * int32, y: ... * ... * int32}',
    '(... * int32, ... * ... * int32)', '?... * ... * int32',
    'map[int32, ... * ... * int8]', '() -> ... * ... * int8',
    '(... * ... * int8) -> int8', 'units["m", ... * ... * int8]',
    'option[... * ... * int32]', '{x: ?{y: (int32, ... * var * ... * int8)}}',
    '"', "'a", '"a\\', '"a\\x"', '"\\u12"', '{"a\nb": int32}', '$', 'int32 $',
    '3 * $', '{x: $}', '\x00', 'int32\x00', '\ufeffint32', 'int32;',
    'string["A"] "A"', 'string[True]', 'string[int32]', 'string[[3]]',
    'categorical[["a"], type=string, ordered=True, foo=False]',
    '{x: var int32}', '(var int32)', '3 * var int32', 'var * 3 int32',
    'var[3] * int32', 'T * 3 int32', 'T[3]', 'T...T', 'T * ...T * int32',
    'T T', 'T, T', 'int32...', '3...', '{...}', '(...)', '?...', '?T',
    '?T...', 'string[T]', 'json[3]', 'bool[]', 'date[]', 'null[tz="a"]',
)


def swap_quotes(t):
    return t


def break_tokens(r, toks):
    toks = list(toks)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.randrange(7)
        i = r.randrange(len(toks)) if toks else 0
        if not toks or k == 0:
            toks.insert(i, r.choice(TOKENS))
        elif k == 1:
            del toks[i]
        elif k == 2:
            toks[i] = r.choice(TOKENS)
        elif k == 3:
            toks.insert(i, toks[i])
        elif k == 4:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 5:
            toks = toks[:i] if r.random() < .6 else toks[i:]
        else:
            toks.append(r.choice(TOKENS))
    return toks


def break_text(r, s):
    for _ in range(r.choice((1, 1, 2))):
        i = r.randrange(len(s) + 1)
        k = r.randrange(5)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + r.choice(ILLEGAL + ' \n#0123*,:=[]{}()?aA_"\'') + s[i:]
        elif k == 2:
            s = s[:i] + G.text(r, 1) + s[i + 1:]
        elif k == 3:
            s = s[:i]
        else:
            s = s[:i] + s[i:i + 3] + s[i:]
    return s


def arg(r, depth=1):
    k = r.random()
    if k < .25:
        return [str(r.choice((1, -1, 1)) * G.nat(r))]
    if k < .5:
        return [text.literal(r.choice((
            'A', 'utf8', 'UTF8', 'ascii', 'us', 'seconds', 'days', 'Days',
            'minute', 'UTC', 'm', '', ' us ', 'bogus', 'float64',
            G.name(r))), r)]
    if k < .6:
        return [r.choice(('True', 'False'))]
    if k < .85 or depth == 0:
        return text.Style(r).toks(g.any(r, 1))
    k = r.randrange(4)
    n = r.choice((0, 1, 2, 2, 3))
    if r.random() < .1:
        items = [arg(r, 0) for _ in range(n)]
    elif k == 0:
        items = [[str(G.nat(r))] for _ in range(n)]
    elif k == 1:
        items = [[text.literal(G.name(r), r)] for _ in range(n)]
    elif k == 2:
        items = [[r.choice(('True', 'False'))] for _ in range(n)]
    else:
        items = [text.Style(r).toks(g.any(r, 0)) for _ in range(n)]
    return text.Style(r).list(items)


def call(r):
    name = r.choice(CONSTR)
    out = []
    for _ in range(r.choice((0, 1, 1, 2, 2, 3))):
        out.append(arg(r))
    for _ in range(r.choice((0, 0, 0, 1, 1, 2))):
        out.append([r.choice(KW), '='] + arg(r))
    toks = [name, '['] + text.Style(r).commas(out) + [']']
    k = r.random()
    if k < .2:
        toks = ['3', '*'] + toks
    elif k < .3:
        toks = ['(', 'int32', ','] + toks + [')']
    elif k < .4:
        toks = ['{', 'x', ':'] + toks + [',', 'y', ':', 'int8', '}']
    return toks


def flaw(r):
    """A type with a flaw that only shows in its structure."""
    m = g.top(r)
    p = r.choice(list(M.paths(m)))
    x = M.at(m, p)
    k = r.randrange(3)
    if k == 0:
        d = list(M.dims(x)) + [('ell', None if r.random() < .5 else 'A'),
                               ('ell', r.choice((None, 'A', 'B')))]
        r.shuffle(d)
        x = ('ds', tuple(d), M.measure(x))
    elif k == 1:
        n = G.name(r)
        fs = [(n, ('ct', 'int8')), (n, ('ct', 'int8')), ('zz', x)]
        r.shuffle(fs)
        x = ('rec', tuple(fs))
    else:
        x = ('ds', M.dims(x) + (('fix', -G.nat(r) - 1),), M.measure(x))
    return text.spell(M.replace(m, p, x), r)


def gen(r):
    k = r.random()
    if k < .1:
        return flaw(r)
    if k < .3:
        toks = call(r)
        if r.random() < .2:
            toks = break_tokens(r, toks)
        return text.join(toks, r if r.random() < .3 else None)[0]
    if k < .35:
        return G.text(r)
    if k < .4:
        return ' '.join(r.choice(TOKENS) for _ in range(r.randrange(1, 12)))
    if k < .43:
        w = G.word(r)
        return r.choice(('%s', '3 * %s', '%s * int32', '{x: %s}',
                         '%s[int32]', '%s["a"]', '(%s)')).replace('%s', w)
    toks = text.Style(r if r.random() < .5 else None).toks(g.top(r))
    if k < .8:
        return text.join(break_tokens(r, toks),
                         r if r.random() < .3 else None)[0]
    return break_text(r, text.join(toks, r if r.random() < .3 else None)[0])


def mutate(r, s):
    if isinstance(s, str):
        return break_text(r, s)
    return gen(r)
