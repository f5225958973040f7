"""C03: syntax errors point at the offending place."""
import copy
import pickle
import re

import datashape
from datashape import DataShapeSyntaxError, parser
from datashape.type_symbol_table import TypeSymbolTable

from vf import badtext, gen as G, ref, text

RULE = ('malformed texts (token and character mutations spread over many lines, '
        'surplus tokens after a complete datashape, unrecognisable characters '
        'at every token boundary of valid texts); the error is compared with '
        'the first offending place an independent parser finds, and its line, '
        'column and pointer with its offset.  Non-trivial: distinct texts with '
        'a syntax error.')
COUNT = {'quick': 120000, 'thorough': 1500000}
REQUIRED = ('offset', 'exact-character', 'exact-surplus', 'line', 'pointer',
            'not-beyond', 'not-before', 'second-line', 'lacking')
SURPLUS = (',', ']', '}', ')', '=', ':', '"str"', "'s'", '5', '-3', 'True',
           'int32', 'Foo', '_x', '{', '(', '?')
BAD_CHARS = '$@!%^&~`|\\;/<>+.\x00\u00e9\u0660\ufeff\U0001f600\ud800'


def surplus(r):
    s = text.spell(badtext.g.top(r), r)
    if '#' in s.split('\n')[-1]:
        s += '\n'
    tok = r.choice(SURPLUS)
    gap = text.gap(r) if r.random() < .6 else ' '
    if (s and text.wordy(s[-1]) and not gap) or '#' in (
            s + gap).split('\n')[-1]:
        gap += '\n'
    tail = r.choice(('', '', ' ', '\n', ' * 3 $', ' int32', '\n}', ' ,', '#'))
    return s + gap + tok + tail


def illegal(r):
    toks = text.Style(r).toks(badtext.g.top(r))
    i = r.randrange(len(toks) + 1)
    toks = toks[:i] + [r.choice(BAD_CHARS)] + toks[i:]
    return text.join(toks, r)[0]


SUGAR = (('dtype_constr', 'option', ('QUESTIONMARK',)),
         ('dtype_constr', 'struct', ('LBRACE',)),
         ('dtype_constr', 'tuple', ('LPAREN',)),
         ('dtype_constr', 'funcproto', ('LPAREN',)),
         ('dtype_constr', 'typevar', ('NAME_UPPER',)),
         ('dim_constr', 'typevar', ('NAME_UPPER',)),
         ('dim_constr', 'ellipsis', ('NAME_UPPER',)),
         ('dim_constr', 'fixed', ('INTEGER', 'ASTERISK')),
         ('dim', 'ellipsis', ('ELLIPSIS',)))


def lacking(case, mon):
    """A valid text whose punctuation the table has no meaning for."""
    _, s, i = case
    part, name, starts = SUGAR[i]
    t = TypeSymbolTable()
    del getattr(t, part)[name]
    kind, e = mon.outcome(parser.parse, s, t)
    if kind == 'ok' or not isinstance(e, DataShapeSyntaxError):
        return              # nothing of the kind in it, for C26 to say
    toks = ref.lex(s)
    if re.match(name + r'\b', s[e.lexpos:]):
        return              # written as a name
    at = [k for k, x in enumerate(toks) if x[1][0] == e.lexpos]
    mon.check('lacking', e.text == s and at and toks[at[0]][0] in starts,
              'the table lacks', part, name, 'and the error is at', e.lexpos,
              'of', s)
    k = at[0]
    if starts == ('LPAREN',):
        level = 0
        while True:
            level += {'LPAREN': 1, 'RPAREN': -1}.get(toks[k][0], 0)
            k += 1
            if not level:
                break
        arrow = toks[k:] and toks[k][0] == 'RARROW'
        mon.check('lacking', bool(arrow) == (name == 'funcproto'),
                  'the table lacks', part, name, 'and the error is at',
                  e.lexpos, 'of', s)
    agrees(s, e, mon)
    mon.seen(case)


def gen(r):
    k = r.random()
    if k < .04:
        return ('lacking', text.spell(badtext.g.top(r), r),
                r.randrange(len(SUGAR)))
    if k < .3:
        return surplus(r)
    if k < .5:
        return illegal(r)
    s = badtext.gen(r)
    if k < .8:
        # over several lines
        for _ in range(r.choice((1, 1, 2, 5))):
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(('\n', '\n', '\n\n', '\r\n', '\n#x\n', '\r',
                                  '\u2028', '\x0b')) + s[i:]
    return s


def mutate(r, case):
    return gen(r) if isinstance(case, tuple) else badtext.mutate(r, case)


def fixed(tier):
    for t in badtext.CURATED:
        yield t
        yield '\n\n' + t
        yield t.replace(' ', '\n')
        yield t + '\n'
        yield '# x\n  ' + t + '\r\n\r'
    for t in ('int32', '3 * int32', 'A', '()', '{x: int32}', '(int8) -> int8',
              'string[3]', '?int32', 'time[tz="a"]', '{}', '(int32,)'):
        for x in SURPLUS:
            for gap in (' ', '\n', '\n \n', ' # c\n', '\t'):
                for tail in ('', ' ', '\n', ' $', '\nint32'):
                    yield t + gap + x + tail


BREAKS = ('COMMA', 'COLON', 'ASTERISK', 'EQUAL', 'QUESTIONMARK', 'RARROW')


def item(s, first):
    """The start of the innermost dimension, type, field or argument in which
    the token at ``first`` stands."""
    toks, i = [], ref.skip(s, 0)
    while i < first:
        t = ref.token(s, i)
        toks.append((t[0], i, t[1]))
        i = ref.skip(s, t[1])
    level, start = 0, first
    if first >= len(s):     # the end may be that of the last token
        start = toks[-1][2] if toks else 0
    for kind, pos, _ in reversed(toks):
        if kind in ('RBRACKET', 'RPAREN', 'RBRACE'):
            level += 1
        elif kind in ('LBRACKET', 'LPAREN', 'LBRACE'):
            if not level:
                break
            level -= 1
        elif not level and kind in BREAKS:
            break
        start = pos
    return start


def run(s, mon):
    if isinstance(s, tuple):
        lacking(s, mon)
        return
    verdict = ref.parse(s)
    kind, e = mon.outcome(datashape.dshape, s)
    if kind == 'ok' or not isinstance(e, DataShapeSyntaxError):
        # whether that is right is for C02 to say
        return
    if e.text != s and (verdict[0] == 'unspecified' or verdict[2:] == (True,)):
        return      # the text of a constructor's argument
    pos = e.lexpos
    mon.check('offset', type(pos) is int and 0 <= pos <= len(s), pos)
    if verdict[0] == 'syntax' and not verdict[2]:
        first = verdict[1]
        try:
            ref.lex(s)
            bad = None
        except ref.LexError as x:
            bad = x.pos
        mon.check('not-beyond', pos <= first or pos == bad, 'offset', pos,
                  'but the first offending token is at', first)
        low = item(s, first)
        mon.check('not-before', pos >= low or pos == bad, 'offset', pos,
                  'but the item with the first offending token, which is at',
                  first, ', starts at', low)
        if bad == first:
            mon.check('exact-character', pos == bad, 'offset', pos,
                      'but the unrecognisable character is at', bad)
        elif first < len(s) and ref.parse(s[:first])[0] == 'ok':
            t = ref.token(s, first)
            if t and (t[0] in ('COMMA', 'RBRACKET', 'RBRACE', 'RPAREN', 'EQUAL',
                               'COLON', 'STRING', 'INTEGER', 'BOOLEAN',
                               'LBRACE', 'LPAREN', 'QUESTIONMARK') or
                      t[0].startswith('NAME')) and bad is None:
                mon.check('exact-surplus', pos == first, 'offset', pos,
                          'but the surplus token is at', first)
    agrees(s, e, mon)
    mon.seen(s)


def agrees(s, e, mon):
    """Line, column and pointer against the offset."""
    pos = e.lexpos
    before = s[:pos]
    line = before.count('\n') + 1
    text_line = s.split('\n')[line - 1]
    col = len(before) - (before.rfind('\n') + 1)
    mon.check('line', e.lineno == line, e.lineno, 'expected', line)
    mon.check('line-text', e.line == text_line, e.line, 'expected', text_line)
    mon.check('column', e.col_offset == col, e.col_offset, 'expected', col)
    mon.check('text', e.text == s, e.text)
    shown = str(e)
    lines = shown.split('\n')
    at = [i for i, x in enumerate(lines) if re.match(
        r'\s*File .*, line %d\Z' % line, x)]
    mon.check('rendered-line', len(at) == 1, shown, 'expected line', line)
    i = at[0]
    mon.check('rendered-text', lines[i + 1].endswith(text_line) and
              not lines[i + 1][:len(lines[i + 1]) - len(text_line)].strip(),
              shown)
    indent = len(lines[i + 1]) - len(text_line)
    mon.check('pointer', lines[i + 2] == ' ' * (indent + col) + '^', shown,
              'expected column', col)
    mon.check('message', e.msg and e.msg in shown, shown)
    # printing it in any way, and a copy (as between processes), say the same
    mon.check('printable', isinstance(repr(e), str) and repr(e), 'repr')
    for f in (copy.copy, lambda e: pickle.loads(pickle.dumps(e))):
        e2 = f(e)
        mon.check('copied', type(e2) is type(e) and str(e2) == shown and
                  (e2.lexpos, e2.lineno, e2.line, e2.col_offset, e2.text,
                   e2.msg, e2.filename) ==
                  (pos, line, text_line, col, s, e.msg, e.filename),
                  repr(e2), 'of', shown)
    # the same place reported by a caller's own words
    e2 = DataShapeSyntaxError(pos, 'its file', s, 'the reason')
    mon.check('own words', (e2.lexpos, e2.lineno, e2.line, e2.col_offset,
                            e2.text, e2.msg, e2.filename) ==
              (pos, line, text_line, col, s, 'the reason', 'its file') and
              'the reason' in str(e2) and 'its file' in str(e2), str(e2))
    if line > 1:
        mon.count('second-line')
