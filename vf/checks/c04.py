"""C04: tokenising accounts for every character."""
import itertools
import re

from datashape import DataShapeSyntaxError, lexer

from vf import badtext, gen as G, ref, text

RULE = ('every code point (quick: below U+3000, and a sample) in ten contexts, '
        'all strings up to length 4 over the characters tokens are made of, '
        'spelled types, mutations and arbitrary text; token by token against '
        'an independent lexer.  Non-trivial: distinct texts.')
BIG = (800, 20000)
COUNT = {'quick': 120000, 'thorough': 1500000}
REQUIRED = ('tokens', 'stopped', 'covered', 'value')
CONTEXTS = ('%s', 'a%s', '1%s', '"%s"', "'%s'", '"\\%s"', '#%s\nb', 'a %s b',
            'A%s...', '-%s', 'True%s', '"\\u00%s0"', '0%s')
ALPHABET = 'aA_0 1-.>"\'\\u#\n?'


def fixed(tier):
    step = 1 if tier == 'thorough' else 23
    for cp in itertools.chain(range(0x3000), range(0x3000, 0x110000, step)):
        yield ('cp', cp)
    for n in range(0, 5 if tier == 'quick' else 6):
        for t in itertools.product(ALPHABET, repeat=n):
            yield ''.join(t)


def long(r):
    """A text with a token, a comment or white space of great length."""
    n = G.size(r)
    k = r.randrange(8)
    c = r.choice('aZ0_ \u00e9')
    s = ('a' * n if k == 0 else '1' * min(n, 4000) if k == 1 else
         '"%s"' % (c * n) if k == 2 else "'%s'" % ('\\u00e9' * (n // 6))
         if k == 3 else '#' + c * n + '\n' if k == 4 else
         r.choice(' \n\t') * n if k == 5 else 'A_' * (n // 2) if k == 6 else
         ' * '.join(['var'] * min(n, 3000)))
    s = r.choice(('', 'x ', '{', '3 * ')) + s + r.choice(('', ' y', ':', '"',
                                                          '~', '0'))
    return s if r.random() < .7 else s * 2


def gen(r):
    if G.big(r):
        return long(r)
    k = r.random()
    if k < .25:
        return text.spell(badtext.g.top(r), r)
    if k < .5:
        return badtext.gen(r)
    if k < .6:
        return G.text(r, r.randrange(1, 60))
    if k < .8:
        return ''.join(r.choice(badtext.TOKENS + ('True', 'False', 'Truex',
                                                  '"\\u00e9"', '"\\n"', '#c\n',
                                                  '\n', ' ', "'\\''", '"\\""',
                                                  '-5', '12', '007', '0'))
                       for _ in range(r.randrange(1, 15)))
    if k < .9:
        q = r.choice('"\'')
        return q + ''.join(r.choice(('\\u', '\\', 'u', '0', 'a', 'F', 'n', 'b',
                                     'x', q, '"', "'", '\\' + q, '\\n', '\\u00',
                                     'G', '\u00e9', '\\ud800', '\\u0000'))
                           for _ in range(r.randrange(0, 12))) + q
    return text.literal(G.text(r), r) + r.choice(('', ' x', 'x', '"'))


mutate = badtext.mutate
MANY = re.compile(r'\d{4000}')     # more than Python makes a number of


def lex(s, mon):
    if MANY.search(s):
        return []
    toks, err = [], None
    try:
        for t in lexer.lex(s):
            toks.append(t)
    except DataShapeSyntaxError as e:
        err = e
    try:
        want, stop = ref.lex(s), None
    except ref.LexError as e:
        want, stop = e.tokens, e.pos
    got = [(t.name, tuple(t.span), t.val) for t in toks]
    mon.check('tokens', [g[:2] for g in got] == [w[:2] for w in want], got,
              'expected', want, 'of', s)
    for t, w in zip(toks, want):
        mon.check('value', type(t.val) is type(w[2]) and t.val == w[2], t,
                  'expected', w)
        mon.check('class', t.id == getattr(lexer, t.name), t)
    if stop is None:
        mon.check('covered', err is None, s, err)
    else:
        mon.check('stopped', err is not None and err.lexpos == stop, s, err,
                  'expected to stop at', stop)
    return toks


def run(case, mon):
    if isinstance(case, tuple):
        c = chr(case[1])
        for ctx in CONTEXTS:
            lex(ctx.replace('%s', c), mon)
    else:
        toks = lex(case, mon)
        if len(toks) > 1:
            mon.count('several-tokens')
    mon.seen(case)
