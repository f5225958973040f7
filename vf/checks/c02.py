"""C02: malformed text is always refused, with the right kind of error."""
import itertools

import datashape
from datashape import DataShapeSyntaxError

from vf import badtext, model as M, ref

RULE = ('all token sequences up to length 4 (thorough: 5), token and character '
        'mutations of random valid texts, constructor calls with random '
        'arguments, types with one injected flaw, arbitrary text; judged by an '
        'independent lexer and parser of the published grammar.  Non-trivial: '
        'distinct refused texts.')
COUNT = {'quick': 160000, 'thorough': 2000000}
REQUIRED = ('syntax', 'semantic', 'accepted', 'tail', 'well-formed')
REFUSED = (DataShapeSyntaxError, TypeError, ValueError, NotImplementedError)

VOCAB = ('3', '*', 'int32', 'T', 'var', '...', '?', '{', '}', '(', ')', '[',
         ']', ',', ':', '=', '->', '"a"', 'True', 'string', 'x', '_y', '-1',
         'fixed', '$')


def sequences(most):
    """Everything made of items and commas, with one comma too many or few."""
    for n in range(most):
        names = ['"n%d"' % i for i in range(n)]
        fields = ['n%d: int8' % i for i in range(n)]
        types = ['int8', '3 * int16', '?int32', 'string', '(int8,)'] * 3
        for left, items, right in (
                ('categorical[[', names, ']]'),
                ('categorical[[', [str(i) for i in range(n)], '], type=int8]'),
                ('struct[[', names, '], [%s]]' % ', '.join(types[:n])),
                ('struct[[%s], [' % ', '.join(names), types[:n], ']]'),
                ('tuple[[', types[:n], ']]'), ('(', types[:n], ')'),
                ('3 * (', types[:n], ') -> int8'), ('{', fields, '}'),
                ('{n: (', types[:n], ')}'),
                ('categorical[', ['categories=["a"]', 'type=string',
                                  'ordered=True'][:n], ']'),
                ('string[', ['3', '"A"'][:n], ']'),
                ('decimal[', ['5', 'scale=2'][:n], ']')):
            for i in range(len(items) + 1):
                for comma in (',', ',,', ', ,', ' ,\n', ';', '*', ''):
                    yield left + ', '.join(items[:i]) + comma + ', '.join(
                        items[i:]) + right
                    if i and i < len(items):
                        yield left + ', '.join(items[:i]) + comma + ' , ' + \
                            ', '.join(items[i:]) + right


def fixed(tier):
    for t in badtext.CURATED:
        yield t
    for t in sequences(8 if tier == 'quick' else 16):
        yield t
    for n in range(0, 5 if tier == 'quick' else 6):
        for toks in itertools.product(VOCAB, repeat=n):
            yield ' '.join(toks)


gen = badtext.gen
mutate = badtext.mutate


def judge(s, mon):
    verdict = ref.parse(s)
    kind, r = mon.outcome(datashape.dshape, s)
    if kind == 'error':
        mon.check('error-class', isinstance(r, REFUSED),
                  'parsing raised %s:' % type(r).__name__, r)
        is_syntax = isinstance(r, DataShapeSyntaxError)
    else:
        try:
            m = M.of(r)
        except M.Malformed as e:
            m = None
            mon.check('well-formed', verdict[0] == 'unspecified', e)
        mon.count('well-formed')
    if verdict[0] == 'ok':
        mon.check('accepted', kind == 'ok' and repr(m) == repr(verdict[1]),
                  r, 'expected', verdict[1])
    elif verdict[0] == 'syntax':
        if verdict[2]:
            mon.check('syntax-or-semantic', kind == 'error', r)
        else:
            mon.check('syntax', kind == 'error' and is_syntax, kind, r,
                      'expected a syntax error at', verdict[1])
        if verdict[1] >= len(s.rstrip()):
            mon.count('tail')
        mon.seen(s)
    elif verdict[0] == 'semantic':
        mon.check('semantic', kind == 'error' and not is_syntax, kind, r)
        mon.seen(s)
    else:
        mon.count('unspecified')
    return verdict, kind, r


def run(s, mon):
    judge(s, mon)
