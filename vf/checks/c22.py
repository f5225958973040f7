"""C22: concatenation adds leading sizes and nothing else."""
import random

import datashape

from vf import gen as G, model as M, text

RULE = ('lists of 1-9 types with fixed leading sizes up to 10**30 and a '
        'random common remainder, in several orders and groupings; the same '
        'with one flaw: a different remainder, a leading dimension that is '
        'not fixed, or none.  Non-trivial: distinct lists.')
COUNT = {'quick': 60000, 'thorough': 900000}
REQUIRED = ('sum', 'order', 'grouping', 'refused', 'inputs unchanged',
            'single', 'empty')
g = G.Gen(most_cats=13)


def gen(r):
    rest = g.top(r) if not G.big(r) else g.top(r, 1)
    if r.random() < .06:    # print alike with their last categories changed
        rest = M.array(M.dims(rest), ('cat', tuple(
            range(r.choice((10, 11, 12, 20)))), ('ct', 'int64'), False))
    n = G.count(r, (1, 2, 2, 2, 3, 3, 4, 6, 9), 40, grows=True)
    sizes = tuple(G.nat(r) for _ in range(n))
    k = r.random()
    if k < .55:
        flaw = None
    elif k < .75:
        flaw = ('rest', r.randrange(n), G.near(r, rest, g))
    elif k < .85:
        flaw = ('rest', r.randrange(n), g.top(r))
    elif k < .95:
        flaw = ('dim', r.randrange(n), r.choice((
            ('var',), ('tv', 'N'), ('ell', None), ('ell', 'A'))))
    else:
        flaw = ('none', r.randrange(n), None)
    return (sizes, rest, flaw, r.getrandbits(30))


def fixed(tier):
    rest = ('ct', 'int32')
    for a in range(4):
        for b in range(4):
            yield ((a, b), rest, None, 0)
            yield ((a, b), ('ds', (('fix', a),), rest), None, 0)
            for d in (('var',), ('tv', 'N'), ('ell', None)):
                yield ((a, b), rest, ('dim', 0, d), 0)
                yield ((a, b), rest, ('dim', 1, d), 0)
            yield ((a, b), rest, ('none', 1, None), 0)
            yield ((a, b), rest, ('none', 0, None), 0)


def mutate(r, case):
    sizes, rest, flaw, seed = case
    return (sizes, G.near(r, rest, g), None if flaw is None or
            flaw[0] == 'rest' else flaw, r.getrandbits(30))


def run(case, mon):
    sizes, rest, flaw, seed = case
    r = random.Random(seed)
    ms = [M.array((('fix', n),), rest) for n in sizes]
    if flaw:
        kind, i, x = flaw
        if kind == 'rest':
            ms[i] = M.array((('fix', sizes[i]),), x)
        elif kind == 'dim':
            if x[0] == 'ell' and any(d[0] == 'ell' for d in M.dims(rest)):
                return
            ms[i] = M.array((x,), rest)
        else:
            ms[i] = M.measure(rest)
    ts = [M.build(m, True) if r.random() < .7 else
          datashape.dshape(text.spell(m, r)) for m in ms]
    before = [(id(t), M.of(t), str(t)) for t in ts]
    bad = any(not M.dims(m) or M.dims(m)[0][0] != 'fix' for m in ms) or \
        len({M.array(M.dims(m)[1:], M.measure(m)) for m in ms}) > 1
    if len(ms) == 1:
        got = datashape.cat_dshapes(ts)
        mon.check('single', M.of(got) == ms[0], ts, 'give', got)
    elif bad:
        for _ in range(2):
            mon.refused('refused', Exception, datashape.cat_dshapes, ts)
            r.shuffle(ts)
        before.sort()
        mon.check('inputs unchanged', sorted(
            (id(t), M.of(t), str(t)) for t in ts) == before, ts)
        mon.seen(ms)
        return
    else:
        want = M.array((('fix', sum(sizes)),), rest)
        got = datashape.cat_dshapes(ts)
        mon.check('sum', M.of(got) == want and got == M.build(want, True), ts,
                  'give', got)
        mon.check('sum', str(got) == str(M.build(want, True)), ts)
        other = r.sample(ts, len(ts))
        got = datashape.cat_dshapes(other)
        mon.check('order', M.of(got) == want, other, 'give', got)
        i = r.randrange(1, len(ts))
        got = datashape.cat_dshapes([datashape.cat_dshapes(ts[:i]),
                                     datashape.cat_dshapes(ts[i:])])
        mon.check('grouping', M.of(got) == want, ts, i, 'give', got)
    mon.check('inputs unchanged', [(id(t), M.of(t), str(t)) for t in ts] ==
              before, ts)
    mon.refused('empty', Exception, datashape.cat_dshapes, [])
    mon.seen(ms)
