"""C35: the graph helpers under the type lattice lose and invent nothing."""
import random

from datashape import coretypes as T
from datashape.discovery import descendents
from datashape.internal_utils import (IndexCallable, _toposort, groupby, remove,
                                      reverse_dict)

RULE = ('random acyclic and cyclic graphs of ints, texts, tuples and types '
        '(chains, diamonds, stars, several components, self-loops, rings far '
        'from any source), their edges in sets, lists and tuples, against '
        'an independent reachability; random sequences and iterators with '
        'random key functions.  Non-trivial: distinct graphs and sequences.')
COUNT = {'quick': 60000, 'thorough': 1500000}
REQUIRED = ('order', 'once', 'cycle', 'reversed', 'reachable', 'groups',
            'kept', 'given', 'unchanged', 'isolated', 'diamond')
KINDS = ('int', 'neg', 'str', 'tuple', 'type', 'mixed')
TYPES = (T.int8, T.int16, T.int32, T.int64, T.float32, T.float64, T.string,
         T.bool_, T.date_, T.datetime_, T.timedelta_, T.null, T.Option(T.int8),
         T.Fixed(3), T.Fixed(4), T.var, T.String(3), T.Decimal(4, 2),
         T.Record([('x', T.int8)]), T.Tuple([T.int8]))


def node(kind, i):
    if kind == 'mixed':
        kind = KINDS[i % 5]
    return {'int': i, 'neg': -i - 3, 'str': 'n%d' % i, 'tuple': (i, 'x'),
            'type': TYPES[i % len(TYPES)] if i < len(TYPES) else
            T.Decimal(i, 7)}[kind]


def box(kind, xs, r):
    xs = list(xs)
    if kind:
        r.shuffle(xs)
    return (set, list, tuple, frozenset)[kind % 4](xs)


def fixed(tier):
    for kind in KINDS:
        for n in range(4):      # every graph of up to three nodes
            pairs = [(a, b) for a in range(n) for b in range(n)]
            for bits in range(2 ** len(pairs)):
                yield ('graph', kind, n, tuple(
                    p for i, p in enumerate(pairs) if bits >> i & 1),
                    bits % 7)


def gen(r):
    if r.random() < .3:
        n = r.choice((0, 1, 2, 3, 5, 8, 20, r.randrange(200)))
        return ('seq', r.choice(KINDS), tuple(
            r.randrange(r.choice((1, 2, 5, 40))) for _ in range(n)),
            r.randrange(1, 6), r.getrandbits(30))
    n = r.choice((1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 10, 12, 16, 20))
    if r.random() < .01:
        n = r.randrange(20, 120)
    order = list(range(n))
    r.shuffle(order)
    k = r.random()
    es = set()
    if k < .1:                  # a chain
        es = set(zip(order, order[1:]))
    else:
        for _ in range(r.randrange(n * r.choice((1, 1, 2, 3)) + 1)):
            i, j = r.randrange(n), r.randrange(n)
            if i != j:
                es.add((order[min(i, j)], order[max(i, j)]))
    if r.random() < .35:        # perhaps a cycle
        for _ in range(r.choice((1, 1, 2))):
            es.add((r.choice(order), r.choice(order)))
    return ('graph', r.choice(KINDS), n, tuple(sorted(es)), r.getrandbits(30))


def mutate(r, case):
    if case[0] == 'seq' or not case[2]:
        return gen(r)
    es = set(case[3])
    es ^= {(r.randrange(case[2]), r.randrange(case[2]))}
    return ('graph', r.choice(KINDS), case[2], tuple(sorted(es)),
            r.getrandbits(30))


def reach(es, n):
    """Reachability by any number of edges, at least one."""
    to = [set(b for a, b in es if a == i) for i in range(n)]
    for k in range(n):
        for i in range(n):
            if k in to[i]:
                to[i] |= to[k]
    return to


def run(case, mon):
    r = random.Random(case[-1])
    if case[0] == 'seq':
        sequence(case, r, mon)
    else:
        graph(case, r, mon)
    mon.seen(case[:-1])


def graph(case, r, mon):
    _, kind, n, es, _ = case
    names = [node(kind, i) for i in range(n)]
    back = {x: i for i, x in enumerate(names)}
    # nodes without edges may be listed, or just be pointed at
    listed = [i for i in range(n) if any(a == i for a, _ in es) or
              r.random() < .5]
    r.shuffle(listed)
    style = r.randrange(8)
    d, copy = {}, {}
    for i in listed:
        d[names[i]] = box(style, [names[b] for a, b in es if a == i], r)
        copy[names[i]] = type(d[names[i]])(d[names[i]])
    nodes = set(listed) | set(b for _, b in es)
    to = reach(es, n)

    if any(i in to[i] for i in range(n)):
        mon.refused('cycle', ValueError, _toposort, d)
    else:
        out = _toposort(d)
        mon.check('once', type(out) is list and
                  len(out) == len(nodes) and
                  set(back[x] for x in out) == nodes, d, 'gives', out)
        at = {back[x]: k for k, x in enumerate(out)}
        mon.check('order', all(at[a] < at[b] for a, b in es), d, 'gives', out)
        mon.count('isolated', int(any(not to[i] and all(
            i not in t for t in to) for i in listed)))
        mon.count('diamond', int(any(sum(
            c == b or b in to[c] for a2, c in es if a2 == a) > 1
            for a, b in es)))
    rev = reverse_dict(d)
    pairs = sorted((back[b], back[a]) for b, x in rev.items() for a in x)
    mon.check('reversed', pairs == sorted((b, a) for a, b in es) and
              all(type(x) is tuple and x for x in rev.values()), d, 'gives', rev)
    for i in r.sample(range(n), min(n, 6)):
        got = descendents(d, names[i])
        mon.check('reachable', set(back[x] for x in got) == to[i] | {i} and
                  len(got) == len(to[i] | {i}), d, names[i], got)
        again = descendents(d, names[i])
        if isinstance(got, set):
            got.clear()
        mon.check('reachable', len(again) == len(to[i] | {i}), d, names[i])
    mon.check('reachable', descendents(d, 'elsewhere') == {'elsewhere'}, d)
    mon.check('unchanged', d == copy and list(d) == [names[i] for i in listed]
              and all(list(d[k]) == list(copy[k]) for k in d
                      if type(d[k]) in (list, tuple)), d, 'was', copy)


def sequence(case, r, mon):
    _, kind, idx, mod, _ = case
    seq = [node(kind, i) for i in idx]
    before = list(seq)
    calls = []

    def key(x):
        calls.append(x)
        return kind_of(x) % mod

    memo = {}

    def kind_of(x):
        return memo.setdefault(x, len(memo))

    def given():
        k = r.randrange(4)
        return (seq, tuple(seq), iter(seq), (x for x in seq))[k]

    got = groupby(key, given())
    keys = [memo[x] % mod for x in seq]
    mon.check('groups', isinstance(got, dict) and
              list(got) == list(dict.fromkeys(keys)) and
              all(type(v) is list and len(v) == keys.count(k) and
                  all(a is b for a, b in zip(
                      v, [x for x, j in zip(seq, keys) if j == k]))
                  for k, v in got.items()), seq, keys, got)
    mon.check('groups', len(calls) == len(seq), seq, calls)
    left = list(remove(lambda x: key(x) == 0, given()))
    want = [x for x, j in zip(seq, keys) if j]
    mon.check('kept', len(left) == len(want) and
              all(a is b for a, b in zip(left, want)), seq, left)
    # truth, not only booleans
    left = list(remove(lambda x: key(x), given()))
    want = [x for x, j in zip(seq, keys) if not j]
    mon.check('kept', len(left) == len(want) and
              all(a is b for a, b in zip(left, want)), seq, left)
    keyof = []
    call = IndexCallable(lambda k: keyof.append(k) or (k, k))
    for x in before[:5] + [slice(1, 2), (1, slice(None)), Ellipsis, None, []]:
        got = call[x]
        mon.check('given', len(keyof) == 1 and keyof[0] is x and
                  got[0] is x and len(got) == 2, x, keyof)
        del keyof[:]
    mon.check('unchanged', len(seq) == len(before) and
              all(a is b for a, b in zip(seq, before)), seq)
