"""C29: the same answers in every process.

The calls of a history are executed here and, in other orders, in two other
processes with hash seeds and memory layouts of their own; the transcripts are
compared.  A battery of discoveries, unions and promotions is executed in one
fresh process per hash seed.
"""
import datetime
import itertools
import os
import random

import datashape
from datashape import discovery, typesets

from vf import api, child, data
from vf.checks import c15

RULE = ('histories of 6-30 public calls on pools of types, texts, values and '
        'arrays, in the worker and in two other processes with random hash '
        'seeds, in different orders; and a battery of about 3000 discoveries, '
        'unions, promotions and texts in one fresh process per hash seed.  '
        'Non-trivial: distinct histories, processes and answers.')
COUNT = {'quick': 4000, 'thorough': 150000}
REQUIRED = ('same transcript', 'same battery', 'processes', 'error class',
            'answers', 'sets')
CTX = {}
LIVES = 150             # histories per process


def fixed(tier):
    n = {'quick': 32, 'thorough': 1200}[tier]
    r = random.Random('battery %s' % os.environ.get('VERIF_SEED', 1))
    for i in range(n):
        yield ('battery', (0, 1, 2, 3)[i] if i < 4 else r.getrandbits(32),
               r.getrandbits(30))


def gen(r):
    k = CTX['k'] = CTX.get('k', -1) + 1
    if k % LIVES == 0:
        CTX['seeds'] = (r.getrandbits(32), r.getrandbits(32))
    sp = api.spec(r)
    if r.random() < .25:        # the order of a set depends on the process
        xs = tuple(data.scalar(r) for _ in range(r.choice((2, 3, 4))))
        sp = sp[:2] + ((('SF'[r.getrandbits(1)],) + xs,) + sp[2][1:],) + sp[3:]
    return ('history', sp, api.ops(r, r.choice((6, 12, 30))),
            r.getrandbits(40), CTX['seeds'])


def mutate(r, case):
    if case[0] != 'history':
        return gen(r)
    return ('history', case[1], case[2][:15] + api.ops(r, 8), r.getrandbits(40),
            CTX.get('seeds') or case[4])


def perform(arg):
    """Answers of the calls, executed in the order given."""
    spec, ops, order = arg
    w = api.World(spec)
    out = {}
    for i in order:
        out[i] = w.perform(ops[i], messages=False)[0]
    return [out[i] for i in range(len(ops))]


# ---------------------------------------------------------------- battery

def outcome(f, *args):
    try:
        return api.norm(f(*args))
    except Exception as e:
        return ('error', type(e).__name__)


VALUES = (1, -1, 300, 2 ** 40, 1.5, 1e300, True, 1j, None, '', 'a', 'abc', '1',
          '1.5', 'true', '2014-01-01', '12:30', '2014-01-01 12:30:00',
          '1 day', '3 us', datetime.date(2014, 1, 1), datetime.time(1, 2),
          datetime.datetime(2014, 1, 1, 1), datetime.timedelta(2), [], [1],
          ['a'], {'a': 1}, {'b': 1.5}, {}, (1, 'a'), {'b': 2, 'a': None},
          {'measurement_' + c: 1 for c in 'badc'},
          {'measurement_' + c: 1.5 for c in 'cdab'},
          {'x' * 30 + c: 1 for c in '231'}, {c: ord(c) for c in 'ihgfedcbaj'},
          {'k%d' % i: 'v' for i in range(40)},
          {'Ab': 1, 'aB': 2, 'ab': 3, 'AB': 4},
          {n: 1 for n in ('b', 'a', 'é', '', ' ', 'B', '10', '9')},
          {'a': {'b%d' % i: i for i in range(12)}})
TEXTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
         'uint64', 'float16', 'float32', 'float64', 'complex64', 'complex128',
         'bool', 'string', "string[5]", "string['A']", "string[7, 'A']", 'date',
         'time', 'datetime', "datetime[tz='UTC']", 'timedelta',
         "timedelta['us']", "timedelta['D']", 'decimal[5, 2]', 'decimal[9]',
         'null', 'bytes', 'json', 'object', '?int32', '?string', '?float64',
         '{a: int32, b: string}', '{b: string, a: int32}', '(int32, ?string)',
         '3 * int32', 'var * int32', '3 * var * int32', '3 * ?int32',
         'A * int32', 'A', '... * int32', "categorical['a', 'b', type=string]",
         'map[string, int32]', '(int32) -> string', '{}', '()')


def battery(seed):
    r = random.Random(seed)
    out = {}

    def add(*key_and_call):
        key, f, args = key_and_call
        jobs.append((key, f, args))
    jobs = []
    for s in TEXTS:
        add(('text', s), datashape.dshape, (s,))
    ts = []
    for s in TEXTS:
        try:
            ts.append(datashape.dshape(s))
        except Exception:
            ts.append(None)
    rr = random.Random(11)
    for a, b in itertools.product(range(len(ts)), repeat=2):
        if ts[a] is None or ts[b] is None:
            continue
        pair = ts[a], ts[b]
        key = TEXTS[a], TEXTS[b]
        k = (a * 7 + b) % 3
        if k == 0:
            add(('common',) + key,
                lambda x, y: discovery.lowest_common_dshape([x, y]), pair)
        elif k == 1:
            add(('promote',) + key, lambda x, y: datashape.promote(
                x.measure, y.measure), pair)
        else:
            add(('unite',) + key,
                lambda x, y: discovery.unite([x, y]), pair)
    for _ in range(300):
        ks = [rr.randrange(len(ts)) for _ in range(3)]
        if not any(ts[k] is None for k in ks):
            add(('common',) + tuple(TEXTS[k] for k in ks),
                lambda *x: discovery.lowest_common_dshape(list(x)),
                tuple(ts[k] for k in ks))
    for i, v in enumerate(VALUES):
        add(('discover', i), datashape.discover, (v,))
        for j, w in enumerate(VALUES):
            add(('discover', i, j), datashape.discover, ([v, w],))
            try:
                add(('set', i, j), datashape.discover, ({v, w},))
            except TypeError:
                pass
    for _ in range(300):
        xs = [rr.choice(VALUES) for _ in range(rr.choice((3, 4, 5)))]
        add(('discover', repr(xs)), datashape.discover, (xs,))
        add(('records', repr(xs)), datashape.discover,
            ([{'a': x, 'b': y} for x, y in zip(xs, xs[::-1])],))
        try:
            add(('set', repr(xs)), datashape.discover, (set(xs),))
        except TypeError:
            pass
    for s in TEXTS:
        add(('maxtype', s), lambda s: datashape.maxtype(
            datashape.dshape(s).measure), (s,))
        add(('supertype', s), lambda s: typesets.supertype(
            datashape.dshape(s).measure), (s,))
        for n in sorted(api.type_sets()):
            add(('in', s, n), lambda s, n: datashape.matches_typeset(
                datashape.dshape(s), typesets.registry[n]), (s, n))
    for n in sorted(api.type_sets()):
        add(('typeset', n), lambda n: sorted(
            map(str, typesets.registry[n].types)), (n,))
    # the printed form of sets of types, the only types built on a hash table
    for n in (2, 3, 5):
        for _ in range(20):
            ks = [k for k in (rr.randrange(len(ts)) for _ in range(n))
                  if ts[k] is not None]
            key = tuple(TEXTS[k] for k in ks)
            tt = [ts[k].measure for k in ks]
            add(('print set',) + key,
                lambda *x: repr(datashape.TypeSet(*x)), tt)
            add(('print union',) + key,
                lambda *x: repr(datashape.TypeSet(*x[:1]) |
                                datashape.TypeSet(*x[1:])), tt)
            add(('print function',) + key, lambda *x: str(
                datashape.Function(datashape.TypeSet(*x), x[0])), tt)
    r.shuffle(jobs)
    for key, f, args in jobs:
        out[key] = outcome(f, *args)
    return out


# ---------------------------------------------------------------- run

def process(seed):
    kids = CTX.setdefault('kids', {})
    if seed not in kids:
        while len(kids) >= 2:
            kids.pop(next(iter(kids))).close()
        kids[seed] = child.Child(seed)
        kids[seed].call('vf.checks.c29', 'ballast', seed % 1000003)
    return kids[seed]


_ballast = []


def ballast(n):
    """Moves the addresses of everything allocated later."""
    _ballast.extend([object() for _ in range(n % 50021)])
    _ballast.append(bytearray(n % 999983))


def run(case, mon):
    if case[0] == 'battery':
        return run_battery(mon, *case[1:])
    _, spec, ops, order, seeds = case
    if ('child', seeds) != CTX.get('last'):
        mon.count('processes', 2)
        CTX['last'] = ('child', seeds)
    mine = perform((spec, ops, range(len(ops))))
    r = random.Random(order)
    for k, seed in enumerate(seeds):
        p = list(range(len(ops)))
        if k == 0 and r.random() < .5:
            p.reverse()
        else:
            r.shuffle(p)
        got = process(seed).call('vf.checks.c29', 'perform', (spec, ops, p))
        for o, x, y in zip(ops, mine, got):
            mon.check('same transcript', x == y, o, 'gives', x,
                      'with hash seed 0, and', y, 'with hash seed', seed)
    for o, x in zip(ops, mine):
        if x[0] == 'error':
            mon.count('error class')
        else:
            mon.count('answers')
    if any(v[0] in ('S', 'F') for v in spec[2]):
        mon.count('sets')
    mon.seen(spec, ops)


def run_battery(mon, hashseed, seed):
    if 'battery' not in CTX:
        CTX['battery'] = battery(0)
    c = child.Child(hashseed)
    try:
        got = c.call('vf.checks.c29', 'battery', seed)
    finally:
        c.close()
    want = CTX['battery']
    mon.check('same battery', set(got) == set(want), 'different questions',
              sorted(map(repr, set(got) ^ set(want)))[:5])
    for k in want:
        mon.check('same battery', got[k] == want[k], k, 'gives', want[k],
                  'with hash seed 0, and', got[k], 'with hash seed', hashseed)
    mon.count('processes')
    mon.seen('process', hashseed)


def worker_end(mon, i, n):
    for c in CTX.get('kids', {}).values():
        c.close()
