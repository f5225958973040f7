"""C28: concurrent calls give what sequential calls give.

The threads of a case work on one pool of types, texts and values.  A
scheduler of our own runs them one at a time and decides at every line (in
some cases every bytecode instruction) of datashape code who goes on; other
cases run freely with the interpreter switching as often as it can.  The
answers have to be those of a pristine process that makes the calls one after
another.
"""
import random

from datashape import coretypes as T

from vf import api, model as M, pristine, sched
from vf.checks import c27

RULE = ('2-4 threads with 1-6 calls each on a shared pool (or the same text), '
        'under random schedules, schedules with 1-3 preemptions at any point, '
        'strict turns, or one preemption at each of up to 40 places in two '
        'threads calling one function, at line or instruction granularity, a '
        'third of them in a process in which nothing was called before; and '
        '4-8 threads running freely.  Non-trivial: distinct interleavings '
        '(sequences of preempted lines) and calls.')
BIG = (120, 300)
COUNT = {'quick': 1900, 'thorough': 60000}
REQUIRED = ('same answer', 'shared objects unchanged', 'registries unchanged',
            'switches', 'points', 'free', 'one preemption', 'instructions',
            'cold process', 'finished', 'swept')
CTX = {}
MOST = 40
LINES = ('dshape', 'dshape', 'discover', 'str', 'eq', 'hash', 'subshape',
         'promote', 'validate', 'validate text', 'repr', 'to_numpy', 'collect',
         'common', 'unite', 'cat_dshapes', 'dshape again', 'record of',
         'dshape of type', 'optionify', 'parse', 'discover both', 'pickle')
SWEPT = tuple(sorted(set(LINES))) + (
    'promote', 'promote', 'promote', 'dshape', 'dshape', 'discover', 'validate',
    'validate text', 'common', 'subshape', 'hash', 'eq', 'from_numpy',
    'discover array', 'maxtype', 'supertype', 'matches', 'cat_dshapes') + \
    tuple(api.OPS)
# what some functions want to be called with
WANT = {'names': 'rec', 'types': 'rec', 'dict': 'rec', 'fields': 'rec',
        'argtypes': 'fn', 'restype': 'fn', 'ty': 'opt', 'key': 'map',
        'value': 'map', 'dshapes': 'tup', 'categories': 'cat', 'unit':
        'timedelta', 'tz': 'datetime', 'encoding': 'string', 'fixlen':
        'string', 'shape': 'ds', 'ndim': 'ds', 'parameters': 'rec',
        'subshape': 'rec', 'subarray': 'ds', 'getitem': 'rec'}


def calls(r, n):
    out = []
    for _ in range(n):
        name = r.choice(LINES) if r.random() < .75 else r.choice(api.WEIGHTED)
        out.append((name, tuple(r.getrandbits(10) for _ in api.OPS[name][0])))
    return tuple(out)


def of_kind(r, kind):
    for _ in range(200):
        m = api.h.top(r, 1)
        for x in M.walk(m):
            if x[0] == kind and M.size(m) <= 12:
                return x
        m = api.g.scalar(r, kind) if kind in (
            'timedelta', 'datetime', 'string', 'cat') else None
        if m:
            return m
        m = api.g.top(r, 1)
        for x in M.walk(m):
            if x[0] == kind and M.size(x) <= 12:
                return x
    return ('rec', (('a', ('ct', 'int8')),))


def gen(r):
    sp = api.spec(r, types=3, texts=3, values=3, arrays=1)
    k = r.random()
    cold = r.random() < .33
    seed = r.getrandbits(40)
    if k < .12:
        n = r.choice((4, 8))
        ops = [calls(r, r.choice((4, 8))) for _ in range(n)]
        if r.random() < .5:
            ops = [ops[0]] * n
        return (sp, tuple(ops), ('free',), cold, seed)
    if k < .5:
        # one function only, stopped once at every point in turn
        sp = api.spec(r, types=6, texts=5, values=4, arrays=1, plain=.5,
                      little=True)
        name = r.choice(SWEPT)
        ops = [tuple((name, tuple(r.getrandbits(10) for _ in api.OPS[name][0]))
                     for _ in range(n)) for n in r.choice((
                         (1, 1), (2, 1), (2, 2), (3, 2), (3, 3)))]
        if r.random() < .6:     # both the same
            ops[1] = ops[0][:len(ops[1])]
            if name in WANT:
                m = of_kind(r, WANT[name])
                sp = (sp[0][:-1] + ((m, sp[0][-1][1]),),) + sp[1:]
                last = len(sp[0]) - 1
                ops = [tuple((o, tuple(last if k == 't' else p for k, p in zip(
                    api.OPS[o][0], ps))) for o, ps in x) for x in ops]
        return (sp, tuple(ops), ('sweep', r.random() < .15), cold, seed)
    n = r.choice((2, 2, 2, 3, 4))
    ops = [calls(r, r.choice((1, 1, 2, 3, 4))) for _ in range(n)]
    if r.random() < .3:
        ops = [ops[0]] * n
    k = r.random()
    code = r.random() < .2
    if k < .4:
        how = ('random', r.choice((.02, .1, .3, .7)), code)
    elif k < .8:
        how = ('preempt', tuple(int(10 ** (r.random() * (3.6 if code else 2.8)))
                                for _ in range(r.choice((1, 1, 2, 3)))), code)
    else:
        how = ('turns', r.choice((1, 1, 2, 3, 7, 20)), code)
    return (sp, tuple(ops), how, cold, seed)


def mutate(r, case):
    x = gen(r)
    return (case[0], case[1]) + x[2:] if x[2] != ('free',) else x


def perform(arg):
    """In the pristine process."""
    if arg[0] == 'sequential':
        _, spec, ops = arg
        w = api.World(spec)
        return [[w.perform(o)[0] for o in js] for js in ops]
    return concurrent(*arg[1:])


def sweep(call, seed, code):
    """The executions with one preemption of the first thread, at most MOST
    of them, at different places of the code."""
    r = random.Random(seed)
    first = call(('preempt', (), code), True)
    yield (), first
    if not first[0]:
        return
    places = {}
    for k, p in enumerate(first[-1]):
        if p[0] == 0:
            places.setdefault(p, []).append(k + 1)
    for p in r.sample(sorted(places), min(MOST, len(places))):
        k = r.choice(places[p])
        yield (k,), call(('preempt', (k,), code))


def concurrent(spec, ops, how, seed, log=False):
    r = random.Random(seed)
    w = api.World(spec)
    before = w.state() if seed % 2 else None
    regs = c27.registries()
    n = len(ops)
    answers = [[] for _ in ops]

    def job(i):
        def run():
            for o in ops[i]:
                answers[i].append(w.perform(o)[0])
        return run
    if how[0] == 'free':
        s = sched.Free()
    else:
        decide = (sched.random_walk(r, n, how[1]) if how[0] == 'random' else
                  sched.preemptions(how[1], n) if how[0] == 'preempt' else
                  sched.turns(how[1], n))
        s = sched.Scheduler(decide, how[2])
        s.log = [] if log else None
    done = s.run([job(i) for i in range(n)])
    changed = None
    if before is not None:
        for x, y in zip(before, w.state()):
            if x != y:
                changed = (repr(x), repr(y))
    else:       # the pool may have been untouched so far
        fresh = api.World(spec).state()
        for x, y in zip(fresh, w.state()):
            if x != y:
                changed = (repr(x), repr(y))
    return (done, answers, changed, c27.registries() == regs, s.points,
            s.switches, s.freed, tuple(s.trail), s.log if log else None)


def run(case, mon):
    spec, ops, how, cold, seed = case
    if 'server' not in CTX:
        CTX['server'] = pristine.Server(perform)
    want = CTX['server'].call(('sequential', spec, ops))

    def call(how, log=False):
        if cold:
            mon.count('cold process')
            return CTX['server'].call(('concurrent', spec, ops, how, seed,
                                       log))
        return concurrent(spec, ops, how, seed, log)
    if how[0] == 'sweep':
        for at, got in sweep(call, seed, how[1]):
            judge(mon, spec, ops, ('preempt', at, how[1]), want, got)
            mon.count('swept')
    else:
        judge(mon, spec, ops, how, want, call(how))


def judge(mon, spec, ops, how, want, got):
    done, answers, changed, registries, points, switches, freed, trail, _ = got
    mon.check('finished', done, 'the threads did not finish')
    for i, (xs, ys) in enumerate(zip(answers, want)):
        for o, x, y in zip(ops[i], xs, ys):
            mon.check('same answer', x == y, 'thread', i, 'of', len(ops), o,
                      'got', x, 'instead of', y, 'under', how,
                      'preempted at', trail[-20:])
    mon.check('same answer', [len(x) for x in answers] ==
              [len(y) for y in ops], 'calls lost')
    mon.check('shared objects unchanged', changed is None, changed)
    mon.check('registries unchanged', registries, 'under', how)
    mon.count('points', points)
    mon.count('switches', switches)
    if how[0] == 'free':
        mon.count('free')
    else:
        if how[0] == 'preempt' and len(how[1]) == 1:
            mon.count('one preemption')
        if how[2]:
            mon.count('instructions')
        mon.count('set free', int(freed))
    mon.seen(trail, ops, spec if not trail else None)
