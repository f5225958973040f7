"""C27: calls leave no trace.

A history of calls on a pool of shared types, texts and values is executed in
the (long-lived) worker, with some of the calls interrupted at a random line,
and with containers changed after they were passed in or handed out.  Every
call is repeated later on; all answers are compared with each other and with
those of a pristine copy of the process that executes the calls once, without
interruptions and in another order.
"""
import random
import sys

import datashape
from datashape import coretypes as T, type_symbol_table as S, typesets

from vf import api, gen as G, model as M, pristine, routes

RULE = ('histories of 6-40 calls on a pool of 4 types, 3 texts, 4 values and 2 '
        'arrays that resemble each other, each executed two to four times in '
        'random order, about a third of the executions interrupted by an '
        'exception at a random line of datashape code, with results spoilt '
        'after use, against a pristine process; containers changed after '
        'types were made from them.  Non-trivial: distinct histories.')
COUNT = {'quick': 3200, 'thorough': 90000}
REQUIRED = ('repeated', 'other order', 'interrupted', 'arguments unchanged',
            'registries unchanged', 'result spoilt', 'constants unchanged',
            'container changed', 'failed calls', 'ended before the line')
CTX = {}
PREFIX = '/repo/datashape/'


class Interrupt(BaseException):
    pass


def gen(r):
    if r.random() < .15:
        return ('containers', r.getrandbits(40))
    sp = api.spec(r)
    ops = api.ops(r, r.choice((6, 10, 20, 40)))
    return ('history', sp, ops, r.getrandbits(40))


def mutate(r, case):
    if case[0] != 'history':
        return gen(r)
    return ('history', case[1], case[2][:20] + api.ops(r, 8), r.getrandbits(40))


def registries():
    """What every registered name is bound to, by identity."""
    sets = api.type_sets()
    return ({k: id(v) for k, v in getattr(T.Type, '_registry', {}).items()},
            {k: id(v) for k, v in sets.items()},
            [{k: id(v) for k, v in getattr(S.sym, p).items()}
             for p in ('dtype', 'dtype_constr', 'dim', 'dim_constr')],
            {k: tuple(map(id, v.types)) for k, v in sets.items()})


def constants():
    out = []
    for mod in (T, typesets, datashape):
        for n in sorted(vars(mod)):
            x = vars(mod)[n]
            if isinstance(x, T.Mono):
                out.append((n, id(x), api.norm(x)))
    for p in ('dtype', 'dim'):
        for n, x in sorted(getattr(S.sym, p).items()):
            out.append((p, n, id(x), api.norm(x)))
    return out


def in_pristine(arg):
    spec, ops = arg
    w = api.World(spec)
    return [w.perform(o)[0] for o in ops]


def interrupted(f, k):
    """Runs f, interrupting it at the k-th line of datashape code; whether it
    got that far."""
    left = [k]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] <= 0:
                sys.settrace(None)
                raise Interrupt
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return local
        return None

    sys.settrace(trace)
    try:
        f()
        return False
    except Interrupt:
        return True
    except Exception:
        return left[0] <= 0         # turned into another error on its way
    finally:
        sys.settrace(None)


def spoil(x):
    """Changes a result in place; whether there was anything to change."""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        if len(x) % 2:
            del x[:]
        else:
            x.append('spoilt')
            x.reverse()
        return True
    if isinstance(x, dict):
        for y in list(x.values()):
            spoil(y)
        x.clear()
        x['spoilt'] = 1
        return True
    if isinstance(x, set):
        x.clear()
        return True
    if isinstance(x, tuple) and not isinstance(x, T.Mono):
        return any([spoil(y) for y in x])
    return False


def run(case, mon):
    if 'server' not in CTX:
        CTX['server'] = pristine.Server(in_pristine)
        CTX['registries'] = registries()
        CTX['constants'] = constants()
    if case[0] == 'containers':
        run_containers(mon, case[1])
    else:
        run_history(mon, *case[1:])
    mon.check('registries unchanged', registries() == CTX['registries'],
              'a registry or the default symbol table changed')


def run_history(mon, spec, ops, seed):
    r = random.Random(seed)
    w = api.World(spec)
    before = w.state()
    order = list(range(len(ops)))
    r.shuffle(order)
    pristine_answers = CTX['server'].call((spec, [ops[i] for i in order]))
    want = dict(zip(order, pristine_answers))
    plan = [i for i in range(len(ops)) for _ in range(r.choice((2, 2, 3)))]
    r.shuffle(plan)
    seen = {}
    for i in plan:
        o = ops[i]
        if r.random() < .35:
            k = r.choice((1, 2, 3, 5, 8, 13)) if r.random() < .3 else \
                int(10 ** (r.random() * 3.3)) + 1
            hit = interrupted(lambda: w.perform(o), k)
            mon.count('interrupted' if hit else 'ended before the line')
            if r.random() < .2:
                mon.check('registries unchanged',
                          registries() == CTX['registries'], o)
            if r.random() < .6:
                continue
        got, x = w.perform(o)
        if got[0] == 'error':
            mon.count('failed calls')
        if i in seen:
            mon.check('repeated', got == seen[i], o, w.args(o), 'gives', got,
                      'after it gave', seen[i])
        seen[i] = got
        mon.check('other order', got == want[i], o, w.args(o), 'gives', got,
                  'but in a pristine process', want[i])
        if r.random() < .5 and not any(x is v for v in w.values) and \
                not isinstance(x, T.Mono) and spoil(x):
            mon.count('result spoilt')
    after = w.state()
    for x, y in zip(before, after):
        mon.check('arguments unchanged', x == y, x, 'became', y)
    if r.random() < .25:
        mon.check('constants unchanged', constants() == CTX['constants'],
                  'a predefined type changed')
    mon.seen(spec, ops, plan)


# ---------------------------------------------------------------- containers

g = G.Gen(most_cats=3)


def run_containers(mon, seed):
    """Types made from containers that change afterwards."""
    r = random.Random(seed)
    kids = [g.any(r, 1) for _ in range(r.choice((1, 2, 3)))]
    b = routes.Builder(r)
    objs = [b.any(m) for m in kids]
    names = []
    for _ in kids:
        s = G.name(r)
        while s in names:
            s = G.ident(r)
        names.append(s)
    k = r.randrange(9)
    if k == 0:
        c = [[n, o] for n, o in zip(names, objs)]
        x, want = T.Record(c), ('rec', tuple(zip(names, kids)))
    elif k == 1:
        from collections import OrderedDict
        c = OrderedDict(zip(names, objs))
        x, want = T.Record(c), ('rec', tuple(zip(names, kids)))
    elif k == 2:
        c = list(objs)
        x, want = T.Tuple(c), ('tup', tuple(kids))
    elif k == 3:
        c = [G.name(r) for _ in range(r.choice((0, 1, 3, 12)))]
        want = ('cat', tuple(c), M.measure(kids[0]), True)
        x = T.Categorical(c, M.build(M.measure(kids[0])), True)
    elif k == 4:
        ds = G.dims(r)
        c = [M.build_dim(d) for d in ds] + [M.build(M.measure(kids[0]))]
        x = datashape.dshape(c)
        want = M.array(ds, M.measure(kids[0]))
    elif k == 5:
        c = list(zip(names, objs))
        x, want = datashape.dshape([T.Record(c)]), ('rec', tuple(
            zip(names, kids)))
    elif k == 6:
        n = [G.nat(r) for _ in kids]
        c = [M.build(M.array((('fix', i),), kids[0]), True) for i in n]
        if len(c) == 1:
            c, n = c * 2, n * 2
        x = datashape.cat_dshapes(c)
        want = M.array((('fix', sum(n)),), kids[0])
    elif k == 7:
        from datashape import discovery
        c = [datashape.dshape(M.build(M.measure(kids[0]), True))
             for _ in range(3)]
        x = discovery.unite_identical(c)
        want = M.array((('fix', 3),), M.measure(kids[0]))
    else:
        c = [[1, 2, 3], [4, 5, 6]]
        x = datashape.discover(c)
        want = ('ds', (('fix', 2), ('fix', 3)), ('ct', 'int64'))
    same = list(c) if isinstance(c, list) else list(c.items())
    s, h = str(x), hash(x)
    mon.check('container changed', M.of(x) == want, x, 'instead of', want)
    mon.check('arguments unchanged', same == (
        list(c) if isinstance(c, list) else list(c.items())), c)
    spoil(c)
    for _ in range(2):
        mon.check('container changed', M.of(x) == want and str(x) == s and
                  hash(x) == h and x == M.build(want, type(x) is T.DataShape),
                  x, 'instead of', want)
        # what it hands out
        for t in M_parts(x):
            for n in ('names', 'types', 'dict', 'fields', 'parameters',
                      'dshapes', 'argtypes', 'categories', 'shape'):
                try:
                    y = getattr(t, n)
                except AttributeError:
                    continue
                except Exception:
                    continue
                if isinstance(y, (list, dict, set)):
                    spoil(y)
                    mon.count('result spoilt')
    mon.check('arguments unchanged', [M.of(o) for o in objs] == kids, objs)
    mon.seen('containers', seed)


def M_parts(x):
    yield x
    try:
        kids = x.parameters
    except Exception:
        return
    for k in kids:
        if isinstance(k, T.Mono):
            for y in M_parts(k):
                yield y
        elif isinstance(k, tuple):
            for _, t in [f for f in k if isinstance(f, tuple)]:
                for y in M_parts(t):
                    yield y
