"""The runner: executes one check's workload under its monitors.

    python -m vf.run C01 [--replay FILE]

A check is a module vf.checks.cNN with

    BIG        optional: number of big cases, and the greatest size in them
    RULE       how cases are made and what makes one non-trivial
    COUNT      {'quick': n, 'thorough': n}   random cases over all workers
    REQUIRED   oracle counters that must not be zero at the end
    fixed(tier)         optional: iterable of exhaustive/hand-picked cases
    gen(rnd)            one random case
    mutate(rnd, case)   optional: a case close to one that reached new code
    run(case, mon)      execute the case, with mon watching; raises Violation
    final(mon, ctx)     optional: once, in the parent, after the workers

A case is a Python literal, so that every case can be written out and replayed.
"""
import ast
import base64
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

from . import cover

cover.start('/repo/datashape/')          # before datashape is imported

import datashape                          # noqa: E402

from . import gen as G                    # noqa: E402
from .child import RECURSION              # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VF_WORKERS', '8'))
CPU_LIMIT = 20                            # seconds of CPU for one case
BIG_LIMIT = 100                           # for a big one
MEM_LIMIT = 6 << 30


class Violation(Exception):
    pass


class Timeout(BaseException):
    pass


class Mon(object):
    """What the monitors observed: one per worker."""

    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.context = None
        self.findings = set()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def check(self, oracle, cond, *detail):
        """An oracle's verdict on something observed."""
        self.counts[oracle] = self.counts.get(oracle, 0) + 1
        if not cond:
            raise Violation('%s: %s' % (oracle, ' '.join(_txt(d)
                                                         for d in detail)))

    def equal(self, oracle, got, want, *detail):
        self.counts[oracle] = self.counts.get(oracle, 0) + 1
        if not (type(got) is type(want) and got == want):
            raise Violation('%s: got %s, expected %s %s' % (
                oracle, _txt(got), _txt(want),
                ' '.join(_txt(d) for d in detail)))

    def fail(self, oracle, *detail):
        self.check(oracle, False, *detail)

    def seen(self, *key):
        """Notes a distinct non-trivial case."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(
            'utf-8', 'backslashreplace'), digest_size=8).digest())

    def outcome(self, f, *args, **kwargs):
        """('ok', result) or ('error', exception)."""
        try:
            return 'ok', f(*args, **kwargs)
        except Exception as e:
            return 'error', e

    def refused(self, oracle, classes, f, *args, **kwargs):
        """f has to raise one of the classes."""
        detail = kwargs.pop('detail', args)
        try:
            r = f(*args, **kwargs)
        except classes as e:
            self.count(oracle)
            return e
        except Exception as e:
            self.fail(oracle, 'raised %s: %s instead of %s for' % (
                type(e).__name__, _txt(e), classes), detail)
        self.fail(oracle, 'returned', _txt(r), 'instead of raising for',
                  detail)

    def known(self, text):
        self.findings.add(text)


def _txt(x):
    if isinstance(x, str):
        s = x
    else:
        try:
            s = repr(x)
        except Exception as e:
            s = '<unprintable %s: %s>' % (type(x).__name__, type(e).__name__)
    s = s.encode('utf-8', 'backslashreplace').decode('utf-8')
    return s if len(s) < 3000 else s[:3000] + '...'


def _run_case(mod, case, mon, limit=CPU_LIMIT):
    """None, or the description of the violation."""
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        mod.run(case, mon)
        return None
    except Violation as e:
        return _txt(str(e))
    except Timeout:
        return 'termination: the case took more than %d s of CPU\n%s' % (
            limit, traceback.format_exc(limit=-6))
    except MemoryError:
        return 'termination: the case took more than %d GB of memory' % (
            MEM_LIMIT >> 30)
    except Exception:
        return 'unexpected exception\n' + _txt(traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _alarm(signum, frame):
    raise Timeout()


def _worker(i, mod, pid, seed, tier, deadline):
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    # what is nested more deeply than usual is not to be given up
    sys.setrecursionlimit(RECURSION)
    mon = Mon(seed, tier)
    out = {'violations': [], 'evaluations': 0, 'fixed': 0, 'random': 0,
           'mutated': 0, 'big': 0, 'capped': False, 'corpus': 0}

    def handle(case, kind):
        out['evaluations'] += 1
        out[kind] += 1
        bad = _run_case(mod, case, mon,
                        BIG_LIMIT if kind == 'big' else CPU_LIMIT)
        if bad is not None:
            out['violations'].append((case, bad))
            return False
        return True

    ok = True
    if hasattr(mod, 'fixed'):
        for k, case in enumerate(mod.fixed(tier)):
            if k % WORKERS != i:
                continue
            if len(mon.samples) < 2 and k % (7 * WORKERS) == i:
                mon.samples.append(_txt(repr(case))[:600])
            ok = handle(case, 'fixed')
            if not ok or time.time() > deadline:
                out['capped'] = ok
                ok = False
                break
    n, most = getattr(mod, 'BIG', (480, 1100))
    k = i
    while ok and k < n * (1 if tier == 'quick' else 8):
        rnd = random.Random('%s:%s:big:%d' % (seed, pid, k))
        G.BIG[0] = most
        case = mod.gen(rnd)
        G.BIG[0] = 0
        ok = handle(case, 'big')
        k += WORKERS
        if time.time() > deadline:
            out['capped'] = True
            break
    corpus = []
    n = mod.COUNT[tier]
    can_mutate = hasattr(mod, 'mutate')
    k = i
    while ok and k < n:
        rnd = random.Random('%s:%s:%d' % (seed, pid, k))
        kind = 'random'
        if can_mutate and corpus and rnd.random() < 0.3:
            kind = 'mutated'
            case = mod.mutate(rnd, rnd.choice(corpus))
        else:
            case = mod.gen(rnd)
        before = cover.news()
        ok = handle(case, kind)
        if cover.news() != before:
            corpus.append(case)
        if k < 3 * WORKERS or k % 1009 == 0 and len(mon.samples) < 6:
            mon.samples.append(_txt(repr(case))[:600])
        k += WORKERS
        if time.time() > deadline:
            out['capped'] = True
            break
    if ok and hasattr(mod, 'worker_end'):
        try:
            mod.worker_end(mon, i, WORKERS)
        except Violation as e:
            out['violations'].append((('worker_end', i), _txt(str(e))))
    out['corpus'] = len(corpus)
    out['counts'] = mon.counts
    out['distinct'] = mon.distinct
    out['samples'] = mon.samples
    out['findings'] = mon.findings
    out['cover'] = cover.hits()
    return out


def _fork(f, *args):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, os.fdopen(r, 'rb')
    try:
        os.close(r)
        data = pickle.dumps(f(*args))
        with os.fdopen(w, 'wb') as fh:
            fh.write(data)
        code = 0
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def _replay_path(pid, case, detail, seed, tier):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    text = repr(case)
    h = hashlib.blake2b(text.encode('utf-8', 'backslashreplace'),
                        digest_size=6).hexdigest()
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'case': text, 'detail': detail,
                   'seed': seed, 'tier': tier,
                   # the text of what is nested deeply does not parse
                   'pickled': base64.b64encode(pickle.dumps(case, 2))
                   .decode('ascii')}, f, indent=1)
    return path


def main(argv):
    pid = argv[0]
    mod = importlib.import_module('vf.checks.' + pid.lower())
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    where = os.path.realpath(datashape.__file__)
    if not where.startswith('/repo/'):
        print('ERROR: datashape comes from', where)
        return 2

    if len(argv) > 2 and argv[1] == '--replay':
        stored = json.load(open(argv[2]))
        if 'pickled' in stored:
            case = pickle.loads(base64.b64decode(stored['pickled']))
        else:
            case = ast.literal_eval(stored['case'])
        signal.signal(signal.SIGVTALRM, _alarm)
        sys.setrecursionlimit(RECURSION)
        mon = Mon(seed, tier)
        bad = _run_case(mod, case, mon, BIG_LIMIT)
        print(bad if bad is not None else 'held')
        return 1 if bad is not None else 0

    t0 = time.time()
    cap = {'quick': 240, 'thorough': 780}[tier]
    deadline = t0 + float(os.environ.get('VF_CAP', cap))
    kids = [_fork(_worker, i, mod, pid, seed, tier, deadline)
            for i in range(WORKERS)]
    outs, errors = [], []
    for i, (kid, fh) in enumerate(kids):
        for attempt in range(3):
            data = fh.read()
            fh.close()
            _, status = os.waitpid(kid, 0)
            if not os.WIFSIGNALED(status) or attempt == 2:
                break           # a crash of the interpreter: once more
            kid, fh = _fork(_worker, i, mod, pid, seed, tier,
                            max(deadline, time.time() + 60))
        if status == 0 and data:
            outs.append(pickle.loads(data))
        else:
            errors.append('worker %d ended with status %d' % (i, status))

    counts, distinct, samples, violations = {}, set(), [], []
    findings = set()
    hits = cover.hits()
    for o in outs:
        for k, v in o['counts'].items():
            counts[k] = counts.get(k, 0) + v
        distinct |= o['distinct']
        samples += o['samples'][:4]
        violations += o['violations']
        findings |= o['findings']
        hits = cover.merge(hits, o['cover'])
    extra = {}
    if hasattr(mod, 'final') and not violations:
        mon = Mon(seed, tier)
        try:
            extra = mod.final(mon, outs) or {}
        except Violation as e:
            violations.append((('final',), _txt(str(e))))
        except Exception:
            violations.append((('final',), 'unexpected exception\n' +
                               traceback.format_exc(limit=-8)))
        for k, v in mon.counts.items():
            counts[k] = counts.get(k, 0) + v
        distinct |= mon.distinct
        findings |= mon.findings
    missing = [k for k in getattr(mod, 'REQUIRED', ()) if not counts.get(k)]
    if missing and not violations:
        errors.append('monitors that observed nothing: %s' % missing)

    wall = time.time() - t0
    coverage = {
        'evaluations': sum(o['evaluations'] for o in outs),
        'distinct_nontrivial': len(distinct),
        'rule': mod.RULE,
        'samples': samples[:10] or ['(none)'],
        'observations': dict(sorted(counts.items())),
        'cases': {k: sum(o[k] for o in outs)
                  for k in ('fixed', 'big', 'random', 'mutated')},
        'reached_new_code': sum(o['corpus'] for o in outs),
        'code_reached': cover.report(hits),
        'stopped_at_wall_limit': any(o['capped'] for o in outs),
    }
    coverage.update(extra)
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': coverage,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
          'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for text in sorted(findings):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    for case, bad in violations[:5]:
        path = _replay_path(pid, case, bad, seed, tier)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case: %s' % _txt(repr(case))[:2000])
        print('  ' + bad[:3000].replace('\n', '\n  '))
    print('%s: %d cases, %d distinct, %.1f s, %d violations' % (
        pid, coverage['evaluations'], len(distinct), wall, len(violations)))
    print('  ' + ', '.join('%s=%d' % kv for kv in sorted(counts.items())))
    if violations:
        return 1
    for e in errors:
        print('ERROR:', e)
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
