"""Running several threads one at a time, under schedules of our own.

At every line (or bytecode instruction) of the code under test a thread asks
the scheduler who goes on (through sys.monitoring: tracing several threads
with sys.settrace crashes this interpreter now and then).  If a thread that is
due turns out to be blocked by something the scheduler does not know about,
everybody is set free, so the scheduler cannot deadlock the code under test.
"""
import gc
import sys
import threading
import types

PREFIX = '/repo/datashape/'
TOOL = 4
_codes = []
_active = None


def codes():
    """The code objects of the code under test."""
    if not _codes:
        seen = set()
        todo = [f.__code__ for f in gc.get_objects()
                if isinstance(f, types.FunctionType)]
        while todo:
            c = todo.pop()
            if c.co_filename.startswith(PREFIX) and id(c) not in seen:
                seen.add(id(c))
                _codes.append(c)
                todo += [x for x in c.co_consts
                         if isinstance(x, types.CodeType)]
    return _codes


def _event(code, where):
    s = _active
    if s is not None:
        i = s.who.get(threading.get_ident())
        if i is not None:
            s.point(i, code, where)


def _watch(scheduler):
    global _active
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'vf.sched')
        m.register_callback(TOOL, m.events.LINE, _event)
        m.register_callback(TOOL, m.events.INSTRUCTION, _event)
    _active = scheduler
    events = 0 if scheduler is None else \
        m.events.INSTRUCTION if scheduler.opcodes else m.events.LINE
    for c in codes():
        m.set_local_events(TOOL, c, events)


class Free(object):
    """No control: the interpreter switches as often as it can."""

    def __init__(self, interval=1e-6):
        self.interval = interval
        self.points = 0
        self.trail = ()
        self.freed = False
        self.switches = 0

    def run(self, jobs, limit=60.0):
        old = sys.getswitchinterval()
        sys.setswitchinterval(self.interval)
        barrier = threading.Barrier(len(jobs))
        errors = []

        def body(job):
            barrier.wait()
            try:
                job()
            except BaseException as e:
                errors.append(e)
        ts = [threading.Thread(target=body, args=(j,), daemon=True)
              for j in jobs]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(limit)
                if t.is_alive():
                    return False
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        return True


class Scheduler(object):
    """`decide(i, n)` says, at the n-th point, reached by thread i, which of
    the threads goes on (an index, possibly of one that has finished)."""

    def __init__(self, decide, opcodes=False):
        self.decide, self.opcodes = decide, opcodes
        self.log = None     # a list: gets the points passed

    def run(self, jobs, limit=60.0):
        n = len(jobs)
        self.points = self.switches = 0
        self.trail = []
        self.freed = False
        self.alive = set(range(n))
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.errors = []
        ts = [threading.Thread(target=self._body, args=(i, j), daemon=True)
              for i, j in enumerate(jobs)]
        self.who = {}
        _watch(self)
        try:
            for t in ts:
                t.start()
            self.turn[0].release()
            for t in ts:
                t.join(limit)
                if t.is_alive():
                    return False
        finally:
            _watch(None)
        if self.errors:
            raise self.errors[0]
        return True

    def _wait(self, i):
        seen = -1
        while not self.turn[i].acquire(timeout=0.5):
            if self.freed:
                return
            if self.points == seen:
                self.freed = True       # whoever is due is blocked
                for t in self.turn:
                    t.release()
                return
            seen = self.points

    def _body(self, i, job):
        self._wait(i)

        self.who[threading.get_ident()] = i
        try:
            job()
        except BaseException as e:
            self.errors.append(e)
        finally:
            self.who.pop(threading.get_ident(), None)
            self.alive.discard(i)
            if self.alive and not self.freed:
                j = self.decide(i, -1)
                if j not in self.alive:
                    j = min(self.alive)
                self.turn[j].release()

    def point(self, i, code, where):
        if self.freed:
            return
        self.points += 1
        if self.log is not None:
            self.log.append((i, code.co_name, code.co_firstlineno, where))
        j = self.decide(i, self.points)
        if j != i and j in self.alive:
            self.switches += 1
            self.trail.append((i, j, code.co_name, where))
            self.turn[j].release()
            self._wait(i)


def random_walk(r, n, p):
    """Switches with probability p at every point."""
    def decide(i, k):
        if k == -1 or r.random() < p:
            return r.randrange(n)
        return i
    return decide


def preemptions(at, n):
    """Switches to the next thread at the given points only."""
    at = set(at)

    def decide(i, k):
        return (i + 1) % n if k in at or k == -1 else i
    return decide


def turns(length, n):
    """Everybody gets `length` points in turn."""
    def decide(i, k):
        return (i + 1) % n if k == -1 or k % length == 0 else i
    return decide
