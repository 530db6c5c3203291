"""Deterministic line-level control over the package's code.

sys.monitoring LINE events (or, in fine mode, INSTRUCTION events: one per
bytecode), delivered only for code of /repo/sidermit, give a global step counter.  On top of it:

* Interrupter: raise an exception at chosen steps (Ctrl-C, MemoryError, ...);
* Scheduler: real threads, exactly one of which is ever runnable; which one is
  decided at planned steps (preemptions) and when a thread ends or blocks.

No wall clock, no real lock contention: a parked thread waits on its own
semaphore and is released only by the scheduler.
"""
import os
import sys
import threading

TOOL = 4
_mon = sys.monitoring
_prefix = None
_on = False
_sink = None            # callable(code, line) or None
_RealLock = threading.Lock
_RealRLock = threading.RLock


def _callback(code, line):
    if not code.co_filename.startswith(_prefix):
        return _mon.DISABLE
    s = _sink
    if s is not None:
        s(code, line)


def enable(repo_pkg_dir):
    """Register the tool once per process (cheap while no sink is set: events off)."""
    global _prefix
    _prefix = repo_pkg_dir.rstrip(os.sep) + os.sep
    try:
        _mon.use_tool_id(TOOL, "vsim")
    except ValueError:
        pass
    _mon.register_callback(TOOL, _mon.events.LINE, _callback)
    _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _callback)


def start(sink, fine=False):
    global _sink
    _sink = sink
    _mon.set_events(TOOL, _mon.events.INSTRUCTION if fine else _mon.events.LINE)


def stop():
    global _sink
    _sink = None
    _mon.set_events(TOOL, _mon.events.NO_EVENTS)


class Counter:
    """Counts executed package lines; `first` gets the step at which each of
    them was reached for the first time."""

    def __init__(self, first=None):
        self.n = 0
        self.first = first
        self.seen = set()

    def __call__(self, code, line):
        k = (id(code), line)        # hashing a code object is slow
        if k not in self.seen:
            self.seen.add(k)
            if self.first is not None:
                self.first.append(self.n)
        self.n += 1


class Interrupter:
    """Raises `exc` when the step counter reaches `at`."""

    def __init__(self, at, exc):
        self.at = at
        self.exc = exc
        self.n = 0
        self.fired = None

    def __call__(self, code, line):
        if self.n == self.at:
            self.n += 1
            self.fired = (code.co_name, )
            raise self.exc
        self.n += 1


def interrupted(fn, at, exc):
    """Run fn() with exc thrown at package step `at`.
    Returns (where, outcome): where is None if fn ended before that step."""
    it = Interrupter(at, exc)
    start(it)
    try:
        try:
            v = ("ok", fn())
        except BaseException as e:        # noqa - the injected one may be a KeyboardInterrupt
            v = ("exc", e)
    finally:
        stop()
    return it, v


def count(fn, fine=False, first=None):
    c = Counter(first)
    start(c, fine)
    try:
        try:
            v = ("ok", fn())
        except Exception as e:
            v = ("exc", e)
    finally:
        stop()
    return c.n, v


class Deadlock(Exception):
    pass


class _T:
    __slots__ = ("idx", "fn", "sem", "done", "result", "thread", "blocked", "steps")


class Scheduler:
    """Runs callables as threads; `switches` is a list of [step, target]: when
    the global step counter reaches `step`, control goes to runnable thread
    number `target` (modulo the runnable ones).  `spots` is the same with the
    thread's own steps: {(thread, its step): target}."""

    def __init__(self, fns, switches, env, spots=None, max_steps=50_000_000):
        self.env = env
        self.ts = []
        for i, fn in enumerate(fns):
            t = _T()
            t.idx, t.fn, t.sem, t.done, t.result, t.blocked, t.steps = i, fn, threading.Semaphore(0), False, None, None, 0
            self.ts.append(t)
        self.switches = sorted([list(s) for s in switches])
        self.pos = 0
        self.step = 0
        self.max_steps = max_steps
        self.cur = None
        self.ident = {}
        self.main_sem = threading.Semaphore(0)
        self.trace = []
        self.spots = spots or {}
        self.next_at = self.switches[0][0] if self.switches else 1 << 62

    def _runnable(self):
        return [t for t in self.ts if not t.done and t.blocked is None]

    def _transfer(self, me, other):
        self.cur = other
        other.sem.release()
        if me is not None:
            me.sem.acquire()

    def __call__(self, code, line):
        me = self.ident.get(threading.get_ident())
        if me is None:
            return
        self.step += 1
        target = self.spots.get((me.idx, me.steps)) if self.spots else None
        me.steps += 1
        if self.step >= self.next_at:
            target = self.switches[self.pos][1]
            self.pos += 1
            self.next_at = self.switches[self.pos][0] if self.pos < len(self.switches) else 1 << 62
        if target is not None:
            run = [t for t in self._runnable() if t is not me]
            if run:
                other = run[target % len(run)]
                self.trace.append((me.idx, other.idx, code.co_name, line))
                self.env.fault("preemption")
                self._transfer(me, other)

    def block(self, me, lock):
        """me waits for lock; give control away."""
        me.blocked = lock
        run = self._runnable()
        if not run:
            me.blocked = None
            raise Deadlock("all threads blocked")
        self._transfer(me, run[0])

    def wake(self, lock):
        for t in self.ts:
            if t.blocked is lock:
                t.blocked = None

    def _body(self, t):
        t.sem.acquire()
        self.ident[threading.get_ident()] = t
        try:
            try:
                t.result = ("ok", t.fn())
            except BaseException as e:      # noqa
                t.result = ("exc", e)
        finally:
            self.ident.pop(threading.get_ident(), None)
            t.done = True
            run = self._runnable()
            if run:
                self.cur = run[0]
                run[0].sem.release()
            else:
                self.main_sem.release()

    def run(self, fine=False):
        global _sched
        _sched = self
        for t in self.ts:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        start(self, fine)
        try:
            self.cur = self.ts[0]
            self.ts[0].sem.release()
            self.main_sem.acquire()
        finally:
            stop()
            _sched = None
        for t in self.ts:
            if not t.done:
                t.result = ("exc", Deadlock("thread %d never finished" % t.idx))
        return [t.result for t in self.ts]


_sched = None


class SimLock:
    """Stands in for threading.Lock/RLock created by the package: behaves like
    the real one outside a scheduled run and yields cooperatively inside it."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0
        self._real = _RealRLock() if reentrant else _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        s = _sched
        me = s.ident.get(threading.get_ident()) if s is not None else None
        if me is None:
            ok = self._real.acquire(blocking, timeout)
            if ok:
                self._count += 1
                self._owner = threading.get_ident()
            return ok
        while self._count and not (self._re and self._owner == threading.get_ident()):
            if not blocking:
                return False
            s.block(me, self)
        self._owner = threading.get_ident()
        self._count += 1
        return True

    def release(self):
        s = _sched
        me = s.ident.get(threading.get_ident()) if s is not None else None
        if self._count == 0:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        if me is None:
            self._real.release()
        elif self._count == 0:
            s.wake(self)

    def locked(self):
        return self._count > 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0
        self._real = _RealRLock() if self._re else _RealLock()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _from_package():
    f = sys._getframe(2)
    return _prefix is not None and os.path.realpath(f.f_code.co_filename).startswith(_prefix)


def _make_lock():
    return SimLock(False) if _from_package() else _RealLock()


def _make_rlock():
    return SimLock(True) if _from_package() else _RealRLock()


def install_locks():
    """Locks created by the package's own code become cooperative; all others
    stay real.  Called after third-party imports and before the package's."""
    threading.Lock = _make_lock
    threading.RLock = _make_rlock
