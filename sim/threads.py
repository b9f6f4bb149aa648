"""
Deterministic thread simulator.

Real OS threads, but exactly one is ever running: every simulated thread is
parked on a private semaphore and released by the scheduler, which picks the
next runnable thread from the choice stream.  Threads yield

* at every intercepted synchronisation point (SimLock, SimEvent, SimCondition,
  sleep, join, ...), and
* between any two source lines (or any two bytecodes) of the code under test
  (see sim/mon.py).

A clock (``now``) advances only when the scheduler says so: when every thread
is blocked on time, it jumps to the earliest deadline.
"""
import sys
import threading as _real
import _thread

from sim import mon
from sim.core import HarnessError, Violation

def _Semaphore(_zero=0):
    """ binary semaphore, initially taken """
    lock = _thread.allocate_lock()
    lock.acquire()
    return lock


_get_ident = _thread.get_ident

WALL_LIMIT = 120.0
# source lines after taking a lock at which no exception is injected: between
# "lock.acquire()" and "try:" no program can defend itself
GRACE = 3


class SimCrash(BaseException):
    """ the simulated process/worker died at this point """


class SimAbort(BaseException):
    """ simulation is over, unwind """


_current = None     # the active Simulation


def active():
    sim = _current
    if sim is None:
        return None
    return sim if sim.me() is not None else None


class SimThread(object):
    def __init__(self, sim, fn, name, daemon=False, traced=True):
        self.sim = sim
        self.fn = fn
        self.name = name
        self.daemon = daemon
        self.traced = traced
        self.sem = _Semaphore(0)
        self.done = False
        self.started = False
        self.result = None
        self.exc = None
        self.waiting = None     # predicate, or None if runnable
        self.deadline = None    # simulated time at which wait expires
        self.expired = False
        self.inject = None      # exception to raise at next yield
        self.lines = 0
        self.quantum = 0
        self.os = None
        self.in_critical = 0
        self.grace = 0
        self.held = []          # locks taken (those of a crashed process go)

    def __repr__(self):
        return self.name


class Simulation(object):
    def __init__(self, ch, trace, scope=(), opcodes=False, max_steps=200000,
                 preempt=True, quantum=(1, 2, 3, 5, 9, 17, 40), scope_not=(),
                 on_deadlock=None, line_hook=None, start=0.0):
        self.ch = ch
        self.trace = trace
        self.scope = tuple(scope)
        self.scope_not = tuple(scope_not)
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.preempt = preempt
        self.quantum = quantum
        self.threads = []
        self.idents = {}
        self.now = start
        self.steps = 0
        self.main = _Semaphore(0)
        self.failure = None
        self.aborting = False
        self.line_hook = line_hook
        self.fixed_dt = 0.0
        self.pre_step = None
        self.clock_hook = None
        mon.want("op" if opcodes else "line")

    # -- identity -----------------------------------------------------------
    def me(self):
        return self.idents.get(_get_ident())

    def clock(self, name):
        """ simulated clock as read by the code under test """
        if self.clock_hook is not None:
            return self.clock_hook(name)
        return self.now + (1.7e9 if name == "time" else 0.0)

    # -- thread creation ----------------------------------------------------
    def spawn(self, fn, name=None, daemon=False, traced=True):
        t = SimThread(self, fn, name or "t%d" % len(self.threads), daemon,
                      traced)
        self.threads.append(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        self.idents[_get_ident()] = t
        t.sem.acquire()
        try:
            if not self.aborting:
                if t.traced:
                    mon.handlers[_get_ident()] = self._point
                try:
                    t.result = t.fn()
                finally:
                    mon.handlers.pop(_get_ident(), None)
        except SimAbort:
            pass
        except SimCrash as e:
            t.exc = e
            for lock in t.held:     # they were the dead process' locks
                if lock._owner is t:
                    lock._owner, lock._count = None, 0
        except BaseException as e:      # noqa
            t.exc = e
        t.done = True
        self.idents.pop(_get_ident(), None)
        self.main.release()

    # -- pre-emption points -------------------------------------------------
    def _point(self, code, where):
        """ a simulated thread is about to execute a line (bytecode) """
        if self.scope_not and code.co_filename.startswith(self.scope_not):
            return
        t = self.me()
        if t is None:
            return
        if self.aborting:
            raise SimAbort()
        t.lines += 1
        if self.line_hook is not None:
            self.line_hook(t, code, where)
        if t.grace and where >= 0:
            t.grace -= 1
        if t.inject is not None and not t.grace and \
                where not in mon.unsafe(code):
            exc, t.inject = t.inject, None
            raise exc
        if self.preempt:
            t.quantum -= 1
            if t.quantum <= 0:
                self._yield(t, where in mon.unsafe(code))

    # -- yielding -----------------------------------------------------------
    def _yield(self, t, hold=False):
        self.main.release()
        t.sem.acquire()
        if self.aborting:
            raise SimAbort()
        if not hold and t.inject is not None and not t.grace:
            exc, t.inject = t.inject, None
            raise exc

    def yield_point(self):
        t = self.me()
        if t is not None:
            self._yield(t)

    def block(self, predicate, timeout=None):
        """ park until predicate() is true or timeout simulated seconds """
        t = self.me()
        if t is None:
            raise HarnessError("block() outside a simulated thread")
        t.waiting = predicate
        t.deadline = None if timeout is None else self.now + max(timeout, 0)
        t.expired = False
        try:
            self._yield(t)
        finally:
            t.waiting = None
            t.deadline = None
        return not t.expired

    def sleep(self, dt):
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        self.block(lambda: False, timeout=dt)

    # -- scheduler ----------------------------------------------------------
    def _runnable(self, t):
        if t.done:
            return False
        if t.inject is not None and not t.grace:
            return True
        if t.waiting is None:
            return True
        if t.waiting():
            return True
        if t.deadline is not None and t.deadline <= self.now:
            t.expired = True
            return True
        return False

    def run(self, until=None):
        """ run until all non-daemon threads are done (or until() is true) """
        global _current
        prev, _current = _current, self
        try:
            while True:
                if until is not None and until():
                    break
                if until is None and all(t.done or t.daemon
                                         for t in self.threads):
                    break
                ready = [t for t in self.threads if self._runnable(t)]
                if not ready:
                    dl = [t.deadline for t in self.threads
                          if not t.done and t.deadline is not None]
                    if not dl:
                        raise Violation(
                            "deadlock", "no runnable thread: %s" % (
                                [t.name for t in self.threads
                                 if not t.done],), "deadlock")
                    self.now = max(self.now, min(dl))
                    continue
                if self.pre_step is not None:
                    self.pre_step(ready)
                    ready = [t for t in self.threads if self._runnable(t)]
                    if not ready:
                        continue
                t = ready[self.ch.draw(len(ready))] if len(ready) > 1 \
                    else ready[0]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Violation(
                        "no-progress", "step budget %d exhausted; live: %s"
                        % (self.max_steps, [x.name for x in self.threads
                                            if not x.done]), "no-progress")
                if self.preempt:
                    t.quantum = self.ch.pick(self.quantum) \
                        if len(ready) > 1 else max(self.quantum)
                self.trace.step(t.name)
                self.now += self.fixed_dt
                self._release(t)
                if isinstance(t.exc, HarnessError):
                    raise t.exc
            return self
        finally:
            self.stop()
            _current = prev

    def _release(self, t):
        if t.waiting is not None and not t.expired and t.inject is None:
            # woken because the predicate holds
            pass
        t.sem.release()
        if not self.main.acquire(timeout=WALL_LIMIT):
            raise HarnessError("real deadlock: thread %s did not yield"
                               % t.name)

    def stop(self):
        """ unwind every thread still alive """
        self.aborting = True
        for t in self.threads:
            n = 0
            while not t.done:
                t.sem.release()
                if not self.main.acquire(timeout=WALL_LIMIT):
                    raise HarnessError("cannot unwind %s" % t.name)
                n += 1
                if n > 10000:
                    raise HarnessError("thread %s refuses to unwind" % t.name)


# ---------------------------------------------------------------------------
# Synchronisation primitives.  Outside a simulation they behave like the real
# ones (single-threaded fall back on real locks).
# ---------------------------------------------------------------------------
_rlock = _real.RLock
_lock = _thread.allocate_lock


class SimLock(object):
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._outside = _lock()

    def acquire(self, blocking=True, timeout=-1):
        sim = active()
        if sim is None:
            if self.reentrant and self._owner == ("os", _get_ident()):
                self._count += 1
                return True
            ok = self._outside.acquire(blocking, timeout)
            if ok:
                self._owner, self._count = ("os", _get_ident()), 1
                mon.grace[_get_ident()] = GRACE
            return ok
        me = sim.me()
        sim.yield_point()
        if self._owner is me:
            if self.reentrant:
                self._count += 1
                return True
        if self._owner is not None:
            if not blocking:
                return False
            ok = sim.block(lambda: self._owner is None,
                           None if timeout is None or timeout < 0
                           else timeout)
            if not ok and self._owner is not None:
                return False
        self._owner, self._count = me, 1
        me.grace = GRACE
        me.held.append(self)
        return True

    def release(self):
        sim = active()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if isinstance(self._owner, tuple):
            self._count -= 1
            if self._count == 0:
                self._owner = None
                self._outside.release()
            return
        if self.reentrant and sim is not None and self._owner is not sim.me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        if sim is not None:
            sim.yield_point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # Condition support
    def _is_owned(self):
        sim = active()
        if sim is None:
            return isinstance(self._owner, tuple) and \
                self._owner == ("os", _get_ident())
        return self._owner is sim.me()

    def __reduce__(self):
        raise TypeError("cannot pickle 'lock' object")


class SimRLock(SimLock):
    reentrant = True


class SimEvent(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        sim = active()
        if sim is not None:
            sim.yield_point()
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        sim = active()
        if sim is not None:
            sim.yield_point()

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        sim = active()
        if sim is None:
            if not self._flag and timeout is None:
                raise HarnessError("wait outside simulation would block")
            return self._flag
        sim.block(lambda: self._flag, timeout)
        return self._flag


class SimCondition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self._waiters = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        sim = active()
        if sim is None:
            raise HarnessError("wait outside simulation would block")
        token = [False]
        self._waiters.append(token)
        saved = self._lock._count
        self._lock._count = 0
        self._lock._owner = None
        ok = sim.block(lambda: token[0], timeout)
        if token in self._waiters:
            self._waiters.remove(token)
        self._lock.acquire()
        self._lock._count = saved
        return ok

    def wait_for(self, predicate, timeout=None):
        result = predicate()
        while not result:
            if not self.wait(timeout):
                return predicate()
            result = predicate()
        return result

    def notify(self, n=1):
        for token in self._waiters[:n]:
            token[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class SimSemaphore(object):
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        sim = active()
        if sim is not None:
            sim.yield_point()
            if self._value <= 0:
                if not blocking:
                    return False
                sim.block(lambda: self._value > 0, timeout)
        if self._value <= 0:
            return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        sim = active()
        if sim is not None:
            sim.yield_point()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class ThreadFacade(object):
    """ stands in for threading.Thread inside the code under test """

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self._name = name or "thread"
        self.daemon = bool(daemon)
        self._t = None

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = v

    def setDaemon(self, v):
        self.daemon = v

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sim = active() or _current
        if sim is None:
            self._done = [False]

            def body():
                try:
                    self.run()
                finally:
                    self._done[0] = True
            self._t = self
            _thread.start_new_thread(body, ())
            return
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        self._t = sim.spawn(self.run, "%s-%d" % (self._name,
                                                 len(sim.threads)),
                            daemon=True)
        self._t.facade = self
        sim.facades = getattr(sim, "facades", []) + [self]
        if active() is not None:
            sim.yield_point()

    @property
    def done(self):
        return self._done[0]

    def is_alive(self):
        return self._t is not None and not self._t.done

    isAlive = is_alive

    def join(self, timeout=None):
        sim = active()
        if self._t is None:
            raise RuntimeError("cannot join thread before it is started")
        if sim is None:
            return
        if sim.me() is self._t:
            raise RuntimeError("cannot join current thread")
        sim.block(lambda: self._t.done, timeout)

    @property
    def ident(self):
        return id(self._t) if self._t else None


