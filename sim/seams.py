"""
Installs every seam before anything of africanus (or dask) is imported:

* platform shim (numba/numpy names, prange order);
* threading.Lock/RLock/Event/Condition/Semaphore/Thread: objects created *by
  africanus or by dask.utils.SerializableLock* are hybrids that obey the
  simulator inside a simulation and behave normally outside;
* nifty_gridder (C++ package that is not installed): sim/stub_nifty.py;
* time.sleep/time/monotonic/perf_counter, timeit.default_timer: simulated
  clock when called from a simulated thread, real otherwise.
"""
import sys
import threading
import time
import timeit

from sim import platform
from sim import threads as th

OWNED = ("africanus", "dask.utils")
_installed = False

real = {}


def _owned(depth=2):
    name = sys._getframe(depth).f_globals.get("__name__", "")
    return name.startswith(OWNED)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real.update(Lock=threading.Lock, RLock=threading.RLock,
                Event=threading.Event, Condition=threading.Condition,
                Thread=threading.Thread, Semaphore=threading.Semaphore,
                BoundedSemaphore=threading.BoundedSemaphore,
                Timer=threading.Timer,
                sleep=time.sleep, time=time.time, monotonic=time.monotonic,
                perf_counter=time.perf_counter)

    def Lock():
        return th.SimLock() if _owned() else real["Lock"]()

    def RLock():
        return th.SimRLock() if _owned() else real["RLock"]()

    def Event():
        return th.SimEvent() if _owned() else real["Event"]()

    def Condition(lock=None):
        return th.SimCondition(lock) if _owned() else \
            real["Condition"](lock)

    def Semaphore(value=1):
        return th.SimSemaphore(value) if _owned() else \
            real["Semaphore"](value)

    def BoundedSemaphore(value=1):
        return th.SimSemaphore(value) if _owned() else \
            real["BoundedSemaphore"](value)

    RealThread = real["Thread"]

    class Thread(th.ThreadFacade):
        def __new__(cls, *a, **kw):
            if cls is Thread and not _owned():
                return RealThread(*a, **kw)
            return object.__new__(cls)

        def __init__(self, *a, **kw):
            # threading's own classes (_DummyThread, Timer, ...) derive from
            # the real class but look "Thread" up in the module's globals
            if isinstance(self, RealThread):
                RealThread.__init__(self, *a, **kw)
            else:
                th.ThreadFacade.__init__(self, *a, **kw)

    Thread.__name__ = "Thread"
    threading.Lock, threading.RLock = Lock, RLock
    threading.Event, threading.Condition = Event, Condition
    threading.Semaphore, threading.BoundedSemaphore = (Semaphore,
                                                       BoundedSemaphore)
    # Class-level replacement only for the names africanus may bind
    threading.Thread = Thread

    def clock(name):
        fn = real[name]

        def now():
            sim = th.active()
            return fn() if sim is None else sim.clock(name)
        now.__name__ = name
        return now

    def sleep(dt):
        sim = th.active()
        if sim is None:
            return real["sleep"](dt)
        sim.sleep(dt)

    time.sleep = sleep
    for name in ("time", "monotonic", "perf_counter"):
        setattr(time, name, clock(name))
    timeit.default_timer = time.perf_counter

    import multiprocessing
    multiprocessing.cpu_count = lambda: 1
    # threading's own machinery must keep the real primitives: it looks them
    # up as globals of its module, where _owned() is False -> real objects.
    from sim import stub_nifty
    sys.modules.setdefault("nifty_gridder", stub_nifty)
    platform.install()
