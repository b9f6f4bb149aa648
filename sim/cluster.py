"""
Simulated dask deployment.

Executes a real dask graph (built by the real africanus code and, on demand,
optimised by the real dask optimiser) on a simulated set of workers:

* ``shared``  one address space, ``k`` threads: what dask's threaded scheduler
              provides.  Blocks are handed over by reference.
* ``cluster`` several workers with private memory; tasks, arguments and
              results travel through cloudpickle; received buffers may be
              read-only; a worker can crash and lose everything it held.

Every decision (which ready task, which worker, when to pre-empt, which fault)
comes from the choice stream.
"""
import _thread
import pickle

import cloudpickle
import numpy as np

from sim.core import Violation, HarnessError, array_digest
from sim import mon
from sim import threads as th
from sim.platform import REPO

SCOPE = (REPO + "/africanus",)


class InjectedFault(MemoryError):
    """ the allocation failure / I/O error injected into a task """


FAULTS = ("crash", "task-error", "duplicate", "spill", "evict", "stall",
          "replicate")


class Config(object):
    """ swarm configuration of one run """

    def __init__(self, ch, kernels_python=True, allow_interleave=True,
                 force=None):
        self.mode = ch.pick(("shared", "cluster"))
        self.workers = ch.integer(1, 4) if self.mode == "cluster" else 1
        self.interleave = 1
        self.opcodes = False
        if allow_interleave and kernels_python and ch.flip(0.35):
            self.interleave = ch.integer(2, 3)
            self.opcodes = ch.flip(0.25)
        self.readonly = self.mode == "cluster" and ch.flip(0.5)
        self.optimize = not ch.flip(0.35)
        self.ship_tasks = self.mode == "cluster" and ch.flip(0.7)
        self.dirty = ch.pick((None, "nan", "big", "neg"))
        self.release = ch.flip(0.6)
        # swarm: subset of fault kinds
        self.enabled = [f for f in FAULTS if ch.flip(0.5)]
        if self.mode != "cluster":
            self.enabled = [f for f in self.enabled
                            if f not in ("spill", "replicate", "stall")]
        self.max_faults = ch.integer(0, 5) if self.enabled else 0
        self.p_fault = ch.pick((0.0, 0.05, 0.12, 0.3))
        if force:
            self.__dict__.update(force)

    def describe(self):
        return {k: v for k, v in sorted(self.__dict__.items())}


# ---------------------------------------------------------------------------
def walk_arrays(obj, path="", depth=0, seen=None):
    """ yield (path, ndarray) reachable through containers """
    if depth > 6:
        return
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            for i, x in enumerate(obj.ravel()):
                for r in walk_arrays(x, "%s{%d}" % (path, i), depth + 1):
                    yield r
        yield path, obj
    elif isinstance(obj, dict):
        for k in obj:
            for r in walk_arrays(obj[k], "%s[%r]" % (path, k), depth + 1):
                yield r
    elif isinstance(obj, (list, tuple)):
        for i, x in enumerate(obj):
            for r in walk_arrays(x, "%s[%d]" % (path, i), depth + 1):
                yield r


def fingerprint(obj):
    return [(p, array_digest(a)) for p, a in walk_arrays(obj)]


def same_value(a, b, rtol=1e-9):
    """ are two results of the same task interchangeable? """
    fa = list(walk_arrays(a))
    fb = list(walk_arrays(b))
    if len(fa) != len(fb):
        return False
    for (pa, x), (pb, y) in zip(fa, fb):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype == object:
            continue
        if not close(x, y, rtol):
            return False
    return True


class Tol(float):
    """ a relative tolerance with an absolute one beside it, for results in
    which terms far larger than the result cancel """
    atol = 0.0

    @classmethod
    def of(cls, rtol, floor):
        t = cls(rtol)
        t.atol = float(rtol * floor)
        return t


def close(x, y, rtol, atol=0.0):
    atol = max(atol, getattr(rtol, "atol", 0.0))
    x = np.asarray(x)
    y = np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fc" or y.dtype.kind in "fc":
        if x.size == 0:
            return True
        nx, ny = ~np.isfinite(x), ~np.isfinite(y)
        if not np.array_equal(nx, ny):
            return False
        if nx.any():
            if not np.array_equal(np.isnan(x), np.isnan(y)):
                return False
        fx, fy = x[~nx], y[~nx]
        if fx.size == 0:
            return True
        scale = max(np.abs(fx).max(), np.abs(fy).max())
        return bool(np.abs(fx - fy).max() <= rtol * scale + atol)
    return bool(np.array_equal(x, y))


def key_label(key):
    name = key[0] if isinstance(key, tuple) else key
    name = str(name)
    return name.rsplit("-", 1)[0]


def set_readonly(obj):
    for _, a in walk_arrays(obj):
        try:
            a.flags.writeable = False
        except ValueError:
            pass
    return obj


# ---------------------------------------------------------------------------
class DirtyAlloc(object):
    """ np.empty hands out seeded garbage while active """

    def __init__(self, kind):
        self.kind = kind

    def _fill(self, a):
        if a.dtype.kind in "fc":
            a[...] = {"nan": np.nan, "big": 1.0e30, "neg": -7.7e5}[self.kind]
        elif a.dtype.kind in "iu":
            info = np.iinfo(a.dtype)
            a[...] = {"nan": info.max // 3, "big": info.max,
                      "neg": info.min}[self.kind]
        elif a.dtype.kind == "b":
            a[...] = self.kind != "big"
        return a

    def __enter__(self):
        if self.kind is None:
            return self
        self.empty, self.empty_like = np.empty, np.empty_like

        def empty(*args, **kw):
            return self._fill(self.empty(*args, **kw))

        def empty_like(*args, **kw):
            return self._fill(self.empty_like(*args, **kw))

        np.empty, np.empty_like = empty, empty_like
        return self

    def __exit__(self, *a):
        if self.kind is not None:
            np.empty, np.empty_like = self.empty, self.empty_like


# ---------------------------------------------------------------------------
class Running(object):
    def __init__(self, key, worker, thread, inputs, fp, duplicate=False):
        self.key = key
        self.worker = worker
        self.thread = thread
        self.inputs = inputs
        self.fp = fp
        self.duplicate = duplicate
        self.dead = False


class SimCluster(object):
    def __init__(self, ch, trace, cfg, opname="?", check_mutation=False,
                 check_duplicate=True, observers=()):
        self.ch = ch
        self.trace = trace
        self.cfg = cfg
        self.opname = opname
        self.check_mutation = check_mutation
        self.check_duplicate = check_duplicate
        self.observers = observers
        self.executions = {}

    # -- helpers ------------------------------------------------------------
    def _transport(self, obj, what):
        """ serialise, ship, deserialise """
        try:
            blob = cloudpickle.dumps(obj, protocol=4)
            out = pickle.loads(blob)
        except Exception as e:
            raise Violation(
                "not-serialisable", "%s of %s cannot be shipped to another "
                "process: %s: %s" % (what, self.opname, type(e).__name__, e),
                "not-serialisable:%s" % self.opname)
        if self.cfg.readonly:
            set_readonly(out)
        return out

    def _order(self, dsk):
        """ graph-insertion independent canonical order of keys """
        import dask.core as dc
        deps = {k: set(dc.get_dependencies(dsk, k)) for k in dsk}
        # Kahn with deterministic tie break on (label, index) - never on the
        # token, which depends on nothing random but is opaque.
        index = {}

        def sort_key(k):
            if isinstance(k, tuple):
                return (key_label(k), tuple(str(x) for x in k[1:]), str(k))
            return (key_label(k), (), str(k))
        for i, k in enumerate(sorted(dsk, key=sort_key)):
            index[k] = i
        return deps, index

    # -- main ---------------------------------------------------------------
    def get(self, dsk, keys):
        """ execute graph, return {key: value} for flat list keys """
        with DirtyAlloc(self.cfg.dirty):
            if self.cfg.dirty is not None:
                self.trace.faults["dirty-memory"] = \
                    self.trace.faults.get("dirty-memory", 0) + 1
            return self._get(dict(dsk), list(keys))

    def _get(self, dsk, keys):
        cfg, ch, trace = self.cfg, self.ch, self.trace
        deps, index = self._order(dsk)
        for k in keys:
            if k not in dsk:
                raise Violation("bad-graph", "output key %s missing from the "
                                "graph of %s" % (str(k), self.opname),
                                "bad-graph:%s" % self.opname)
        order = sorted(dsk, key=lambda k: index[k])
        dependents = {k: set() for k in dsk}
        for k, ds in deps.items():
            for d in ds:
                dependents[d].add(k)

        stores = [dict() for _ in range(cfg.workers)]
        stalled = [0] * cfg.workers
        client = {}
        running = []
        nfault = 0
        # generous: every execution of every task, every fault may cause a
        # complete recomputation
        budget = (len(dsk) + 2) * (cfg.max_faults * 2 + 3) * 4
        budget_runs = 0
        sim = th.Simulation(ch, trace, opcodes=cfg.opcodes,
                            preempt=cfg.interleave > 1)
        prev_cur, th._current = th._current, sim
        literal = {}
        graph_fp = {}
        if self.check_mutation and cfg.mode == "shared":
            graph_fp = {k: fingerprint(self._task_literals(dsk[k]))
                        for k in dsk}

        def have(k):
            return any(k in s for s in stores)

        def wanted():
            need, stack = set(), [k for k in keys if k not in client]
            run_keys = {r.key for r in running if not r.dead}
            while stack:
                k = stack.pop()
                if k in need:
                    continue
                need.add(k)
                if have(k) or k in run_keys:
                    continue
                stack.extend(deps[k])
            return {k for k in need if not have(k) and k not in run_keys}

        def fetch(k, w):
            """ value of k as seen on worker w """
            if k in stores[w]:
                return stores[w][k]
            src = [i for i in range(cfg.workers) if k in stores[i]]
            s = src[ch.draw(len(src))] if len(src) > 1 else src[0]
            val = self._transport(stores[s][k], "result " + key_label(k))
            stores[w][k] = val
            trace.log("xfer", index[k], s, w)
            trace.probe("transfers")
            return val

        def begin(k, w, duplicate=False):
            task = dsk[k]
            if cfg.ship_tasks:
                task = self._transport(task, "task " + key_label(k))
            inputs = {d: fetch(d, w) for d in sorted(deps[k],
                                                     key=lambda x: index[x])}
            fp = fingerprint([inputs[d] for d in sorted(
                inputs, key=lambda x: index[x])]) \
                if self.check_mutation else None
            self.executions[k] = self.executions.get(k, 0) + 1
            for ob in self.observers:
                ob("start", k, task, running)
            trace.log("start", index[k], key_label(k), "w%d" % w,
                      "dup" if duplicate else "")
            trace.step(("s", index[k], w))
            return task, inputs, fp

        def execute(task, inputs):
            import dask.core as dc
            return dc._execute_task(task, inputs)

        def end(k, w, inputs, fp, value, duplicate):
            trace.log("end", index[k], "w%d" % w,
                      *[d for _, d in fingerprint(value)])
            trace.sim_time += 1.0
            for ob in self.observers:
                ob("end", k, None, running)
            if self.check_mutation and fp is not None:
                after = fingerprint([inputs[d] for d in sorted(
                    inputs, key=lambda x: index[x])])
                if after != fp:
                    bad = [a[0] for a, b in zip(fp, after) if a != b]
                    raise Violation(
                        "input-mutated", "task %s of %s modified its input "
                        "block(s) %s" % (key_label(k), self.opname, bad[:3]),
                        "input-mutated:%s" % self.opname)
            if self.check_duplicate:
                for s in stores:
                    if k in s and not same_value(s[k], value):
                        raise Violation(
                            "not-idempotent", "re-executing task %s of %s "
                            "gave a different result" % (key_label(k),
                                                         self.opname),
                            "not-idempotent:%s" % self.opname)
            if not (duplicate and have(k)):
                stores[w][k] = value

        def failed(k, exc):
            if isinstance(exc, (InjectedFault, th.SimCrash)):
                return
            if isinstance(exc, (Violation, HarnessError)):
                raise exc
            e = exc
            while e is not None:
                # wrapped (raise ... from injected)
                e = e.__cause__ or e.__context__
                if isinstance(e, (InjectedFault, th.SimCrash)):
                    return
            raise Violation(
                "task-raised", "task %s of %s raised %s: %s"
                % (key_label(k), self.opname, type(exc).__name__,
                   str(exc)[:300]),
                "task-raised:%s:%s" % (self.opname, type(exc).__name__))

        def run_atomic(k, w, inject=None, duplicate=False):
            task, inputs, fp = begin(k, w, duplicate)
            try:
                if inject is not None:
                    value = self._with_injection(
                        lambda: execute(task, inputs), inject)
                else:
                    value = execute(task, inputs)
            except Exception as e:          # noqa
                if inject is None:
                    failed(k, e)
                else:
                    trace.log("task-error", index[k], type(e).__name__)
                    if not isinstance(e, InjectedFault):
                        failed(k, e)
                    # the failed attempt must not have damaged its inputs
                    self._after_failure(k, inputs, fp, index)
                return
            end(k, w, inputs, fp, value, duplicate)

        def start_thread(k, w, duplicate=False):
            task, inputs, fp = begin(k, w, duplicate)
            t = sim.spawn(lambda: execute(task, inputs), "x%d" % index[k])
            running.append(Running(k, w, t, inputs, fp, duplicate))

        def reap():
            for r in list(running):
                if r.thread.done:
                    running.remove(r)
                    if r.dead:
                        trace.log("lost", index[r.key])
                        continue
                    if r.thread.exc is not None:
                        trace.log("task-error", index[r.key],
                                  type(r.thread.exc).__name__)
                        failed(r.key, r.thread.exc)
                        self._after_failure(r.key, r.inputs, r.fp, index)
                        continue
                    end(r.key, r.worker, r.inputs, r.fp, r.thread.result,
                        r.duplicate)

        def crash(w):
            trace.fault("crash", "w%d" % w, len(stores[w]), "keys")
            stores[w].clear()
            for r in running:
                if r.worker == w and not r.dead:
                    r.dead = True
                    r.thread.inject = th.SimCrash()

        try:
            while True:
                # deliver finished outputs to the client
                for k in keys:
                    if k not in client and have(k):
                        w = [i for i in range(cfg.workers)
                             if k in stores[i]][0]
                        v = stores[w][k]
                        client[k] = (v if cfg.mode == "shared" else
                                     self._transport(v, "result"))
                if all(k in client for k in keys) and not running:
                    break
                if all(k in client for k in keys):
                    want = set()
                else:
                    want = wanted()
                ready = [k for k in order if k in want and
                         all(have(d) for d in deps[k])]
                for i in range(cfg.workers):
                    if stalled[i]:
                        stalled[i] -= 1
                eligible = [w for w in range(cfg.workers) if not stalled[w]]
                if not eligible:
                    stalled = [0] * cfg.workers
                    eligible = list(range(cfg.workers))

                # fault?
                if (nfault < cfg.max_faults and cfg.enabled and
                        cfg.p_fault and ch.flip(cfg.p_fault)):
                    kind = ch.pick(cfg.enabled)
                    if self._fault(kind, stores, stalled, running, ready,
                                   eligible, keys, client, crash, run_atomic,
                                   start_thread, index, have, deps, dsk):
                        nfault += 1
                    reap()
                    continue

                choices = []
                if ready and len(running) < max(cfg.interleave, 1):
                    choices.append("start")
                live = [r for r in running if sim._runnable(r.thread)]
                if live:
                    choices.append("step")
                if not choices:
                    raise Violation("stuck", "%s: nothing can run but outputs "
                                    "are missing" % self.opname,
                                    "stuck:%s" % self.opname)
                what = choices[ch.draw(len(choices))]
                if what == "start":
                    budget_runs += 1
                    if budget_runs > budget:
                        raise Violation(
                            "no-progress", "%s: %d executions without "
                            "completing %d tasks" % (self.opname,
                                                     budget_runs, len(dsk)),
                            "no-progress:%s" % self.opname)
                    k = ready[ch.draw(len(ready))]
                    w = eligible[ch.draw(len(eligible))]
                    if cfg.interleave > 1:
                        start_thread(k, w)
                    else:
                        run_atomic(k, w)
                else:
                    r = live[ch.draw(len(live))]
                    r.thread.quantum = ch.pick(
                        (1, 2, 3, 5, 9, 17, 40, 150)
                        if len(live) > 1 or ready else (1000000,))
                    sim.steps += 1
                    trace.step(("r", index[r.key]))
                    sim._release(r.thread)
                    reap()

                if cfg.release:
                    self._release_refs(stores, keys, client, deps, dependents,
                                       running, have, dsk)
        finally:
            sim.stop()
            th._current = prev_cur

        if self.check_mutation and cfg.mode == "shared":
            for k in order:
                if fingerprint(self._task_literals(dsk[k])) != graph_fp[k]:
                    raise Violation(
                        "input-mutated", "computing %s modified data embedded "
                        "in its graph (%s), i.e. the caller's arrays"
                        % (self.opname, key_label(k)),
                        "input-mutated:%s" % self.opname)
        return client

    # -----------------------------------------------------------------------
    @staticmethod
    def _task_literals(task):
        return task

    def _after_failure(self, k, inputs, fp, index):
        if fp is None:
            return
        after = fingerprint([inputs[d] for d in sorted(
            inputs, key=lambda x: index[x])])
        if after != fp:
            raise Violation(
                "input-mutated", "failed attempt of task %s of %s left its "
                "input blocks modified" % (key_label(k), self.opname),
                "input-mutated:%s" % self.opname)

    def _with_injection(self, fn, nlines):
        count = [nlines]
        fired = [False]

        def point(code, where):
            count[0] -= 1
            if mon.may_inject(code, where) and count[0] <= 0 and not fired[0]:
                fired[0] = True
                raise InjectedFault("injected allocation failure")

        ident = _thread.get_ident()
        old = mon.handlers.get(ident)
        mon.handlers[ident] = point
        try:
            fn()
        finally:
            if old is None:
                mon.handlers.pop(ident, None)
            else:
                mon.handlers[ident] = old
        # finished before the injection point: result is lost on the way
        raise InjectedFault("result lost")

    def _fault(self, kind, stores, stalled, running, ready, eligible, keys,
               client, crash, run_atomic, start_thread, index, have, deps,
               dsk):
        ch, cfg, trace = self.ch, self.cfg, self.trace
        if kind == "crash":
            w = ch.draw(cfg.workers)
            busy = any(r.worker == w for r in running)
            if not stores[w] and not busy:
                return False
            crash(w)
            return True
        if kind == "task-error":
            if running and ch.flip(0.5):
                r = running[ch.draw(len(running))]
                if r.dead or r.thread.done:
                    return False
                r.thread.inject = InjectedFault("injected")
                trace.fault("task-error", index[r.key], "mid-flight")
                return True
            if not ready or len(running) >= cfg.interleave > 1:
                return False
            k = ready[ch.draw(len(ready))]
            w = eligible[ch.draw(len(eligible))]
            trace.fault("task-error", index[k])
            run_atomic(k, w, inject=1 + ch.draw(60))
            return True
        if kind == "duplicate":
            done = [k for k in sorted(index, key=lambda x: index[x])
                    if have(k) and all(have(d) for d in deps[k])]
            if not done:
                return False
            k = done[ch.draw(len(done))]
            w = eligible[ch.draw(len(eligible))]
            trace.fault("duplicate", index[k])
            if cfg.interleave > 1 and len(running) < cfg.interleave:
                start_thread(k, w, duplicate=True)
            else:
                run_atomic(k, w, duplicate=True)
            return True
        if kind == "spill":
            ws = [w for w in range(cfg.workers) if stores[w]]
            if not ws:
                return False
            w = ws[ch.draw(len(ws))]
            ks = sorted(stores[w], key=lambda x: index[x])
            k = ks[ch.draw(len(ks))]
            stores[w][k] = self._transport(stores[w][k], "spilled value")
            trace.fault("spill", index[k], "w%d" % w)
            return True
        if kind == "evict":
            ws = [w for w in range(cfg.workers) if stores[w]]
            if not ws:
                return False
            w = ws[ch.draw(len(ws))]
            ks = sorted(stores[w], key=lambda x: index[x])
            k = ks[ch.draw(len(ks))]
            del stores[w][k]
            trace.fault("evict", index[k], "w%d" % w)
            return True
        if kind == "stall":
            w = ch.draw(cfg.workers)
            stalled[w] = 1 + ch.draw(8)
            trace.fault("stall", "w%d" % w, stalled[w])
            return True
        if kind == "replicate":
            ks = [k for k in sorted(index, key=lambda x: index[x])
                  if have(k)]
            if not ks:
                return False
            k = ks[ch.draw(len(ks))]
            w = ch.draw(cfg.workers)
            src = [i for i in range(cfg.workers) if k in stores[i]][0]
            if k not in stores[w]:
                stores[w][k] = self._transport(stores[src][k], "replica")
            trace.fault("replicate", index[k], "w%d" % w)
            return True
        raise HarnessError("unknown fault %s" % kind)

    def _release_refs(self, stores, keys, client, deps, dependents, running,
                      have, dsk):
        inuse = set()
        for r in running:
            inuse.update(deps[r.key])
            inuse.add(r.key)
        need, stack = set(), [k for k in keys if k not in client]
        while stack:
            k = stack.pop()
            if k in need:
                continue
            need.add(k)
            if not have(k):
                stack.extend(deps[k])
        for s in stores:
            for k in [k for k in s if k not in need and k not in inuse]:
                del s[k]


# ---------------------------------------------------------------------------
def compute(ch, trace, cfg, collections, opname="?", metadata=False, **kw):
    """ dask.compute(*collections) on the simulated deployment """
    import dask
    from dask.base import collections_to_dsk
    cluster = SimCluster(ch, trace, cfg, opname, **kw)
    with dask.config.set(scheduler="sync"):
        try:
            dsk = collections_to_dsk(collections,
                                     optimize_graph=cfg.optimize)
            dsk = dict(dsk)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("graph-raised", "building the graph of %s raised "
                            "%s: %s" % (opname, type(e).__name__, e),
                            "graph-raised:%s" % opname)
    flat = []

    def flatten(x):
        if isinstance(x, list):
            for y in x:
                flatten(y)
        else:
            flat.append(x)

    nested = [c.__dask_keys__() for c in collections]
    flatten(nested)
    values = cluster.get(dsk, list(dict.fromkeys(flat)))

    def rebuild(x):
        if isinstance(x, list):
            return [rebuild(y) for y in x]
        return values[x]

    out = []
    for c, keys in zip(collections, nested):
        if metadata:
            check_blocks(c, keys, values, opname)
        fin, extra = c.__dask_postcompute__()
        try:
            out.append(fin(rebuild(keys), *extra))
        except Exception as e:
            raise Violation("assemble-raised", "blocks of %s cannot be "
                            "assembled: %s: %s" % (opname, type(e).__name__,
                                                   e),
                            "assemble-raised:%s" % opname)
    return out, cluster


def check_blocks(c, keys, values, opname):
    """ declared metadata must describe the computed blocks """
    import dask.array as da
    if not isinstance(c, da.Array):
        return
    flat = []

    def flatten(x):
        if isinstance(x, list):
            for y in x:
                flatten(y)
        else:
            flat.append(x)
    flatten(keys)
    for k in flat:
        v = values[k]
        if not isinstance(v, np.ndarray):
            continue
        idx = k[1:]
        want = tuple(ch[i] for ch, i in zip(c.chunks, idx))
        if len(want) != v.ndim:
            raise Violation("metadata", "%s: block %s has %d dims, declared "
                            "%d" % (opname, idx, v.ndim, len(want)),
                            "metadata-ndim:%s" % opname)
        for w, s in zip(want, v.shape):
            if w == w and w != s:
                raise Violation(
                    "metadata", "%s: block %s has shape %s but the collection "
                    "declares %s" % (opname, idx, v.shape, want),
                    "metadata-shape:%s" % opname)
        if c.dtype is not None and v.dtype != c.dtype:
            raise Violation(
                "metadata", "%s: block %s has dtype %s but the collection "
                "declares %s" % (opname, idx, v.dtype, c.dtype),
                "metadata-dtype:%s" % opname)
