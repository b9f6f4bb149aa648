"""
Properties that cut across operators.
"""
import os
import pickle
import _thread

import dask
import numpy as np

from props import eager, ops
from props.equiv import build, compare, config_for, prange_shuffle
from sim import mon, platform
from sim.cluster import Config, DirtyAlloc, close, compute, fingerprint
from sim.core import Choices, Discard, HarnessError, Violation
from sim.threads import Simulation


class Injected(MemoryError):
    """ allocation failure injected at a source line """


class Interrupted(KeyboardInterrupt):
    """ Ctrl-C at a source line """


# ---------------------------------------------------------------------------
def draw_scenario(ch, pool):
    """ (scenario, generator, choices it consumed) """
    gen = ch.pick(pool)
    a = len(ch.record)
    sc = gen(ch)
    return sc, gen, ch.record[a:]


def neighbour(ch, gen, record):
    """ the same problem with one or two generator decisions changed """
    rec = list(record)
    for _ in range(1 + ch.draw(2)):
        if rec:
            i = ch.draw(len(rec))
            rec[i] = ch.draw(8) if rec[i] < 8 else rec[i] ^ (1 + ch.draw(7))
    return gen(Choices(replay=rec))


def sibling(ch, sc, one=False):
    """ the same shapes, chunks and options with other values in one or more
    arrays """
    import copy
    names = sorted(k for k, v in sc.inputs.items()
                   if v.dtype.kind in "fcb" or v.dtype == np.uint8)
    flags = [k for k in names if sc.inputs[k].dtype.kind in "bu"]
    if len(flags) > 1:          # they have to agree with each other
        names = [k for k in names if k not in flags]
    if not names:
        raise Discard()
    first = ch.draw(len(names))
    new = copy.copy(sc)
    new.inputs = dict(sc.inputs)
    for i, k in enumerate(names):
        if i != first and (one or ch.flip(0.5)):
            continue
        v = sc.inputs[k]
        if v.dtype.kind == "b":
            new.inputs[k] = ~v
        elif v.dtype == np.uint8:
            new.inputs[k] = (v == 0).astype(np.uint8)
        else:
            new.inputs[k] = (v * v.dtype.type(0.96875)).astype(v.dtype)
    new.params = dict(sc.params, other_values=names[first])
    return new


def exchanged(ch, sc):
    """ two arrays of the same form in each other's place """
    import copy
    form = {}
    for k in sorted(sc.inputs):
        v = sc.inputs[k]
        if v.dtype.kind in "fc" and k not in ("time", "interval"):
            form.setdefault((v.shape, v.dtype, sc.chunks[k]), []).append(k)
    form = [form[f] for f in sorted(form, key=str) if len(form[f]) > 1]
    if not form:
        raise Discard()
    names = ch.pick(form)
    i = ch.draw(len(names))
    j = (i + 1 + ch.draw(len(names) - 1)) % len(names)
    a, b = names[i], names[j]
    new = copy.copy(sc)
    new.inputs = dict(sc.inputs)
    new.inputs[a], new.inputs[b] = sc.inputs[b], sc.inputs[a]
    new.params = dict(sc.params, exchanged=(a, b))
    return new


def describe(trace, sc):
    trace.log("op", sc.name, sorted(sc.params.items(), key=str))
    trace.probe("op " + sc.name)
    trace.step(sc.name)


def check_inputs(sc, inputs, before, what):
    for k in sorted(inputs):
        if fingerprint(inputs[k]) != before[k]:
            raise Violation(
                "input-mutated", "%s modified its argument '%s' (%s)"
                % (sc.name, k, what), "input-mutated:%s" % sc.name)


def fingerprints(inputs):
    return {k: fingerprint(v) for k, v in inputs.items()}


class injected(object):
    """ raise exc at the n-th pre-emption point of the calling thread """

    def __init__(self, n, exc, mode="line"):
        self.n, self.exc, self.fired = n, exc, None
        self.mode = mode

    def __enter__(self):
        mon.want(self.mode)
        self.ident = _thread.get_ident()
        self.old = mon.handlers.get(self.ident)

        def point(code, where):
            self.n -= 1
            if mon.may_inject(code, where) and self.n <= 0 and \
                    self.fired is None:
                self.fired = "%s:%s" % (os.path.basename(code.co_filename),
                                        code.co_name)
                raise self.exc
        mon.handlers[self.ident] = point
        return self

    def __exit__(self, *a):
        if self.old is None:
            mon.handlers.pop(self.ident, None)
        else:
            mon.handlers[self.ident] = self.old


def elsewhere(fn):
    """ fn() evaluated in a copy of this process: what it caches, initialises
    or breaks stays there """
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("error", e)
            try:
                data = pickle.dumps(out)
            except Exception:
                data = pickle.dumps(("error", RuntimeError(repr(out[1]))))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation("process-died", "the process died during a call",
                        "process-died")
    kind, val = pickle.loads(data)
    if kind == "error":
        raise val
    return val


def count_points(fn, mode="line"):
    n = [0]
    mon.want(mode)
    ident = _thread.get_ident()
    old = mon.handlers.get(ident)

    def point(code, where):
        n[0] += 1
    mon.handlers[ident] = point
    try:
        out = fn()
    finally:
        if old is None:
            mon.handlers.pop(ident, None)
        else:
            mon.handlers[ident] = old
    return out, n[0]


def is_injected(e):
    while e is not None:
        if isinstance(e, (Injected, Interrupted)):
            return True
        e = e.__cause__ or e.__context__
    return False


# ---------------------------------------------------------------------------
def inputs_untouched(ch, trace):
    lazy = ch.flip(0.5)
    sc, gen, rec = draw_scenario(ch, eager.LAZY if lazy else eager.ALL)
    describe(trace, sc)
    want = sc.reference(sc.copies())
    mine = sc.copies()
    before = fingerprints(mine)
    if lazy:
        force = {}
        if ch.flip(0.7):
            force = dict(mode="shared", workers=1, readonly=False,
                         ship_tasks=False)
        cfg = config_for(ch, sc, **force)
        if cfg.mode == "shared":
            cfg.enabled = [f for f in cfg.enabled
                           if f not in ("spill", "replicate", "stall")]
        trace.log("config", sorted(cfg.describe().items(), key=str))
        cols = build(sc, mine)
        chain = getattr(sc, "inplace_chain", False)
        got, _ = compute(ch, trace, cfg, cols, sc.name,
                         check_mutation=not chain)
        check_inputs(sc, mine, before, "computed lazily")
        compare(sc.name, "the single-process result", got, want, sc.rtol)
        return
    how = ch.pick(("plain", "readonly", "failing", "readonly-failing",
                   "again"))
    trace.log("eager", how)
    if how.startswith("readonly"):
        for a in mine.values():
            a.flags.writeable = False
        trace.fault("read-only buffer")
    if how.endswith("failing"):
        _, n = count_points(lambda: sc.reference(sc.copies()))
        if not n:
            raise Discard()
        at = 1 + ch.draw(n)
        inj = injected(at, ch.pick((Injected, Interrupted))("injected"))
        try:
            with inj:
                sc.reference(mine)
        except (Injected, Interrupted):
            trace.fault("exception", inj.fired)
        except Exception as e:
            if not is_injected(e):
                raise
        trace.step(("x", at))
        check_inputs(sc, mine, before, "by a call that failed at %s"
                     % inj.fired)
    got = sc.reference(mine)
    check_inputs(sc, mine, before, "called directly")
    compare(sc.name, "the result for a fresh copy of the same arrays", got,
            want, sc.rtol)
    if how == "again":
        got = sc.reference(mine)
        compare(sc.name, "the first result for the same arrays", got, want,
                sc.rtol)
    # a result must not alias the caller's arrays either way round: writing
    # to it later may not reach the arguments
    for i, g in enumerate(got):
        g = np.asarray(g)
        for k in sorted(mine):
            if g.dtype != object and g.size and mine[k].size and \
                    np.shares_memory(g, mine[k]):
                raise Violation(
                    "aliased", "output %d of %s shares memory with its "
                    "argument '%s'" % (i, sc.name, k),
                    "aliased:%s" % sc.name)


# ---------------------------------------------------------------------------
META = eager.LAZY


def metadata_true(ch, trace):
    sc, gen, rec = draw_scenario(ch, META)
    describe(trace, sc)
    cfg = config_for(ch, sc)
    trace.log("config", sorted(cfg.describe().items(), key=str))
    cols = build(sc, sc.copies())
    got, _ = compute(ch, trace, cfg, cols, sc.name, metadata=True)
    for c, g in zip(cols, got):
        g = np.asarray(g)
        if not hasattr(c, "shape"):
            continue
        if len(c.shape) != g.ndim or any(
                a == a and a != b for a, b in zip(c.shape, g.shape)):
            raise Violation("metadata", "%s declares shape %s, computed %s"
                            % (sc.name, c.shape, g.shape),
                            "metadata-shape:%s" % sc.name)
        if c.dtype != g.dtype:
            raise Violation("metadata", "%s declares dtype %s, computed %s"
                            % (sc.name, c.dtype, g.dtype),
                            "metadata-dtype:%s" % sc.name)


# ---------------------------------------------------------------------------
def joint(ch, trace):
    """ several related expressions in one graph / one history """
    sc, gen, rec = draw_scenario(ch, eager.LAZY)
    describe(trace, sc)
    all_ = [sc]
    for _ in range(1 + ch.draw(2)):
        try:
            if ch.flip(0.4):
                if ch.flip(0.3):
                    other = exchanged(ch, sc)
                else:
                    other = sibling(ch, sc, one=ch.flip(0.8))
                other.reference(other.copies())
            else:
                other = (sc.variant(ch) if sc.variant and ch.flip(0.3) else
                         neighbour(ch, gen, rec))
        except Discard:
            continue
        except Exception:       # values that the function rejects
            continue
        trace.log("with", other.name, sorted(other.params.items(), key=str))
        all_.append(other)
    wants = [s.reference(s.copies()) for s in all_]
    cfg = config_for(ch, sc)
    if any(getattr(s, "inplace_chain", False) for s in all_):
        cfg.enabled = [f for f in cfg.enabled
                       if f in ("crash", "spill", "stall")]
        cfg.release, cfg.readonly = True, False
    trace.log("config", sorted(cfg.describe().items(), key=str))
    cols, spans = [], []
    for s in all_:
        c = build(s, s.copies())
        spans.append((len(cols), len(cols) + len(c)))
        cols.extend(c)
    how = ch.pick(("together", "together", "one by one", "twice"))
    trace.log("how", how)
    def one(i):
        a, b = spans[i]
        got, _ = compute(ch, trace, cfg, cols[a:b], all_[i].name)
        compare(all_[i].name, "the same expression evaluated on its own",
                got, wants[i], all_[i].rtol)
    if how == "together":
        trace.probe("joint graphs")
        got, _ = compute(ch, trace, cfg, cols, sc.name)
        for s, w, (a, b) in zip(all_, wants, spans):
            compare(s.name, "the same expression evaluated on its own",
                    got[a:b], w, s.rtol)
    elif how == "one by one":
        for i in ch.perm(len(all_)):
            one(i)
    else:
        trace.probe("recomputed")
        for _ in range(2):
            one(0)
        for i in range(1, len(all_)):
            one(i)


# ---------------------------------------------------------------------------
def other_process(ch, trace):
    """ the graph is all a process needs that knows nothing else """
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            with os.fdopen(r1, "rb") as f:
                blob = f.read()
            if blob:
                try:
                    cols, dirty = pickle.loads(blob)
                    with dask.config.set(scheduler="sync"), \
                            DirtyAlloc(dirty):
                        out = ("ok", [np.asarray(x)
                                      for x in dask.compute(*cols)])
                except BaseException as e:      # noqa
                    out = ("raised", "%s: %s" % (type(e).__name__,
                                                 str(e)[:300]))
                with os.fdopen(w2, "wb") as f:
                    pickle.dump(out, f, protocol=4)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    blob = b""
    try:
        import cloudpickle
        sc, gen, rec = draw_scenario(ch, eager.LAZY)
        describe(trace, sc)
        want = sc.reference(sc.copies())
        cols = build(sc, sc.copies())
        dirty = ch.pick((None, "nan", "big", "neg"))
        hops = ch.draw(3)
        try:
            payload = (cols, dirty)
            for _ in range(hops):       # scheduler, spilled graph, ...
                payload = pickle.loads(cloudpickle.dumps(payload))
            blob = cloudpickle.dumps(payload, protocol=4)
        except Exception as e:
            raise Violation(
                "not-serialisable", "the lazy result of %s cannot be sent to "
                "another process: %s: %s" % (sc.name, type(e).__name__, e),
                "not-serialisable:%s" % sc.name)
    finally:
        with os.fdopen(w1, "wb") as f:
            f.write(blob)
        with os.fdopen(r2, "rb") as f:
            reply = f.read()
        os.waitpid(pid, 0)
    trace.fault("process restart", sc.name)
    trace.log("hops", hops, "dirty", dirty)
    trace.step((hops, dirty, sorted(sc.params.items(), key=str)))
    if not reply:
        raise Violation("process-died", "the process computing %s died"
                        % sc.name, "process-died:%s" % sc.name)
    status, val = pickle.loads(reply)
    if status != "ok":
        raise Violation("raised", "computing %s in another process failed: "
                        "%s" % (sc.name, val), "other-process:%s" % sc.name)
    compare(sc.name, "the single-process result", val, want, sc.rtol)


# ---------------------------------------------------------------------------
def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and close(a, b, 1e-12)


# operations that bring graphs of their own
GRAPHS = [ops.nifty_grid] * 4 + [ops.nifty_degrid, ops.predict_vis,
                                 ops.wsclean_predict, ops.averaging]


def concurrent(ch, trace):
    """ caller threads sharing one process """
    nthread = ch.integer(2, 3)
    lazy = ch.flip(0.25)
    pool = eager.LAZY + GRAPHS if lazy else eager.ALL
    sc, gen, rec = draw_scenario(ch, pool)
    scs = [sc]
    for _ in range(nthread - 1):
        kind = ch.pick(("same", "neighbour", "same-op", "any", "values",
                        "values") + ("same",) * 4 * lazy)
        try:
            if kind == "same":
                scs.append(sc)
            elif kind == "values":
                other = sibling(ch, sc)
                try:
                    elsewhere(lambda: other.reference(other.copies()))
                except Violation:
                    raise
                except Exception:   # values that the function rejects
                    raise Discard()
                scs.append(other)
            elif kind == "neighbour":
                scs.append(neighbour(ch, gen, rec))
            elif kind == "same-op":
                scs.append((sc.variant or gen)(ch))
            else:
                scs.append(draw_scenario(ch, pool)[0])
        except Discard:
            scs.append(sc)
    for s in scs:
        describe(trace, s)
    share = ch.flip(0.5)
    repeat = ch.integer(1, 2)
    # the threads are the first to call anything in this process
    def evaluate(s, d, cols=None):
        if not lazy:
            return s.reference(d)
        cols = s.build(s.lazy(d)) if cols is None else cols
        return [np.asarray(x) for x in dask.compute(*cols)]

    def alone(s):
        with dask.config.set(scheduler="sync"):
            return evaluate(s, s.copies())
    wants = elsewhere(lambda: [alone(s) for s in scs])
    data = [s.inputs if share else s.copies() for s in scs]
    if share:
        data = [s.copies() for s in scs]
        for i in range(1, len(scs)):
            if scs[i] is scs[0]:
                data[i] = data[0]
    before = [fingerprints(d) for d in data]
    opcodes = ch.flip(0.2)
    sim = Simulation(ch, trace, opcodes=opcodes, max_steps=400000,
                     quantum=(1, 2, 3, 5, 9, 17, 40, 150, 600))
    results = [[] for _ in scs]
    built = [None] * len(scs)
    if lazy:
        trace.probe("lazy results computed by several threads")
        if ch.flip(0.6):
            # of the same expressions, where the requests are the same
            for i, s in enumerate(scs):
                same = [j for j in range(i) if scs[j] is s]
                built[i] = built[same[0]] if same else build(s, data[i])

    def worker(i):
        def run():
            for _ in range(repeat):
                results[i].append(evaluate(scs[i], data[i], built[i]))
        return run
    ts = [sim.spawn(worker(i), "caller%d" % i) for i in range(len(scs))]
    victim = None
    if ch.flip(0.3):
        victim = ch.draw(len(ts))
        after = ch.draw(60)
        exc = ch.pick((Injected, Interrupted))("injected")

        def hook(ready):
            if sim.steps == after and not ts[victim].done:
                ts[victim].inject = exc
                trace.fault("exception", "caller%d" % victim, after)
        sim.pre_step = hook
    with prange_shuffle_off(), dask.config.set(scheduler="sync"):
        sim.run()
    trace.log("steps", sim.steps)
    for i, t in enumerate(ts):
        if t.exc is not None:
            if i == victim and is_injected(t.exc):
                continue
            raise Violation(
                "raised", "%s called from several threads raised %s: %s"
                % (scs[i].name, type(t.exc).__name__, t.exc),
                "raised:%s:%s" % (scs[i].name, type(t.exc).__name__))
        for got in results[i]:
            if len(got) != len(wants[i]) or not all(
                    same_bits(g, w) for g, w in zip(got, wants[i])):
                raise Violation(
                    "result", "%s returned something else when called while "
                    "other threads were calling (%s)" % (
                        scs[i].name, ", ".join(s.name for s in scs)),
                    "concurrent:%s" % scs[i].name)
    for s, d, b in zip(scs, data, before):
        check_inputs(s, d, b, "called from several threads")
    for s, w in zip(scs, wants):
        got = alone(s)
        if not all(same_bits(g, x) for g, x in zip(got, w)):
            raise Violation(
                "result", "%s returns something else after concurrent calls"
                % s.name, "after:%s" % s.name)


class prange_shuffle_off(object):
    def __enter__(self):
        self.old = platform.prange_order
        platform.prange_order = None

    def __exit__(self, *a):
        platform.prange_order = self.old


# ---------------------------------------------------------------------------
def interrupted(ch, trace):
    """ a call that fails half way leaves nothing behind """
    sc, gen, rec = draw_scenario(ch, eager.ALL)
    describe(trace, sc)
    lazy = sc.build is not None and ch.flip(0.3)

    def call(inputs):
        if not lazy:
            return sc.reference(inputs)
        with dask.config.set(scheduler="sync"):
            return [np.asarray(x) for x in dask.compute(*build(sc, inputs))]
    # the interrupted call is the first one made in this process
    want = elsewhere(lambda: sc.reference(sc.copies()))
    sib = sib_want = None
    if ch.flip(0.5):
        try:
            sib = sibling(ch, sc)
            sib_want = elsewhere(lambda: sib.reference(sib.copies()))
        except Violation:
            raise
        except Exception:       # values that the function rejects
            sib = None
    mode = "op" if ch.flip(0.3) else "line"
    total = None
    mine = sc.copies()
    before = fingerprints(mine)
    for attempt in range(ch.integer(1, 4)):
        if total is None:
            total = elsewhere(lambda: count_points(
                lambda: call(sc.copies()), mode)[1])
            if not total:
                raise Discard()
        at = 1 + ch.draw(total)
        exc = ch.pick((Injected, Interrupted))("injected")
        inj = injected(at, exc, mode)
        try:
            with inj:
                call(mine)
        except (Injected, Interrupted):
            pass
        except Exception as e:
            if not is_injected(e):
                raise
        if inj.fired:
            trace.fault(type(exc).__name__.lower(), inj.fired, at)
        trace.step((mode, at))
        check_inputs(sc, mine, before, "by a call interrupted at %s"
                     % inj.fired)
    if ch.flip(0.4):
        # the same arrays with other contents, compared with what they gave
        # before anything was interrupted
        try:
            if sib is not None:
                compare(sib.name, "the result of a call before any was "
                        "interrupted", sib.reference(sib.copies()), sib_want,
                        sib.rtol)
            other = neighbour(ch, gen, rec)
            got2 = other.reference(other.copies())
            if other.model is not None:
                compare(other.name, "direct evaluation of the definition",
                        got2, other.model(other.copies()), other.model_rtol)
        except Discard:
            pass
    with DirtyAlloc(ch.pick((None, "nan", "big"))):
        got = call(mine)
    compare(sc.name, "the result of a call that was never interrupted", got,
            want, sc.rtol)
    got = call(sc.copies())
    compare(sc.name, "the result of a call that was never interrupted", got,
            want, sc.rtol)
