"""
Lazy result on the simulated deployment == single-process result.
"""
import dask
import dask.array as da
import numpy as np

from props import ops
from sim import platform
from sim.cluster import Config, compute, close
from sim.core import Violation


def config_for(ch, sc, **force):
    cfg = Config(ch, kernels_python=sc.python, force=force)
    if getattr(sc, "inplace_chain", False):
        # a C++ gridder that adds in place: a block may only be consumed once
        cfg.enabled = [f for f in cfg.enabled
                       if f in ("crash", "spill", "stall")]
        cfg.release = True
        cfg.readonly = False
    return cfg


def same(x):
    return x.copy()


def blocks_of(x):
    """ the same array, one more lazy step away """
    return da.map_blocks(same, x, dtype=x.dtype,
                         meta=np.empty((0,) * x.ndim, x.dtype))


def part(ch, col):
    """ a part of a result as an index, or None """
    if not isinstance(col, da.Array) or not col.ndim or \
            any(n != n for c in col.chunks for n in c):
        return None
    ax = ch.draw(col.ndim)
    n = col.shape[ax]
    how = ch.pick(("reverse", "tail", "one", "head"))
    if how == "reverse" or n < 2:
        sl = slice(None, None, -1)
    elif how == "one":
        k = ch.draw(n)
        sl = slice(k, k + 1)
    else:
        k = 1 + ch.draw(n - 1)
        sl = slice(k, None) if how == "tail" else slice(None, k)
    return (slice(None),) * ax + (sl,)


def fill(sc, got, want, at):
    """ the whole, with the part that was computed """
    got, whole = np.asarray(got), np.array(want)
    if got.shape != whole[at].shape:
        raise Violation("result", "%s: a part of shape %s was computed as %s"
                        % (sc.name, whole[at].shape, got.shape),
                        "shape:%s" % sc.name)
    whole = whole.astype(np.result_type(whole, got))
    whole[at] = got
    return whole.astype(got.dtype)


def build(sc, inputs, pre=False, post=False):
    """ the lazy results; of inputs that are results themselves, and used in
    further expressions """
    with dask.config.set(scheduler="sync"):
        d = sc.lazy(inputs)
        if pre:
            d = {k: blocks_of(x) for k, x in d.items()}
        cols = sc.build(d)
        if post:
            cols = [blocks_of(x) if isinstance(x, da.Array) else x
                    for x in cols]
        return cols


def prange_shuffle(ch, trace):
    """ iterations of a parallel loop in any order """
    class Ctx(object):
        def __enter__(self):
            def order(n):
                trace.probe("parallel loops reordered")
                if n > 64:      # rotate + reverse: enough, and cheap
                    k = ch.draw(n)
                    idx = list(range(k, n)) + list(range(k))
                    return idx[::-1] if ch.draw(2) else idx
                return ch.perm(n)
            platform.prange_order = order

        def __exit__(self, *a):
            platform.prange_order = None
    return Ctx()


def compare(name, what, got, want, rtol, dtypes=False):
    if len(got) != len(want):
        raise Violation("result", "%s: %d outputs, %s has %d" % (
            name, len(got), what, len(want)), "count:%s" % name)
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g), np.asarray(w)
        if g.shape != w.shape:
            raise Violation(
                "result", "%s: output %d has shape %s, %s %s" % (
                    name, i, g.shape, what, w.shape), "shape:%s" % name)
        if dtypes and g.dtype != w.dtype:
            raise Violation(
                "result", "%s: output %d has dtype %s, %s %s" % (
                    name, i, g.dtype, what, w.dtype), "dtype:%s" % name)
        if not close(g, w, rtol):
            with np.errstate(all="ignore"):
                d = np.abs(g.astype(complex) - w.astype(complex))
                d = float(np.nanmax(d)) if d.size else 0.0
            raise Violation(
                "result", "%s: output %d differs from %s (max abs "
                "difference %.3g)" % (name, i, what, d),
                "value:%s" % name)


def check_eager(sc, lazily=False):
    """ one scenario evaluated without any simulation: history, and oracle """
    got = sc.reference(sc.copies())
    if sc.model is not None:
        compare(sc.name, "direct evaluation of the definition", got,
                sc.model(sc.copies()), sc.model_rtol)
    if lazily:
        with dask.config.set(scheduler="sync"):
            lazy = dask.compute(*build(sc, sc.copies()))
        compare(sc.name, "the single-process result", lazy, got, sc.rtol,
                sc.dtypes)


def refuses(ch, trace, sc, gen):
    """ both forms must report the error, before and after other calls """
    trace.probe("refused requests")
    for _ in range(ch.integer(1, 2)):
        for how, call in (("directly", lambda: sc.reference(sc.copies())),
                          ("lazily", lambda: build(sc, sc.copies()))):
            trace.step(how)
            try:
                call()
            except sc.refused:
                continue
            except Exception as e:
                raise Violation(
                    "refusal", "%s called %s: %s requested of %s raised %s "
                    "instead of %s" % (
                        sc.name, how, sc.params["outs"], sc.params["ins"],
                        type(e).__name__, sc.refused.__name__),
                    "refusal:%s:%s" % (sc.name, sc.params["kind"]))
            raise Violation(
                "refusal", "%s called %s: %s requested of %s was not refused"
                % (sc.name, how, sc.params["outs"], sc.params["ins"]),
                "refusal:%s:%s" % (sc.name, sc.params["kind"]))


def run_group(group):
    def run(ch, trace):
        gen = ch.pick(ops.GROUPS[group])
        sc = gen(ch)
        trace.log("op", sc.name, sorted(sc.params.items(), key=str))
        trace.probe("op " + sc.name)
        if getattr(sc, "refused", None):
            return refuses(ch, trace, sc, gen)
        cfg = config_for(ch, sc)
        trace.log("config", sorted(cfg.describe().items(), key=str))
        trace.step(sc.name)
        # what the process did before, and between building and computing
        before = ch.weighted([(0, 6), (1, 3), (2, 1)])
        between = ch.flip(0.25)
        sibling = sc.variant or gen
        for _ in range(before):
            trace.probe("earlier call in the same process")
            check_eager(sibling(ch), lazily=ch.flip(0.3))
        want = sc.reference(sc.copies())
        if sc.model is not None:
            compare(sc.name, "direct evaluation of the definition", want,
                    sc.model(sc.copies()), sc.model_rtol)
        pre, post = ch.flip(0.2), ch.flip(0.3)
        if pre:
            trace.probe("inputs computed in the same graph")
        if post:
            trace.probe("results used in further expressions")
        if not before and ch.flip(0.06):
            w = ops.cut_whole(ch, sc)
            if w:
                trace.log("cut", w, sorted(sc.chunks.items()))
        try:
            cols = build(sc, sc.copies(), pre, post)
        except (ValueError, NotImplementedError):
            if not sc.cut:
                raise
            trace.probe("chunking refused")
            return
        if sc.cut:
            trace.probe("unusual chunking evaluated")
        cut = None
        if ch.flip(0.15) and not getattr(sc, "inplace_chain", False):
            trace.probe("a part of the results computed")
            cut = [part(ch, c) for c in cols]
            cols = [c if i is None else c[i] for c, i in zip(cols, cut)]

        if between:
            trace.probe("call between building and computing")
            check_eager(sibling(ch), lazily=ch.flip(0.3))
        with prange_shuffle(ch, trace):
            got, _ = compute(ch, trace, cfg, cols, sc.name)
        if cut is not None:
            # judged on the scale of the whole
            got = [g if i is None else fill(sc, g, w, i)
                   for g, w, i in zip(got, want, cut)]
        compare(sc.name, "the single-process result", got, want, sc.rtol,
                sc.dtypes)
        if sc.model is not None:
            compare(sc.name, "direct evaluation of the definition", got,
                    sc.model(sc.copies()), sc.model_rtol)
        if hasattr(sc, "single") and sc.n_row_chunks > 1:
            # recorded, see known_findings.txt
            try:
                compare(sc.name, "the single-process result", got,
                        sc.single(sc.copies()), sc.rtol)
            except Violation as v:
                trace.findings["row-chunk-mean:%s" % sc.name] = v.message
    return run
