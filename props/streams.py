"""
P13: asking for streams bounds how much of the work is in flight at once.
"""
from props import ops
from props.cross import describe
from props.equiv import build, compare, config_for
from sim import platform, stub_nifty
from sim import threads as th
from sim.cluster import compute
from sim.core import Violation


class Meter(object):
    def __init__(self, trace):
        self.trace = trace
        self.now = self.peak = self.fresh = self.calls = 0

    def enter(self):
        self.now += 1
        self.calls += 1
        self.peak = max(self.peak, self.now)

    def exit(self):
        self.now -= 1


def metered(meter):
    """ ms2grid_c takes (simulated) time: other tasks may run meanwhile """
    def hook(what, grid_in):
        if what == "exit":
            meter.exit()
            return
        meter.enter()
        meter.fresh += grid_in is None
        sim = th.active()
        for _ in range(2):
            if sim is not None:
                sim.yield_point()
    return hook


def run(ch, trace):
    which = ch.pick(("nifty", "nifty", "predict"))
    meter = Meter(trace)
    force = dict(mode="shared", workers=1, readonly=False, ship_tasks=False,
                 interleave=ch.integer(2, 7), opcodes=False, enabled=[],
                 max_faults=0)
    if which == "nifty":
        sc = ops.nifty_grid(ch, streams=ch.pick((1, 1, 2, 3)))
        describe(trace, sc)
        ncorr = sc.inputs["vis"].shape[2]
        limit = sc.streams * ncorr
        want = sc.reference(sc.copies())
        cols = build(sc, sc.copies())
        stub_nifty.grid_hook = metered(meter)
        try:
            cfg = config_for(ch, sc, **force)
            got, _ = compute(ch, trace, cfg, cols, sc.name)
        finally:
            stub_nifty.grid_hook = None
        compare(sc.name, "the single-process result", got, want, sc.rtol)
        if meter.fresh > limit:
            raise Violation(
                "too-many-grids", "%d streams requested for %d correlations "
                "in %d row chunks but %d grids were allocated" % (
                    sc.streams, ncorr, sc.n_row_chunks, meter.fresh),
                "too-many-grids:%s" % sc.name)
        if meter.peak > limit:
            raise Violation(
                "too-parallel", "%d streams requested for %d correlations "
                "but %d gridding operations were in flight together" % (
                    sc.streams, ncorr, meter.peak),
                "too-parallel:%s" % sc.name)
        if meter.calls > sc.n_row_chunks * ncorr:
            raise Violation(
                "repeated", "%d row chunks of %d correlations were gridded "
                "by %d calls in a fault-free run" % (
                    sc.n_row_chunks, ncorr, meter.calls),
                "repeated:%s" % sc.name)
        trace.probe("peak in flight %d of %d" % (meter.peak, limit))
        return
    sc = ops.predict_vis(ch, streams=True)
    describe(trace, sc)
    limit = len(sc.params["row_chunks"]) * len(sc.params["nchan"]) * \
        sc.params["corr_blocks"]
    want = sc.reference(sc.copies())

    def hook(what, module, name, arguments):
        if name != "predict_vis":
            return
        if arguments.get("dde1_jones") is None and \
                arguments.get("source_coh") is None:
            return
        (meter.enter if what == "enter" else meter.exit)()
    cols = build(sc, sc.copies())
    cfg = config_for(ch, sc, **force)
    platform.call_hook = hook
    try:
        got, _ = compute(ch, trace, cfg, cols, sc.name)
    finally:
        platform.call_hook = None
    compare(sc.name, "the single-process result", got, want, sc.rtol)
    if meter.peak > limit:
        raise Violation(
            "too-parallel", "streams=True must sum the sources of a block "
            "serially, but %d of them were predicted at once (%d blocks)"
            % (meter.peak, limit), "too-parallel:%s" % sc.name)
    trace.probe("peak in flight %d of %d" % (meter.peak, limit))
