"""
P22: dask computations under an EstimatingProgressBar.

The computing thread runs the real dask scheduler (synchronous executor) on a
seeded graph; the bar's timer thread and every clock are simulated.
"""
import re

from props.sync import Boom, Halt
from sim import threads as th
from sim.core import Violation
from sim.threads import Simulation

LINE = re.compile(r"\[(.*)\] \| (-?\d+)% Complete \(Estimate\) \| (.+) / ~(.+)"
                  r"\Z", re.S)


def show(t):
    """ seconds the way the bar shows them (test_progress_bar.py) """
    m, s = divmod(t, 60)
    h, m = divmod(m, 60)
    d, h = divmod(h, 24)
    w, d = divmod(d, 7)
    for a, b, x, y in ((w, d, "w", "d"), (d, h, "d", "h"), (h, m, "h", "m"),
                       (m, s, "m", "s")):
        if a:
            return "%2.0f%s%2.0f%s" % (a, x, b, y)
    return "%5.0fs" % s


class Out(object):
    """ the terminal: closed, broken or slow now and then """

    def __init__(self, ch, trace, run, bad, slow):
        self.ch, self.trace, self.run = ch, trace, run
        self.bad, self.slow = bad, slow
        self.text = ""

    def _fault(self):
        sim = th.active()
        if sim is not None:
            sim.yield_point()
            if self.slow and self.ch.flip(0.2):
                self.trace.fault("output stalled")
                sim.sleep(self.ch.pick((0.125, 3.0)))
        if self.bad and self.ch.flip(0.3):
            self.trace.fault("output closed")
            raise ValueError("I/O operation on closed file.")

    def write(self, s):
        self.run.wrote(s)
        self._fault()
        return len(s)

    def flush(self):
        self._fault()


class Comp(object):
    """ one computation """

    def __init__(self, n):
        self.n = n
        self.total = {}             # bin -> number of tasks
        self.started = self.finished = None
        self.ended = []             # (bin, duration), in order
        self.settled = 0            # of which certainly accounted for
        self.shown = {}     # thread -> possible (completed, estimate)
        self.lines = 0
        self.over = False           # nothing left to show


class Run(object):
    def __init__(self, ch, trace):
        self.ch, self.trace = ch, trace
        self.by_thread = {}         # SimThread -> Comp
        self.comp = None
        self.failure = None
        self.width = 42
        self.reads = {}             # SimThread -> (settled) at last clock read
        self.elapsed_at = {}

    def clock(self, name):
        sim = self.sim
        t = sim.me()
        c = self.by_thread.get(t)
        if c is not None and c is self.comp:
            self.reads[t] = (c.settled, sim.now)
        return sim.now + 1000.0

    def wrote(self, s):
        t = self.sim.me()
        c = self.by_thread.get(t)
        if c is None or self.failure is not None:
            return
        m = LINE.match(s.lstrip("\r\n"))
        if m is None:
            self.failure = Violation(
                "display", "unreadable progress line %r" % s, "display")
            return
        if len(m.group(1)) != self.width:
            self.failure = Violation(
                "display", "the bar is %d characters wide instead of %d" % (
                    len(m.group(1)), self.width), "display-width")
            return
        if c is not self.comp or c.over or \
                t not in self.reads:
            return                  # a last line of a computation that ended
        lower, now = self.reads[t]
        elapsed = now - c.started
        got = (m.group(2), m.group(3), m.group(4))
        ok, expected = set(), set()
        for k in range(lower, len(c.ended) + 1):
            for prev in c.shown.get(t, {(0, 0.0)}):
                est = self.estimate(c, k, elapsed, prev)
                frac = 0.0 if elapsed < 10.0 else (
                    elapsed / est if est > 0.0 else 0.0)
                for eps in (0.0, -1e-9, 1e-9):
                    line = ("%d" % int(100 * frac), show(elapsed),
                            "???" if est == 0.0 else show(est * (1 + eps)))
                    expected.add(line)
                    if same(line, got):
                        ok.add((k, est))
        c.lines += 1
        if not ok:
            self.failure = Violation(
                "display", "%d s into the computation, %d of %d tasks done, "
                "the bar shows %r instead of %r" % (
                    elapsed, len(c.ended), sum(c.total.values()), got,
                    sorted(expected)), "display-estimate")
            return
        c.shown[t] = ok

    def estimate(self, c, k, elapsed, prev):
        if k == prev[0]:
            return prev[1]
        est = spent = 0.0
        for b, total in c.total.items():
            d = [x for y, x in c.ended[:k] if y == b]
            if d:
                est += sum(d) / len(d) * total
                spent += sum(d)
        return est * elapsed / spent if spent > 0.0 else prev[1]


def near(a, b):
    """ equal up to rounding in the last shown digit """
    x, y = ([int(v) for v in re.findall(r"\d+", z)] for z in (a, b))
    return a == b or (
        re.sub(r"[\d ]+", "", a) == re.sub(r"[\d ]+", "", b) and
        len(a) == len(b) and len(x) == len(y) and x[:-1] == y[:-1] and
        (not x or abs(x[-1] - y[-1]) <= 1))


def same(a, b):
    return abs(int(a[0]) - int(b[0])) <= 1 and near(a[1], b[1]) and \
        near(a[2], b[2])


def graph(ch, run, comp, sim, dt):
    """ a seeded dask graph: (dsk, wanted key, expected value or error) """
    n = ch.integer(1, 7)
    names = ["load", "grid", b"sum"][:ch.integer(1, 3)]
    scale = dt * ch.pick((1.0, 0.0, 0.25, 7.0))
    if not sim.opcodes and n <= 3 and ch.flip(0.1):
        scale = 70 * dt
    fail = ch.draw(n) if ch.flip(0.2) else None
    dsk, values = {}, []
    failed = None
    if fail is not None:
        failed = ch.pick((Boom, Halt, KeyError))("task %d" % fail)
    for i in range(n):
        b = ch.pick(names)
        key = (b, i) if ch.flip(0.8) else (
            b.decode() if isinstance(b, bytes) else b) + "-%d" % i
        bin_ = key[0] if isinstance(key, tuple) else key
        bin_ = bin_.decode() if isinstance(bin_, bytes) else bin_
        deps = []
        if i:
            deps = sorted({ch.draw(i) for _ in range(ch.draw(3))} | {i - 1}
                          if ch.flip(0.6) else {i - 1})
        dur = scale * ch.pick((0.0, 0.5, 1.0, 2.0))

        def task(*args, i=i, dur=dur, bin_=bin_):
            comp.settled = len(comp.ended)
            t0 = sim.now
            if dur:
                sim.sleep(dur)
            else:
                sim.yield_point()
            run.trace.log("task", comp.n, i)
            if i == fail:
                run.trace.fault("task failed", i)
                comp.over = True
                raise failed
            comp.ended.append((bin_, sim.now - t0))
            comp.over = len(comp.ended) == n
            return i + sum(args)
        keys = list(dsk)
        dsk[key] = (task,) + tuple(keys[j] for j in deps)
        values.append(i + sum(values[j] for j in deps))
        comp.total[bin_] = comp.total.get(bin_, 0) + 1
    return dsk, list(dsk)[-1], values[-1], failed


def run(ch, trace):
    import dask
    from africanus.util.dask_util import EstimatingProgressBar
    R = Run(ch, trace)
    sim = R.sim = Simulation(ch, trace, opcodes=ch.flip(0.3),
                             max_steps=150000, quantum=(1, 2, 3, 5, 9, 17))
    sim.clock_hook = R.clock
    dt = ch.pick((1.0, 0.25, 5.0, 64.0, 9000.0))
    minimum = ch.pick((0, 0, 2, 30))
    width = R.width = ch.pick((42, 10, 1))
    bad, slow = ch.flip(0.3), ch.flip(0.15)
    out = Out(ch, trace, R, bad, slow)
    nbar = ch.pick((1, 1, 1, 2))
    ncomp = ch.integer(1, 4)
    gaps = [ch.pick((0.0, 0.0, 0.125, 3.0)) for _ in range(ncomp)]
    trace.log("bar", dt, minimum, width, "bars", nbar)
    box = dict(bars=None)

    def main():
        bars = [EstimatingProgressBar(minimum, width, dt, out)
                for _ in range(nbar)]
        for i in range(ncomp):
            comp = R.comp = Comp(i)
            dsk, want, value, failed = graph(ch, R, comp, sim, dt)
            before = len(sim.threads)
            comp.started = sim.now
            box["assign"] = (before, comp)
            try:
                for b in bars:
                    b.__enter__()
                try:
                    got = dask.get(dsk, want)
                finally:
                    for b in reversed(bars):
                        b.__exit__(None, None, None)
            except (Boom, Halt, KeyError) as e:
                if failed is None or e is not failed:
                    raise
                trace.log("comp", i, "failed")
            else:
                if failed is not None or got != value:
                    raise Violation(
                        "result", "computing with a progress bar gave %r "
                        "instead of %r" % (got, failed or value), "result")
                trace.log("comp", i, "ok")
            comp.finished = sim.now
            R.comp = None
            for t in sim.threads[before:]:
                t.comp_end = sim.now
            if gaps[i]:
                sim.sleep(gaps[i])
    m = sim.spawn(main, "main", traced=True)

    limit = dt + (10.0 if slow else 0.0) + 1e-6

    def watch(ready):
        before, comp = box.get("assign", (None, None))
        if comp is not None:
            for t in sim.threads[before:]:
                if t not in R.by_thread:
                    R.by_thread[t] = comp
                    R.reads.pop(t, None)
        for t in sim.threads:
            end = getattr(t, "comp_end", None)
            if end is not None and not t.done and sim.now > end + limit:
                raise Violation(
                    "timer-leaked", "%.1f s after its computation ended a "
                    "timer thread updating every %s s is still alive"
                    % (sim.now - end, dt), "timer-leaked")
        if R.failure is not None:
            raise R.failure
    sim.pre_step = watch
    sim.run(until=lambda: m.done and all(t.done for t in sim.threads))
    trace.sim_time += sim.now
    if isinstance(m.exc, Violation):
        raise m.exc
    if m.exc is not None:
        raise Violation("raised", "a computation with a progress bar raised "
                        "%s: %s" % (type(m.exc).__name__, m.exc),
                        "raised:%s" % type(m.exc).__name__)
    for t in sim.threads:
        if t is not m and t.exc is not None:
            raise Violation("timer-raised", "the timer thread died of %s: %s"
                            % (type(t.exc).__name__, t.exc),
                            "timer-raised:%s" % type(t.exc).__name__)
        if t is not m and not t.facade.daemon:
            raise Violation("not-daemon", "the timer thread keeps the "
                            "interpreter from exiting", "not-daemon")
    if R.failure is not None:
        raise R.failure
    trace.probe("lines checked", sum(c.lines for c in set(
        R.by_thread.values())))
