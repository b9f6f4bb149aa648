"""
P24: the CUDA implementations on a simulated GPU (sim/gpu.py).

The host code (kernel rendering, caching, launching) and the kernels are the
real ones; the oracle is the definition of each function, in numpy and double
precision, and the CPU implementation where the problem is small.
"""
import numpy as np

from props import models
from props.sync import Boom
from sim import gpu
from sim.core import Violation
from sim.threads import Simulation

C = 2.99792458e8
RIME, COHERENCY = gpu.install()
REAL = (np.float64, np.float32)


class Call(object):
    """ one call: fn(*args, **kw), expected value, tolerance """

    def __init__(self, name, fn, cpu, args, kw, want, dtype, tol, scale=1.0,
                 refused=None, may_raise=(), small=False):
        self.name, self.fn, self.cpu = name, fn, cpu
        self.args, self.kw = args, kw
        self.want, self.dtype, self.tol = want, np.dtype(dtype), tol
        self.scale = scale
        self.refused, self.may_raise = refused, may_raise
        self.small = small

    def arrays(self):
        return [a for a in list(self.args) + list(self.kw.values())
                if isinstance(a, np.ndarray)]

    def check(self, got, host=False):
        if self.refused is not None:
            raise Violation(
                "accepted", "%s accepted a request it must refuse with %s"
                % (self.name, self.refused.__name__),
                "accepted:%s" % self.name)
        want = self.want
        if not isinstance(got, np.ndarray) or got.shape != want.shape:
            raise Violation("gpu-shape", "%s on the GPU has shape %s instead "
                            "of %s" % (self.name, getattr(got, "shape", None),
                                       want.shape), "gpu-shape:%s" % self.name)
        if got.dtype != self.dtype and not host:
            raise Violation("gpu-dtype", "%s on the GPU has type %s instead "
                            "of %s" % (self.name, got.dtype, self.dtype),
                            "gpu-dtype:%s" % self.name)
        err = np.abs(got.astype(want.dtype) - want)
        bad = ~(err <= self.tol * self.scale)
        if bad.any():
            i = tuple(int(k[0]) for k in np.nonzero(bad))
            raise Violation(
                "value", "%s on the %s gives %s at %s instead of %s"
                % (self.name, "CPU" if host else "GPU", got[i], i, want[i]),
                "value:%s:%s" % (self.name, "cpu" if host else "gpu"))


def strided(ch, a):
    """ the same values in another memory layout """
    how = ch.weighted([("c", 5), ("f", 1), ("step", 1), ("rev", 1)])
    if how == "f":
        return np.asfortranarray(a)
    if how == "step":
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        big[...] = 7
        big[..., ::2] = a
        return big[..., ::2]
    if how == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a)


def reals(ch, n):
    """ n floating point types, mostly alike """
    base = ch.pick(REAL)
    out = [base] * n
    if ch.flip(0.35):
        i = ch.draw(n)
        out[i] = REAL[1 - REAL.index(base)]
    return out


def tol(*dts):
    return 2e-4 if np.float32 in [np.dtype(d).type for d in dts] else 1e-9


def size(ch, block, small=6):
    """ around the block size now and then """
    return ch.weighted([(ch.integer(1, small), 6),
                        (block - 1 + ch.draw(3), 1),
                        (block + ch.integer(1, small), 1),
                        (2 * block + ch.integer(0, small), 1)])


def phase(ch):
    rs = ch.nprng()
    dl, du, df = reals(ch, 3)
    s = ch.integer(1, 3)
    r = size(ch, 16 if du is np.float64 else 32)
    c = size(ch, 16 if df is np.float64 else 32)
    lm = ((rs.rand(s, 2) - 0.5) * 0.8).astype(dl)
    uvw = ((rs.rand(r, 3) - 0.5) * 8).astype(du)
    f = np.linspace(0.2e9, 1e9, c).astype(df)
    l, m, w3, fd = (lm[:, 0].astype(float), lm[:, 1].astype(float),
                    uvw.astype(float), f.astype(float))
    n = np.sqrt(1 - l * l - m * m) - 1
    q = (np.outer(l, w3[:, 0]) + np.outer(m, w3[:, 1]) + np.outer(n, w3[:, 2]))
    want = np.exp(-2j * np.pi / C * q[:, :, None] * fd)
    from africanus.rime import phase_delay
    dt = np.result_type(dl, du, df, np.complex64)
    return Call("phase_delay", RIME.phase_delay, phase_delay,
                [strided(ch, lm), strided(ch, uvw), strided(ch, f)], {}, want,
                dt, tol(dl, du, df), small=s * r * c < 200)


def feeds(ch):
    rs = ch.nprng()
    dt = ch.pick(REAL)
    block = 1024 if dt is np.float32 else 512
    kind = ch.pick(("linear", "circular"))
    if ch.flip(0.1):
        shape = ch.pick(((block - 1 + ch.draw(3),), (block * 2 - 5,),
                         (2, block // 2 + 30)))
    else:
        shape = tuple(ch.integer(1, 6) for _ in range(ch.integer(1, 3)))
    pa = (rs.rand(*shape) * 6 - 3).astype(dt)
    x = pa.astype(float)
    want = np.zeros(shape + (2, 2), complex)
    if kind == "linear":
        want[..., 0, 0] = want[..., 1, 1] = np.cos(x)
        want[..., 0, 1], want[..., 1, 0] = np.sin(x), -np.sin(x)
    else:
        want[..., 0, 0], want[..., 1, 1] = np.exp(-1j * x), np.exp(1j * x)
    kw = {} if kind == "linear" and ch.flip(0.3) else dict(feed_type=kind)
    from africanus.rime import feed_rotation
    return Call("feed_rotation", RIME.feed_rotation, feed_rotation,
                [strided(ch, pa)], kw, want,
                np.result_type(dt, np.complex64), tol(dt),
                small=pa.size < 60)


LIN, CIRC, STOKES = ("XX", "XY", "YX", "YY"), ("RR", "RL", "LR", "LL"), \
    ("I", "Q", "U", "V")
TO_STOKES = {
    "XX": (1, 1, 0, 0), "XY": (0, 0, 1, 1j), "YX": (0, 0, 1, -1j),
    "YY": (1, -1, 0, 0), "RR": (1, 0, 0, 1), "RL": (0, 1, 1j, 0),
    "LR": (0, 1, -1j, 0), "LL": (1, 0, 0, -1)}
ORDERS = ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 0, 3, 2))
PAIRS = (("IQ", ("XX", "YY")), ("UV", ("XY", "YX")), ("IV", ("RR", "LL")),
         ("QU", ("RL", "LR")))


def schema(k, names):
    names = list(names)
    if len(names) == 4:
        if k == 1:
            return [names[:2], names[2:]]
        if k == 2:
            return tuple(names)
    return names


def flatten(s):
    return [y for x in s for y in (flatten(x) if isinstance(x, (list, tuple))
                                   else [x])]


def dims(s):
    return (len(s),) + (dims(s[0]) if isinstance(s[0], (list, tuple)) else ())


def convert(ch, before=None):
    rs = ch.nprng()
    dt = ch.pick(REAL)
    if ch.flip(0.25):
        st, co = ch.pick(PAIRS)
        st, co = list(st), list(co)
        if ch.flip(0.5):
            st.reverse()
        if ch.flip(0.5):
            co.reverse()
    else:
        st = [STOKES[i] for i in ch.pick(ORDERS)]
        co = ch.pick((LIN, CIRC))
        co = [co[i] for i in ch.pick(ORDERS)]
    lead = tuple(ch.integer(1, 7) for _ in range(ch.integer(1, 3)))
    if ch.flip(0.1):
        lead = (511 + ch.draw(3),)
    fwd = ch.flip(0.5)
    refused = None
    kind = ch.draw(3), ch.draw(3)
    if before is not None and ch.flip(0.5):
        # a request much like an earlier one: some of the outputs swapped
        fwd, st, co, kind = before.request
        st, co = list(st), list(co)
        out = co if fwd else st
        i, j = sorted((ch.draw(len(out)), ch.draw(len(out))))
        out[i], out[j] = out[j], out[i]
    A = np.array([[TO_STOKES[c][STOKES.index(s)] for s in st] for c in co])
    if fwd:
        sin, sout = schema(kind[0], st), schema(kind[1], co)
        x = rs.rand(*(lead + (len(st),))).astype(dt)
        want = x @ A.T
        odt = np.result_type(dt, np.complex64)
    else:
        sin, sout = schema(kind[0], co), schema(kind[1], st)
        x = (rs.rand(*(lead + (len(co),))) + 1j * rs.rand(
            *(lead + (len(co),)))).astype(np.result_type(dt, np.complex64))
        # the conversion takes real parts: project on physical correlations
        full = rs.rand(*(lead + (len(st),))).astype(dt)
        x = (full @ A.T).astype(x.dtype)
        want = full.astype(float)
        odt = dt
    x = x.reshape(lead + dims(sin))
    want = want.reshape(lead + dims(sout))
    if ch.flip(0.08) and len(st) == 4:
        # an array that the schema does not describe
        x = np.ascontiguousarray(x).reshape(
            lead + ((1, 4) if len(dims(sin)) > 1 and ch.flip(0.5)
                    else (4, 1)))
        refused = ValueError
    from africanus.model.coherency import convert as cpu
    call = Call("convert", COHERENCY.convert, cpu,
                [strided(ch, x), sin, sout], {}, want, odt, tol(dt), 4.0,
                refused=refused, small=want.size < 150)
    call.request = fwd, st, co, kind
    return call


def mul(a, b, two):
    return a @ b if two else a * b


def herm(a, two):
    return np.conj(np.swapaxes(a, -1, -2)) if two else np.conj(a)


def predict(ch):
    rs = ch.nprng()
    dt = ch.pick((np.complex128, np.complex64))
    corr = ch.pick(((1,), (2,), (2, 2)))
    two = len(corr) == 2
    nc = int(np.prod(corr))
    s, t, a = ch.integer(1, 3), ch.integer(1, 3), ch.integer(1, 4)
    f = max(1, size(ch, 32 // nc, 4))
    r = size(ch, 24 if dt is np.complex128 else 32, 8)
    parts = ch.pick(((1, 1, 1, 1), (1, 1, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0),
                     (0, 0, 1, 0), (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1),
                     (0, 0, 0, 1), (1, 1, 1, 0), (1, 1, 0, 1), (0, 1, 1, 1),
                     (1, 0, 1, 1), (0, 1, 1, 0), (1, 0, 1, 0)))
    dde, coh, bvis, die = parts

    def rc(*shape):
        v = rs.rand(*shape) - 0.5 + 1j * (rs.rand(*shape) - 0.5)
        return v.astype(dt)
    time = rs.randint(0, t, r)
    if ch.flip(0.6):
        time.sort()
    time -= time.min()
    a1, a2 = rs.randint(0, a, r), rs.randint(0, a, r)
    args = dict(
        dde1_jones=rc(s, t, a, f, *corr) if dde else None,
        source_coh=rc(s, r, f, *corr) if coh else None,
        dde2_jones=rc(s, t, a, f, *corr) if dde else None,
        die1_jones=rc(t, a, f, *corr) if die else None,
        base_vis=rc(r, f, *corr) if bvis else None,
        die2_jones=rc(t, a, f, *corr) if die else None)
    W = {k: v.astype(np.complex128) if v is not None else None
         for k, v in args.items()}
    want = np.zeros((r, f) + corr, complex)
    if dde:
        e1, e2 = W["dde1_jones"][:, time, a1], W["dde2_jones"][:, time, a2]
        if coh:
            e1 = mul(e1, W["source_coh"], two)
        want += mul(e1, herm(e2, two), two).sum(axis=0)
    elif coh:
        want += W["source_coh"].sum(axis=0)
    if bvis:
        want += W["base_vis"]
    if die:
        want = mul(mul(W["die1_jones"][time, a1], want, two),
                   herm(W["die2_jones"][time, a2], two), two)
    off = ch.pick((0, 10))
    pos = [(time + off).astype(np.int32), a1.astype(np.int32),
           a2.astype(np.int32)]
    refused = None
    if ch.flip(0.04):
        k = ch.draw(3)
        pos[k] = pos[k].astype(np.int64)
        refused = TypeError
    elif dde and ch.flip(0.04):
        args[ch.pick(("dde1_jones", "dde2_jones"))] = None
        refused = ValueError
    kw = {k: strided(ch, v) for k, v in args.items() if v is not None}
    from africanus.rime import predict_vis
    return Call("predict_vis", RIME.predict_vis, predict_vis, pos, kw, want,
                dt, tol(np.float32 if dt is np.complex64 else np.float64),
                4.0, refused=refused, small=s * r * f * nc < 120)


def beam(ch):
    rs = ch.nprng()
    d = reals(ch, 8)
    cdt = np.result_type(d[0], np.complex64)
    corr = ch.pick(((1,), (2,), (4,), (2, 2)))
    nc = int(np.prod(corr))
    lw, mh = ch.integer(2, 5), ch.integer(2, 5)
    nud = ch.weighted([(ch.integer(2, 6), 6), (127, 1), (33, 1)])
    s, t, a = ch.integer(1, 3), ch.integer(1, 3), ch.integer(1, 4)
    f = size(ch, 32 // nc, 4)
    if ch.flip(0.05):
        a = 15 + ch.draw(19)
        f = min(f, 4)
    elif ch.flip(0.05):
        f, t, a, s = 1023 + ch.draw(4), 1, 1, 1
    refused = None
    if ch.flip(0.06):
        refused = ValueError
        k = ch.draw(4)
        if k == 0:
            lw = 1
        elif k == 1:
            mh = 1
        elif k == 2:
            nud = 1
        else:
            nud = 128 + ch.draw(3)
    shape = (lw, mh, nud) + corr
    cube = (0.5 + rs.rand(*shape) + 1j * (rs.rand(*shape) - 0.5)).astype(cdt)
    if ch.flip(0.1):
        cube[...] = 0
    ext = np.array([[-0.8, 1.0], [-1.0, 1.25]], d[1])
    fmap = np.linspace(1.0, 2.0, nud).astype(d[2])
    lm = (2.2 * (rs.rand(s, 2) - 0.5)).astype(d[3])
    pa = (rs.rand(t, a) * 6).astype(d[4])
    pe = (0.2 * (rs.rand(t, a, f, 2) - 0.5)).astype(d[5])
    sc = (0.5 + rs.rand(a, f, 2)).astype(d[6])
    freq = np.sort(0.7 + 1.6 * rs.rand(f)).astype(d[7])
    if ch.flip(0.3) and refused is None:
        # frequencies of the cube itself, in any order
        freq = fmap[rs.randint(0, nud, f)].astype(d[7])
    args = [cube, ext, fmap, lm, pa, pe, sc, freq]
    want = np.zeros((s, t, a, f) + corr, complex)
    if refused is None:
        want = models.beam(*[x.astype(np.complex128 if x is cube else float)
                            for x in args])
    from africanus.rime import beam_cube_dde
    return Call("beam_cube_dde", RIME.beam_cube_dde, beam_cube_dde,
                [strided(ch, x) for x in args], {}, want, cdt,
                1e-3 if np.float32 in d else 1e-9, refused=refused,
                small=s * t * a * f < 40)


KINDS = dict(phase_delay=phase, feed_rotation=feeds, convert=convert,
             predict_vis=predict, beam_cube_dde=beam)
DEVICE = (gpu.OutOfMemoryError, gpu.CompileException, gpu.CUDADriverError)


def attempt(call, dev, trace):
    """ one call; returns False if the device failed it """
    before = sum(trace.faults.values())
    try:
        got = call.fn(*call.args, **call.kw)
    except (Violation, Boom):
        raise
    except DEVICE as e:
        if sum(trace.faults.values()) == before:
            raise Violation("raised", "%s: %s: %s" % (
                call.name, type(e).__name__, str(e)[:300]),
                "raised:%s:%s" % (call.name, type(e).__name__))
        trace.log(call.name, "failed", type(e).__name__)
        return False
    except Exception as e:
        if call.refused is not None and isinstance(e, call.refused):
            trace.log(call.name, "refused")
            return True
        raise Violation("raised", "%s: %s: %s" % (
            call.name, type(e).__name__, str(e)[:300]),
            "raised:%s:%s" % (call.name, type(e).__name__))
    call.check(got)
    trace.log(call.name, "ok", got.shape, got.dtype)
    return True


def run(ch, trace):
    dev = gpu.current = gpu.Device(ch, trace)
    name = ch.pick(sorted(KINDS))
    calls = []
    for _ in range(ch.integer(1, 4)):
        if ch.flip(0.15):
            name = ch.pick(sorted(KINDS))
        like = [c for c in calls if c.name == name == "convert"]
        calls.append(convert(ch, like[-1]) if like else KINDS[name](ch))
    for c in calls:
        trace.log("call", c.name, [(a.shape, str(a.dtype))
                                   for a in c.arrays()])
    before = [[a.tobytes() for a in c.arrays()] for c in calls]
    threaded = len(calls) > 1 and ch.flip(0.3)
    dev.faults = ch.flip(0.35)
    if threaded:
        sim = Simulation(ch, trace, opcodes=ch.flip(0.2), max_steps=200000,
                         quantum=(1, 2, 3, 5, 9, 17, 40))
        ts = [sim.spawn(lambda c=c: attempt(c, dev, trace), "caller%d" % i)
              for i, c in enumerate(calls)]
        sim.run(until=lambda: all(t.done for t in ts))
        for t in ts:
            if t.exc is not None:
                raise t.exc
        again = [c for c, t in zip(calls, ts) if t.result is False]
    else:
        again = [c for c in calls if not attempt(c, dev, trace)]
    dev.faults = False
    for c in again:
        attempt(c, dev, trace)
    for c, b in zip(calls, before):
        if [a.tobytes() for a in c.arrays()] != b:
            raise Violation("inputs", "%s changed its inputs" % c.name,
                            "inputs:%s" % c.name)
        if c.small and c.refused is None and ch.flip(0.5):
            host = c.cpu(*[np.ascontiguousarray(a)
                           if isinstance(a, np.ndarray) else a
                           for a in c.args], **c.kw)
            trace.probe("compared with the CPU")
            c.check(np.asarray(host), host=True)
