"""
Scenarios evaluated directly (no dask): every catalogue entry's single-process
function plus the functions that have no lazy version.
"""
import numpy as np

from props import ops
from props.ops import Scenario, _cplx, _real, _time_layout


def kron(ch):
    from africanus.linalg import kronecker_tools as kt
    rs = ch.nprng()
    which = ch.pick(("kron_matvec", "kron_tensorvec", "kron_matmat",
                     "kron_tensormat", "kron_cholesky"))
    nd = ch.integer(1, 3)
    mats = []
    for _ in range(nd):
        n = ch.integer(1, 3)
        m = ch.integer(1, 3) if "tensor" in which else n
        a = rs.randint(-4, 5, (m, n)) / 2.0
        if which == "kron_cholesky":
            a = a @ a.T + 3 * np.eye(n)
        mats.append(a)
    inputs = {"m%d" % i: a for i, a in enumerate(mats)}
    cols = int(np.prod([a.shape[1] for a in mats]))
    if "vec" in which:
        inputs["b"] = rs.randint(-4, 5, cols) / 2.0
    elif "mat" in which:
        inputs["b"] = rs.randint(-4, 5, (cols, ch.integer(1, 3))) / 2.0

    def obj(d):
        a = np.empty(nd, dtype=object)
        for i in range(nd):
            a[i] = d["m%d" % i]
        return a

    def call(d):
        f = getattr(kt, which)
        if which == "kron_cholesky":
            return [np.asarray(x) for x in f(obj(d))]
        return [f(obj(d), d["b"])]

    def model(d):
        ms = [d["m%d" % i] for i in range(nd)]
        if which == "kron_cholesky":
            return [np.linalg.cholesky(m) for m in ms]
        k = np.eye(1)
        for m in ms:
            k = np.kron(k, m)
        return [k @ d["b"]]

    return Scenario("linalg." + which, inputs, None, None, call, model=model,
                    model_rtol=1e-9)


def hogbom(ch):
    from africanus.deconv.hogbom import hogbom_clean
    rs = ch.nprng()
    n = ch.integer(2, 4)
    psf = rs.rand(2 * n, 2 * n) * 0.2
    psf[n - 1, n - 1] = 1.0     # centred so that the loop converges
    dirty = rs.rand(n, n)
    niter = ch.pick((3, "default"))
    thr = ch.pick(("default", 0.4))
    return Scenario("hogbom_clean", {"dirty": dirty, "psf": psf}, None, None,
                    lambda d: list(hogbom_clean(
                        d["dirty"], d["psf"], 0.2, threshold=thr,
                        niter=niter)))


def gp(ch):
    from africanus.gps import abs_diff, exponential_squared
    rs = ch.nprng()
    dim = ch.integer(1, 2)
    x, xp = rs.rand(ch.integer(1, 4), dim), rs.rand(ch.integer(1, 4), dim)
    if ch.flip(0.5):
        return Scenario("gps.abs_diff", {"x": x, "xp": xp}, None, None,
                        lambda d: [abs_diff(d["x"], d["xp"])])
    return Scenario("gps.exponential_squared", {"x": x, "xp": xp}, None,
                    None, lambda d: [exponential_squared(
                        d["x"], d["xp"], 1.5, 0.7)])


def apply_gains(ch):
    from africanus.rime import apply_gains as f
    rs = ch.nprng()
    ntime, nant, counts, tidx, a1, a2 = _time_layout(ch, rs, 3, 3)
    nchan = ch.integer(1, 2)
    corr = ch.pick(((1,), (2,), (2, 2)))
    inputs = {"t": tidx, "a1": a1, "a2": a2,
              "g1": _cplx(rs, (ntime, nant, nchan) + corr),
              "v": _cplx(rs, (tidx.size, nchan) + corr),
              "g2": _cplx(rs, (ntime, nant, nchan) + corr)}
    o = ("t", "a1", "a2", "g1", "v", "g2")
    return Scenario("apply_gains", inputs, None, None,
                    lambda d: [f(*[d[k] for k in o])])


def gauss_newton(ch):
    from africanus.calibration.phase_only import gauss_newton as f
    rs = ch.nprng()
    nt, nant, nchan, ndir = ch.integer(1, 2), 3, 1, ch.integer(1, 2)
    p, q = np.triu_indices(nant, 1)
    nbl = p.size
    a1 = np.tile(p, nt).astype(np.int32)
    a2 = np.tile(q, nt).astype(np.int32)
    tbi = (np.arange(nt) * nbl).astype(np.int32)
    tbc = np.full(nt, nbl, np.int32)
    ncorr = 2
    inputs = dict(
        tbi=tbi, tbc=tbc, a1=a1, a2=a2,
        jones=np.ones((nt, nant, nchan, ndir, ncorr), np.complex128),
        vis=_cplx(rs, (nt * nbl, nchan, ncorr)) + 3,
        flag=np.zeros((nt * nbl, nchan, ncorr), bool),
        model=_cplx(rs, (nt * nbl, nchan, ndir, ncorr)) + 3,
        weight=np.ones((nt * nbl, nchan, ncorr)))

    def call(d):
        g, jhj, jhr, k = f(d["tbi"], d["tbc"], d["a1"], d["a2"], d["jones"],
                           d["vis"], d["flag"], d["model"], d["weight"],
                           tol=1e-3, maxiter=3)
        return [g, jhj, jhr, np.array(k)]
    return Scenario("phase_only.gauss_newton", inputs, None, None, call)


def chunkify(ch):
    from africanus.calibration.utils import chunkify_rows
    rs = ch.nprng()
    time = np.sort(rs.randint(0, ch.integer(1, 5), ch.integer(1, 9))) * 1.5
    k = ch.integer(1, 3)

    def call(d):
        r, i, c = chunkify_rows(d["time"], k)
        return [np.array(r), i, c]
    return Scenario("chunkify_rows", {"time": time}, None, None, call)


def cell_size(ch):
    from africanus.gridding.util import estimate_cell_size as f
    rs = ch.nprng()
    inputs = {"u": rs.uniform(-50, 50, 6), "v": rs.uniform(-50, 50, 6),
              "w": np.array([0.2, 0.3])}
    return Scenario("estimate_cell_size", inputs, None, None,
                    lambda d: [np.asarray(f(d["u"], d["v"], d["w"]))])


EXTRA = [kron, hogbom, gp, apply_gains, gauss_newton, chunkify, cell_size]

# natively used without numba first: weights of the lottery
ALL = ([ops.wgridder] * 3 + [ops.coherency] * 3 + [kron] * 2 +
       [ops.predict_vis] * 2 + [ops.averaging, ops.calibration,
                                ops.dft_im_to_vis, ops.dft_vis_to_im,
                                ops.wsclean_predict, ops.phase_delay,
                                ops.feed_rotation, ops.parallactic_angles,
                                ops.transform_sources, ops.beam_cube,
                                ops.zernike, ops.gaussian, ops.spectral,
                                ops.spi_fit, ops.coordinates,
                                ops.wsclean_spectra, ops.perley_grid,
                                ops.perley_degrid] + EXTRA)

LAZY = [g for g in ALL if g not in EXTRA and g is not kron] + \
    [ops.nifty_grid, ops.nifty_degrid]
