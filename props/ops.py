"""
Catalogue of africanus' lazy (dask) operators.

Each entry generates a random problem from the choice stream and returns a
``Scenario``: plain numpy inputs, a chunking, how to build the lazy result from
dask arrays, and the single-process reference on the same numpy inputs.
"""
import functools
import pickle

import numpy as np

from props import models
from sim.cluster import Tol
from sim.core import Violation

C = 299792458.0


class Scenario(object):
    def __init__(self, name, inputs, chunks, build, reference, rtol=1e-8,
                 model=None, model_rtol=1e-6, python=True, params=None):
        self.name = name
        self.inputs = inputs        # {name: ndarray}
        self.chunks = chunks        # {name: chunks}
        self.build = build          # f({name: da.Array}) -> [collections]
        self.reference = reference  # f({name: ndarray}) -> [ndarray]
        self.model = model          # independent reference model (optional)
        self.rtol = rtol
        self.model_rtol = model_rtol
        self.python = python        # kernels interpreted (pre-emptible)
        self.params = params or {}
        self.stream_source = None
        self.variant = None     # f(choices) -> sibling scenario
        self.dtypes = False     # lazy and eager dtypes must agree
        # [[(input, axis), ...]]: axes that an operation needs whole; cut
        # together they are either refused or make no difference
        self.whole = []
        self.cut = False        # such an axis is cut

    def lazy(self, inputs=None):
        import dask.array as da
        inputs = self.inputs if inputs is None else inputs
        return {k: da.from_array(v, chunks=self.chunks[k], name=None)
                for k, v in inputs.items()}

    def copies(self):
        return {k: v.copy() for k, v in self.inputs.items()}


def cut_whole(ch, sc):
    """ cut an axis that the operation needs whole """
    def size(k, ax):
        return sc.inputs[k].shape[ax]
    can = [w for w in sc.whole if w and size(*w[0]) > 1]
    if not can:
        return None
    w = ch.pick(can)
    n = size(*w[0])
    k = 1 + ch.draw(n - 1)
    for name, ax in w:
        c = list(sc.chunks[name])
        c[ax] = (k, n - k)
        sc.chunks[name] = tuple(c)
    sc.cut = True
    return w


# ---------------------------------------------------------------------------
# helpers
# ---------------------------------------------------------------------------
def _dim(ch, hi, big=None):
    """ a length: small, now and then well beyond usual sizes """
    n = ch.integer(1, hi)
    if ch.flip(0.025):
        n = ch.integer(hi + 1, big or 8 * hi)
    return n


def _prec(ch, inputs, keep=()):
    """ single precision (all or some of the inputs) now and then: True if
    anything is """
    low = {np.dtype(np.float64): np.float32,
           np.dtype(np.complex128): np.complex64}
    how = ch.weighted([("no", 8), ("all", 1), ("some", 1)])
    hit = False
    for k in sorted(inputs):
        v = inputs[k]
        if how == "no" or k in keep or v.dtype not in low:
            continue
        if how == "all" or ch.flip(0.5):
            inputs[k] = v.astype(low[v.dtype])
            hit = True
    return hit


# what each of these inputs can be: a direction stays within the unit disc,
# a logarithmic spectrum needs a positive flux
_ALLOWED = {"lm": ("zero", "repeat", "nothing"),
            "flux": ("repeat",), "coeffs": ("repeat",)}


_ALLOWED_ANY = ("zero", "repeat", "nothing", "ones")


def _special(ch, rs, a, kinds=_ALLOWED_ANY):
    """ nothing, or the same, in part of an array """
    how = ch.pick(kinds)
    a = a.copy()
    if how == "nothing":
        a[...] = 0
    elif a.ndim and a.shape[0]:
        ax = ch.draw(a.ndim)
        n = a.shape[ax]
        i, j = ch.draw(n), ch.draw(n)
        v = np.moveaxis(a, ax, 0)
        v[i] = v[j] if how == "repeat" else 0 if how == "zero" else 1
    return a


def varied(special=(), prec=None, single_rtol=1e-3, floor=()):
    """ unusual values and single precision in some of the inputs; ``floor``
    names the inputs whose product is the size of one term of the sums the
    operation computes """
    def deco(gen):
        @functools.wraps(gen)
        def f(ch, *args, **kw):
            sc = gen(ch, *args, **kw)
            if getattr(sc, "refused", None):
                return sc
            if ch.flip(0.25):
                rs = ch.nprng()
                for k in special:
                    if k in sc.inputs and ch.flip(0.4):
                        sc.inputs[k] = _special(
                            ch, rs, sc.inputs[k],
                            _ALLOWED.get(k, _ALLOWED_ANY))
            if prec is not None and _prec(ch, sc.inputs, prec):
                sc.rtol = max(sc.rtol, single_rtol)
                sc.model_rtol = max(sc.model_rtol, single_rtol)
            size = floor if isinstance(floor, float) else float(bool(floor))
            for k in () if isinstance(floor, float) else floor:
                a = sc.inputs.get(k)
                if a is not None and a.size:
                    size *= float(np.abs(a).max())
            if size:
                sc.rtol = Tol.of(sc.rtol, size)
                sc.model_rtol = Tol.of(sc.model_rtol, size)
            return sc
        return f
    return deco


def _tol(single):
    return dict(rtol=1e-3, model_rtol=1e-3) if single else {}


def _cplx(rs, shape, dtype=np.complex128):
    return (rs.randint(-8, 9, shape) / 4.0 +
            1j * rs.randint(-8, 9, shape) / 4.0).astype(dtype)


def _real(rs, shape, dtype=np.float64):
    return (rs.randint(-16, 17, shape) / 8.0).astype(dtype)


def _freq(rs, n, ordered=False):
    """ evenly spaced, unevenly spaced or (unless ordered) in any order """
    if n == 1:
        return np.array([1.1e9])
    f = np.linspace(0.9e9, 1.7e9, n)
    how = rs.randint(4)
    if how:
        f = f + rs.uniform(0, 1, n) * 0.9 * (f[1] - f[0])
    if how == 2 and not ordered:
        f = f[::-1].copy()
    if how == 3 and not ordered:
        f = f[rs.permutation(n)]
    return f


def _lm(ch, rs, n):
    return rs.uniform(-1, 1, (n, 2)) * ch.pick((1e-2, 1e-2, 0.3, 0.6))


def _time_layout(ch, rs, max_time=5, max_bl=4, nant=None):
    """ rows sorted by time, several baselines per time """
    ntime = ch.integer(1, max_time)
    nant = nant or ch.integer(2, 4)
    tidx, a1, a2, counts = [], [], [], []
    for t in range(ntime):
        nb = ch.integer(1, max_bl)
        counts.append(nb)
        for _ in range(nb):
            p = rs.randint(0, nant)
            q = rs.randint(0, nant)
            tidx.append(t)
            a1.append(min(p, q))
            a2.append(max(p, q))
    return (ntime, nant, np.array(counts), np.array(tidx, np.int32),
            np.array(a1, np.int32), np.array(a2, np.int32))


def _time_chunks(ch, counts, max_parts=4):
    tc = ch.composition(len(counts), max_parts)
    rc, i = [], 0
    for c in tc:
        rc.append(int(counts[i:i + c].sum()))
        i += c
    return tuple(rc), tc


def _aggregated_chunks(ch, counts):
    """ row and time chunks made as the documentation of predict_vis says """
    from africanus.util.shapes import aggregate_chunks
    ntime = len(counts)
    most = (ch.integer(1, int(counts.sum())), ch.integer(1, ntime))
    rc, tc = aggregate_chunks((tuple(int(c) for c in counts), (1,) * ntime),
                              most)
    bad = len(rc) != len(tc) or sum(tc) != ntime or min(tc) < 1
    i = 0
    for r, t in zip(rc, tc):
        bad = bad or r != counts[i:i + t].sum() or (
            t > 1 and (r > most[0] or t > most[1]))
        i += t
    if bad:
        raise Violation(
            "chunks", "aggregate_chunks: %s, %s of times with %s rows, at "
            "most %s" % (rc, tc, list(counts), most), "aggregate_chunks")
    return rc, tc


# ---------------------------------------------------------------------------
# wgridder
# ---------------------------------------------------------------------------
def _explicit_dirty(uvw, freq, ms, wgt, nx, ny, cx, cy, apply_w):
    x, y = np.meshgrid(*[-s / 2 + np.arange(s) for s in (nx, ny)],
                       indexing='ij')
    x = x * cx
    y = y * cy
    eps = x**2 + y**2
    nm1 = -eps / (np.sqrt(1. - eps) + 1.) if apply_w else 0 * eps
    n = nm1 + 1
    res = np.zeros((nx, ny))
    for r in range(ms.shape[0]):
        for f in range(ms.shape[1]):
            ph = freq[f] / C * (x * uvw[r, 0] + y * uvw[r, 1] -
                                uvw[r, 2] * nm1)
            res += (ms[r, f] * wgt[r, f] * np.exp(2j * np.pi * ph)).real
    return res / n


def _explicit_model(uvw, freq, image, wgt, cx, cy, apply_w):
    nx, ny = image.shape
    x, y = np.meshgrid(*[-s / 2 + np.arange(s) for s in (nx, ny)],
                       indexing='ij')
    x = x * cx
    y = y * cy
    eps = x**2 + y**2
    nm1 = -eps / (np.sqrt(1. - eps) + 1.) if apply_w else 0 * eps
    n = nm1 + 1
    out = np.zeros((uvw.shape[0], freq.size), np.complex128)
    for r in range(uvw.shape[0]):
        for f in range(freq.size):
            ph = freq[f] / C * (x * uvw[r, 0] + y * uvw[r, 1] -
                                uvw[r, 2] * nm1)
            out[r, f] = (image / n * np.exp(-2j * np.pi * ph)).sum()
    return out * wgt


def wgridder(ch, which=None):
    import africanus.gridding.wgridder as npw
    import africanus.gridding.wgridder.dask as daw
    which = which or ch.pick(("dirty", "model", "residual", "hessian"))
    rs = ch.nprng()
    nrow = ch.integer(1, 14)
    nband = ch.weighted([(1, 3), (2, 4), (3, 4), (4, 2), (5, 1)])
    most = ch.pick((3, 3, 3, 1))
    counts = np.array([ch.integer(1, most) for _ in range(nband)])
    # channels between two bands that belong to neither
    gaps = np.zeros(nband, int)
    if ch.flip(0.2):
        gaps = np.array([ch.draw(2) for _ in range(nband)])
    nchan = int(counts.sum() + gaps.sum())
    nx = 2 * ch.integer(8, 10)
    ny = 2 * ch.integer(8, 10)
    single = ch.flip(0.25)
    rt, ct = (np.float32, np.complex64) if single else \
        (np.float64, np.complex128)
    wstack = not ch.flip(0.3)
    use_w = ch.flip(0.5)
    use_f = ch.flip(0.5)
    double_accum = ch.flip(0.4)
    freq = _freq(rs, nchan, True)
    uvw = rs.uniform(-1, 1, (nrow, 3)) * np.array([300, 300, 80])
    fov = 3.0
    cell = fov * np.pi / 180 / nx
    celly = None if not ch.flip(0.4) else cell * ch.pick((0.9, 1.0, 1.2))
    eps = ch.pick((1e-5, 1e-4) if single else (1e-9, 1e-7, 1e-4, 1e-12))
    vis = _cplx(rs, (nrow, nchan), ct)
    wgt = (rs.randint(1, 9, (nrow, nchan)) / 4.0).astype(rt)
    if ch.flip(0.2):
        wgt[rs.rand(nrow, nchan) > 0.6] = 0
    keep = ch.pick((0.7, 0.3, 0.0, 1.0))
    mask = (rs.rand(nrow, nchan) < keep).astype(np.uint8)
    if ch.flip(0.3):        # nothing of the first or last rows
        mask[:nrow // 2] = 0
    image = _real(rs, (nband, nx, ny), rt)
    if ch.flip(0.25):
        uvw, vis, image = [_special(ch, rs, x) if ch.flip(0.4) else x
                           for x in (uvw, vis, image)]
    width = counts + gaps
    fbi = np.concatenate([[0], np.cumsum(width)[:-1]]).astype(np.int64)
    fbc = counts.astype(np.int64)
    # chunking: rows arbitrary, bands arbitrary, channels follow the bands
    rc = ch.composition(nrow, 4)
    bc = ch.composition(nband, 3)
    cc, i = [], 0
    for b in bc:
        cc.append(int(width[i:i + b].sum()))
        if ch.flip(0.08):   # bands listed in another order
            p = np.array(ch.perm(b), int) + i
            fbi[i:i + b], fbc[i:i + b] = fbi[p], fbc[p]
        i += b
    cc = tuple(cc)
    if single and double_accum and which != "model" and \
            counts.max() == 1 and ch.flip(0.7):
        # pairs of rows that cancel exactly: what remains is only right when
        # accumulated in double precision, as was asked for (ducc does that
        # per channel: it sums the channels of a row in single precision)
        start = 0
        for n in rc:
            if n >= 3:
                i, j = start, start + 1
                uvw[j], wgt[j], mask[j] = uvw[i], wgt[i], mask[i]
                if which == "dirty":
                    vis[i] *= 1e6
                    vis[j] = -vis[i]
                else:
                    use_w = True
                    vis[j] = vis[i]
                    wgt[i] = 1e6
                    wgt[j] = -1e6
                mask[start + 2], wgt[start + 2] = 1, 1
            start += n
    if ch.flip(0.3):
        fbi, fbc = fbi.astype(np.int32), fbc.astype(np.int32)
    if ch.flip(0.2):        # transposed / strided memory
        vis, wgt = np.asfortranarray(vis), np.asfortranarray(wgt)
        mask, uvw = np.asfortranarray(mask), np.asfortranarray(uvw)
        image = np.ascontiguousarray(image.T).T
    inputs = {"uvw": uvw, "freq": freq, "fbi": fbi, "fbc": fbc}
    chunks = {"uvw": (rc, (3,)), "freq": (cc,), "fbi": (bc,), "fbc": (bc,)}
    if which in ("dirty", "residual"):
        inputs["vis"] = vis
        chunks["vis"] = (rc, cc)
    if which != "dirty":
        inputs["image"] = image
        chunks["image"] = (bc, (nx,), (ny,))
    if use_w:
        inputs["weights"] = wgt
        chunks["weights"] = (rc, cc)
    if use_f:
        inputs["flag"] = mask
        chunks["flag"] = (rc, cc)
    kw = dict(celly=celly, epsilon=eps, do_wstacking=wstack)
    if ch.flip(0.1):        # the documented default accuracy
        del kw["epsilon"]
        eps = 1e-5
    nthreads = ch.pick(("default", 1, None, 0))
    if nthreads != "default":
        kw["nthreads"] = nthreads
    if which != "model":
        kw["double_accum"] = double_accum
    for k, default in (("celly", None), ("do_wstacking", True),
                       ("double_accum", False)):
        if k in kw and kw[k] == default and ch.flip(0.3):
            del kw[k]

    def call(mod, d):
        opt = dict(kw, weights=d.get("weights"), flag=d.get("flag"))
        if which == "dirty":
            return mod.dirty(d["uvw"], d["freq"], d["vis"], d["fbi"],
                             d["fbc"], nx, ny, cell, **opt)
        if which == "model":
            return mod.model(d["uvw"], d["freq"], d["image"], d["fbi"],
                             d["fbc"], cell, **opt)
        if which == "residual":
            return mod.residual(d["uvw"], d["freq"], d["image"], d["vis"],
                                d["fbi"], d["fbc"], cell, **opt)
        return mod.hessian(d["uvw"], d["freq"], d["image"], d["fbi"],
                           d["fbc"], cell, **opt)

    def model(d):
        cy = cell if celly is None else celly
        full = np.zeros((nrow, nchan), np.complex128)
        w = d.get("weights", np.ones((nrow, nchan)))
        m = d.get("flag", np.ones((nrow, nchan), np.uint8)) != 0
        out = []
        for b in range(nband):
            sl = slice(fbi[b], fbi[b] + fbc[b])
            fr = d["freq"][sl]
            if which == "model":
                full[:, sl] = _explicit_model(
                    d["uvw"], fr, d["image"][b], w[:, sl] * m[:, sl], cell,
                    cy, wstack)
                continue
            if which == "dirty":
                v = d["vis"][:, sl]
            else:
                mv = _explicit_model(d["uvw"], fr, d["image"][b],
                                     np.ones((nrow, fr.size)), cell, cy,
                                     wstack)
                v = d["vis"][:, sl] - mv if which == "residual" else mv
            out.append(_explicit_dirty(d["uvw"], fr, v, w[:, sl] * m[:, sl],
                                       nx, ny, cell, cy, wstack))
        if which == "model":
            return [full]
        return [np.stack(out)]

    # accuracy is relative to the norm of the input, and the result may cancel
    tol = Tol.of(30 * eps, 0.1 * np.sqrt((np.abs(
        image if which == "model" else vis)**2).sum()))
    return Scenario("wgridder." + which, inputs, chunks,
                    lambda d: [call(daw, d)], lambda d: [call(npw, d)],
                    rtol=tol, model=model, model_rtol=tol,
                    params=dict(nrow=nrow, bands=bc, rows=rc, nx=nx, ny=ny,
                                wgt=use_w, flag=use_f, single=single,
                                counts=tuple(fbc), start=tuple(fbi),
                                kw=sorted(kw)))


# ---------------------------------------------------------------------------
# predict_vis
# ---------------------------------------------------------------------------
def _jmul(a, b, corr):
    if len(corr) == 2:
        return np.einsum("...ij,...jk->...ik", a, b)
    return a * b


def _herm(a, corr):
    if len(corr) == 2:
        return np.conj(np.swapaxes(a, -1, -2))
    return np.conj(a)


@varied(("dde1", "dde2", "coh", "die1", "die2", "base"),
        floor=("dde1", "coh", "die1"))
def predict_vis(ch, streams=None):
    from africanus.rime.predict import predict_vis as np_predict
    from africanus.rime.predict import apply_gains
    from africanus.rime.dask import predict_vis as da_predict
    rs = ch.nprng()
    ntime, nant, counts, tidx, a1, a2 = _time_layout(ch, rs, 4, 3)
    nrow = tidx.size
    nsrc = _dim(ch, 6, 30)
    nchan = _dim(ch, 3, 20)
    corr = ch.pick(((1,), (2,), (2, 2)))
    base_time = ch.pick((0, 3))
    if ch.flip(0.2):
        rc, tc = _aggregated_chunks(ch, counts)
    else:
        rc, tc = _time_chunks(ch, counts, 3)
    if ch.flip(0.3):
        # in any order of times and antennas within a chunk
        at = np.concatenate([i + rs.permutation(n) for i, n in
                             zip(np.cumsum((0,) + rc), rc)])
        tidx, a1, a2 = tidx[at], a1[at], a2[at]
        swap = rs.rand(nrow) < 0.3
        a1, a2 = np.where(swap, a2, a1), np.where(swap, a1, a2)
    sc = ch.composition(nsrc, 5)
    cc = ch.composition(nchan, 2)
    kc = tuple((c,) for c in corr)
    if corr == (2,) and ch.flip(0.3):
        kc = ((1, 1),)
    terms = ch.draw(8)
    have_dde, have_coh = bool(terms & 1) or terms == 4, bool(terms & 2)
    have_die = ch.flip(0.5)
    have_base = ch.flip(0.5)
    if not (have_dde or have_coh or have_die or have_base):
        have_dde = True
    if streams is None:
        streams = ch.flip(0.5)
    same_jones = ch.flip(0.3)
    inputs = {"t": (tidx + base_time).astype(np.int32), "a1": a1, "a2": a2}
    chunks = {"t": (rc,), "a1": (rc,), "a2": (rc,)}
    if have_dde:
        inputs["dde1"] = _cplx(rs, (nsrc, ntime, nant, nchan) + corr)
        chunks["dde1"] = (sc, tc, (nant,), cc) + kc
        if not same_jones:
            inputs["dde2"] = _cplx(rs, (nsrc, ntime, nant, nchan) + corr)
            chunks["dde2"] = chunks["dde1"]
    if have_coh:
        inputs["coh"] = _cplx(rs, (nsrc, nrow, nchan) + corr)
        chunks["coh"] = (sc, rc, cc) + kc
    if have_die:
        inputs["die1"] = _cplx(rs, (ntime, nant, nchan) + corr)
        chunks["die1"] = (tc, (nant,), cc) + kc
        if not same_jones:
            inputs["die2"] = _cplx(rs, (ntime, nant, nchan) + corr)
            chunks["die2"] = chunks["die1"]
    if have_base:
        inputs["base"] = _cplx(rs, (nrow, nchan) + corr)
        chunks["base"] = (rc, cc) + kc
    single = _prec(ch, inputs)

    def args(d):
        return (d["t"], d["a1"], d["a2"], d.get("dde1"), d.get("coh"),
                d.get("dde2", d.get("dde1")), d.get("die1"), d.get("base"),
                d.get("die2", d.get("die1")))

    def model(d):
        t = d["t"] - d["t"].min()
        out = np.zeros((nrow, nchan) + corr, np.complex128)
        for r in range(nrow):
            p, q = d["a1"][r], d["a2"][r]
            acc = np.zeros((nchan,) + corr, np.complex128)
            if have_dde or have_coh:
                for s in range(nsrc):
                    if have_dde:
                        j1 = d["dde1"][s, t[r], p]
                        j2 = _herm(d.get("dde2", d["dde1"])[s, t[r], q], corr)
                        x = (_jmul(_jmul(j1, d["coh"][s, r], corr), j2, corr)
                             if have_coh else _jmul(j1, j2, corr))
                    else:
                        x = d["coh"][s, r]
                    acc = acc + x
            if have_base:
                acc = acc + d["base"][r]
            if have_die:
                g1 = d["die1"][t[r], p]
                g2 = _herm(d.get("die2", d["die1"])[t[r], q], corr)
                acc = _jmul(_jmul(g1, acc, corr), g2, corr)
            out[r] = acc
        return [out]

    def reference(d):
        if have_die and have_base and not (have_dde or have_coh):
            return [apply_gains(*[args(d)[i] for i in (0, 1, 2, 6, 7, 8)])]
        return [np_predict(*args(d))]

    sc_ = Scenario("predict_vis", inputs, chunks,
                   lambda d: [da_predict(*args(d), streams=streams)],
                   reference, model=model,
                   rtol=1e-5 if single else 1e-8,
                   model_rtol=1e-5 if single else 1e-9,
                   params=dict(streams=streams, source_chunks=sc,
                               row_chunks=rc, time_chunks=tc, corr=corr,
                               dde=have_dde, coh=have_coh, die=have_die,
                               base=have_base, nchan=cc,
                               corr_blocks=len(kc[0])))
    sc_.whole = [[(k, inputs[k].ndim - len(corr) - 2)] for k in
                 ("dde1", "dde2", "die1", "die2") if k in inputs]
    if corr == (2, 2):
        sc_.whole += [[(k, inputs[k].ndim - i) for k in inputs
                       if inputs[k].ndim > 2] for i in (1, 2)]
    sc_.stream = streams
    sc_.nsource_chunks = len(sc)
    return sc_


def _wsclean_inputs(ch, rs):
    nsrc = _dim(ch, 6, 30)
    nrow = _dim(ch, 6, 30)
    nchan = _dim(ch, 3, 20)
    ncoef = ch.integer(1, 3)
    sc = ch.composition(nsrc, 4)
    rc = ch.composition(nrow, 3)
    cc = ch.composition(nchan, 2)
    inputs = {
        "uvw": rs.uniform(-1, 1, (nrow, 3)) * 50,
        "lm": rs.uniform(-1, 1, (nsrc, 2)) * 1e-2,
        "stype": np.where(rs.rand(nsrc) > 0.5, "POINT", "GAUSSIAN"),
        "flux": rs.randint(1, 9, nsrc) / 4.0,
        "coeffs": rs.randint(1, 9, (nsrc, ncoef)) / 16.0,
        "logp": rs.rand(nsrc) > 0.5,
        "ref": np.full(nsrc, 1.0e9) + rs.randint(0, 5, nsrc) * 1e7,
        "gauss": rs.uniform(0, 1, (nsrc, 3)) * np.array([1e-3, 1e-3, 3.0]),
        "freq": _freq(rs, nchan),
    }
    chunks = {"uvw": (rc, (3,)), "lm": (sc, (2,)), "stype": (sc,),
              "flux": (sc,), "coeffs": (sc, (ncoef,)), "logp": (sc,),
              "ref": (sc,), "gauss": (sc, (3,)), "freq": (cc,)}
    return inputs, chunks, dict(source_chunks=sc, row_chunks=rc,
                                chan_chunks=cc)


@varied(("uvw", "lm", "flux", "coeffs", "gauss"), prec=("freq", "ref"),
        floor=("flux",))
def wsclean_predict(ch):
    from africanus.rime.wsclean_predict import wsclean_predict as np_f
    from africanus.rime.dask import wsclean_predict as da_f
    rs = ch.nprng()
    inputs, chunks, params = _wsclean_inputs(ch, rs)
    order = ("uvw", "lm", "stype", "flux", "coeffs", "logp", "ref", "gauss",
             "freq")
    scen = Scenario("wsclean_predict", inputs, chunks,
                    lambda d: [da_f(*[d[k] for k in order])],
                    lambda d: [np_f(*[d[k] for k in order])],
                    model=lambda d: [models.wsclean_predict(d)],
                    model_rtol=1e-9, params=params)
    scen.whole = [[("coeffs", 1)]]
    return scen


@varied(("flux", "coeffs"), prec=())
def wsclean_spectra(ch):
    from africanus.model.wsclean.spec_model import spectra as np_f
    from africanus.model.wsclean.dask import spectra as da_f
    rs = ch.nprng()
    inputs, chunks, params = _wsclean_inputs(ch, rs)
    scalar_log = ch.flip(0.3)
    if scalar_log:
        inputs.pop("logp")
        chunks.pop("logp")
    keep = ("flux", "coeffs", "logp", "ref", "freq")
    inputs = {k: v for k, v in inputs.items() if k in keep}
    chunks = {k: v for k, v in chunks.items() if k in keep}

    def args(d):
        return (d["flux"], d["coeffs"], d.get("logp", True), d["ref"],
                d["freq"])
    scen = Scenario("wsclean_spectra", inputs, chunks,
                    lambda d: [da_f(*args(d))], lambda d: [np_f(*args(d))],
                    model=lambda d: [models.wsclean_spectra(*args(d))],
                    model_rtol=1e-9, params=params)
    scen.whole = [[("coeffs", 1)]]
    return scen


# ---------------------------------------------------------------------------
# DFT
# ---------------------------------------------------------------------------
@varied(("image", "uvw", "lm"), prec=(), floor=("image",))
def dft_im_to_vis(ch):
    from africanus.dft.kernels import im_to_vis as np_f
    from africanus.dft.dask import im_to_vis as da_f
    rs = ch.nprng()
    nrow, nsrc, nchan, ncorr = (_dim(ch, 6, 30), _dim(ch, 4, 30),
                                _dim(ch, 3, 20), ch.pick((1, 2, 4)))
    conv = ch.pick(("fourier", "casa"))
    kw = ch.pick(({}, {}, dict(dtype=np.complex128), dict(dtype=np.complex64)))
    rc = ch.composition(nrow, 4)
    cc = ch.composition(nchan, 3)
    kc = ch.composition(ncorr, 2)
    inputs = {"image": _real(rs, (nsrc, nchan, ncorr)),
              "uvw": rs.uniform(-1, 1, (nrow, 3)) * 60,
              "lm": _lm(ch, rs, nsrc),
              "freq": _freq(rs, nchan)}
    chunks = {"image": ((nsrc,), cc, kc), "uvw": (rc, (3,)),
              "lm": ((nsrc,), (2,)), "freq": (cc,)}
    order = ("image", "uvw", "lm", "freq")

    def model(d):
        sign = -1 if conv == "fourier" else 1
        n = np.sqrt(1 - (d["lm"]**2).sum(1)) - 1
        lmn = np.concatenate([d["lm"], n[:, None]], axis=1)
        ph = np.einsum("rx,sx,f->rsf", d["uvw"], lmn, d["freq"])
        return [np.einsum("rsf,sfc->rfc",
                          np.exp(sign * 2j * np.pi / C * ph), d["image"])]
    scen = Scenario("dft.im_to_vis", inputs, chunks,
                    lambda d: [da_f(*[d[k] for k in order], convention=conv,
                                    **kw)],
                    lambda d: [np_f(*[d[k] for k in order], convention=conv,
                                    dtype=kw.get("dtype", np.complex128))],
                    model=model, **_tol(kw.get("dtype") == np.complex64),
                    params=dict(row_chunks=rc, chan_chunks=cc))
    scen.whole = [[("image", 0), ("lm", 0)]]
    return scen


@varied(("vis", "uvw", "lm"), prec=(), floor=("vis",))
def dft_vis_to_im(ch):
    from africanus.dft.kernels import vis_to_im as np_f
    from africanus.dft.dask import vis_to_im as da_f
    rs = ch.nprng()
    nrow, nsrc, nchan, ncorr = (_dim(ch, 7, 30), _dim(ch, 3, 20),
                                _dim(ch, 3, 20), ch.pick((1, 2, 4)))
    conv = ch.pick(("fourier", "casa"))
    kw = ch.pick(({}, {}, dict(dtype=np.float64), dict(dtype=np.float32)))
    rc = ch.composition(nrow, 4)
    cc = ch.composition(nchan, 3)
    kc = ch.composition(ncorr, 2)
    sc = ch.composition(nsrc, 2)
    inputs = {"vis": _cplx(rs, (nrow, nchan, ncorr)),
              "uvw": rs.uniform(-1, 1, (nrow, 3)) * 60,
              "lm": _lm(ch, rs, nsrc),
              "freq": _freq(rs, nchan),
              "flags": rs.rand(nrow, nchan, ncorr) > 0.7}
    chunks = {"vis": (rc, cc, kc), "uvw": (rc, (3,)),
              "lm": (sc, (2,)), "freq": (cc,), "flags": (rc, cc, kc)}
    order = ("vis", "uvw", "lm", "freq", "flags")

    def model(d):
        sign = 1 if conv == "fourier" else -1
        n = np.sqrt(1 - (d["lm"]**2).sum(1)) - 1
        lmn = np.concatenate([d["lm"], n[:, None]], axis=1)
        ph = np.einsum("rx,sx,f->srf", d["uvw"], lmn, d["freq"])
        e = np.exp(sign * 2j * np.pi / C * ph)
        v = np.where(d["flags"].any(axis=2)[:, :, None], 0, d["vis"])
        return [np.einsum("srf,rfc->sfc", e, v).real]
    return Scenario("dft.vis_to_im", inputs, chunks,
                    lambda d: [da_f(*[d[k] for k in order], convention=conv,
                                    **kw)],
                    lambda d: [np_f(*[d[k] for k in order], convention=conv,
                                    dtype=kw.get("dtype", np.float64))],
                    model=model, **_tol(kw.get("dtype") == np.float32),
                    params=dict(row_chunks=rc, chan_chunks=cc,
                                source_chunks=sc))


# ---------------------------------------------------------------------------
# averaging
# ---------------------------------------------------------------------------
AVG_ROW = ("time_centroid", "exposure", "uvw", "weight", "sigma")
AVG_CHAN = ("chan_freq", "chan_width", "effective_bw", "resolution")
AVG_RC = ("vis", "flag", "weight_spectrum", "sigma_spectrum")


AVG_FIELDS = ("time", "interval", "flag_row", "antenna1", "antenna2") + \
    AVG_ROW + AVG_CHAN + AVG_RC


@varied(("vis", "uvw", "sigma", "exposure"), prec=("time", "interval", "chan_freq"))
def averaging(ch):
    from africanus.averaging import time_and_channel as np_f
    from africanus.averaging.dask import time_and_channel as da_f
    rs = ch.nprng()
    ntime = _dim(ch, 7, 20)
    nant = ch.integer(2, 3)
    nchan = _dim(ch, 5, 20) if ntime <= 7 else ch.integer(1, 4)
    ncorr = ch.pick((1, 2, 4))
    bls = [(p, q) for p in range(nant) for q in range(p, nant)
           if p != q or ch.flip(0.2)]
    gap = ch.pick((1.0, 1.0, 2.0, 0.5))
    rows = []
    for i in range(ntime):
        for p, q in bls:
            if rs.rand() < 0.85:
                rows.append((100.0 + gap * i, p, q))
    rows = rows or [(100.0, 0, 1)]
    if ch.flip(0.2):
        rows = [rows[i] for i in rs.permutation(len(rows))]
    t, a1, a2 = [list(x) for x in zip(*rows)]
    if ch.flip(0.3):
        # the numbers of antennas of which others are not in the data
        label = np.sort(rs.choice(200, nant, replace=False))
        a1, a2 = label[a1], label[a2]
    nrow = len(t)
    tbin = ch.pick((1.0, 2.0, 3.0, 10.0, 2.5, 4))
    cbin = ch.pick((1, 2, 3, 7))
    rc = ch.composition(nrow, 4)
    cc = ch.composition(nchan, 3) if ch.flip(0.6) else (nchan,)
    flag = rs.rand(nrow, nchan, ncorr) > ch.pick((0.8, 0.4, 1.0))
    fully = rs.rand(nrow) > ch.pick((0.8, 0.3))
    flag[fully] = True
    fully = flag.all(axis=(1, 2))
    interval = np.full(nrow, 1.0)
    if ch.flip(0.4):
        interval = rs.choice([0.5, 1.0, 1.5, 0.25], nrow)

    def weights(shape):
        w = rs.randint(1, 9, shape) / 4.0
        if ch.flip(0.15):
            w[rs.rand(*shape) > 0.5] = 0
        return w
    marks = fully.astype(ch.pick((np.uint8, np.uint8, np.bool_)))
    if marks.dtype == np.uint8 and ch.flip(0.15):
        marks *= 3                  # any positive value means flagged
    full = {
        "time": np.array(t), "interval": interval,
        "antenna1": np.array(a1, np.int32), "antenna2": np.array(a2, np.int32),
        "time_centroid": np.array(t) + rs.randint(0, 4, nrow) / 8.0,
        "exposure": rs.randint(1, 5, nrow) / 4.0,
        "flag_row": marks,
        "uvw": _real(rs, (nrow, 3)),
        "weight": weights((nrow, ncorr)),
        "sigma": rs.randint(1, 9, (nrow, ncorr)) / 4.0,
        "chan_freq": _freq(rs, nchan),
        "chan_width": rs.randint(1, 9, nchan) * 1e5,
        "effective_bw": rs.randint(1, 9, nchan) * 1e5,
        "resolution": rs.randint(1, 9, nchan) * 1e5,
        "vis": _cplx(rs, (nrow, nchan, ncorr)), "flag": flag,
        "weight_spectrum": weights((nrow, nchan, ncorr)),
        "sigma_spectrum": rs.randint(1, 9, (nrow, nchan, ncorr)) / 4.0,
    }
    kc = ch.composition(ncorr, 2) if ch.flip(0.3) else (ncorr,)
    row, rowc, rcc = (rc,), (rc, kc), (rc, cc, kc)
    allchunks = {k: row for k in full}
    allchunks.update(uvw=(rc, (3,)), weight=rowc, sigma=rowc)
    allchunks.update({k: (cc,) for k in AVG_CHAN})
    allchunks.update({k: rcc for k in AVG_RC})
    use = {"time", "interval", "antenna1", "antenna2"}
    for k in AVG_ROW:
        if ch.flip(0.7):
            use.add(k)
    for k in AVG_CHAN:
        if ch.flip(0.6):
            use.add(k)
    if ch.flip(0.8):
        use.add("vis")
    fl = ch.draw(4)
    if fl & 1:
        use.add("flag")
    if fl & 2:
        use.add("flag_row")
    if ch.flip(0.4):
        use.add("weight_spectrum")
    if ch.flip(0.3):
        use.add("sigma_spectrum")
    inputs = {k: v for k, v in full.items() if k in use}
    chunks = {k: allchunks[k] for k in inputs}
    kw = dict(time_bin_secs=tbin, chan_bin_size=cbin)
    if tbin == 1.0 and ch.flip(0.3):
        del kw["time_bin_secs"]
    if cbin == 1 and ch.flip(0.3):
        del kw["chan_bin_size"]

    def build(d):
        return [x for x in da_f(**d, **kw) if x is not None]

    def model(d):
        return models.averaging(d, rc, cc, tbin, cbin, AVG_FIELDS, nchan,
                                ncorr)

    def reference(d):
        if len(cc) > 1:
            # channel chunks share the row flags of the complete rows, so no
            # eager call does this
            return model(d)
        parts, start = [], 0
        for n in rc:
            out = np_f(**{k: v if k in AVG_CHAN else v[start:start + n]
                          for k, v in d.items()}, **kw)._asdict()
            parts.append(out)
            start += n
        return [parts[0][k] if k in AVG_CHAN else
                np.concatenate([x[k] for x in parts]) for k in AVG_FIELDS
                if parts[0][k] is not None]

    return Scenario("averaging", inputs, chunks, build, reference,
                    model=model, model_rtol=1e-9,
                    params=dict(row_chunks=rc, chan_chunks=cc, tbin=tbin,
                                cbin=cbin, given=sorted(use)))


def averaging_refused(ch):
    """ two rows of one baseline at one time; row flags that contradict the
    sample flags """
    from africanus.averaging import time_and_channel as np_f
    from africanus.averaging.dask import time_and_channel as da_f
    sc = averaging(ch)
    rs = ch.nprng()
    rc = sc.params["row_chunks"]
    kw = dict(time_bin_secs=sc.params["tbin"],
              chan_bin_size=sc.params["cbin"])
    starts = np.concatenate([[0], np.cumsum(rc)])
    shared = [i for i, n in enumerate(rc) if n > 1]
    kind = ch.pick(("duplicate", "flags"))
    if not (shared if kind == "duplicate" else
            {"flag", "flag_row"} <= set(sc.inputs)):
        sc.variant = sc.variant or averaging        # nothing to refuse here
        return sc
    if kind == "duplicate":
        b = ch.pick(shared)
        i, j = starts[b] + rs.choice(rc[b], 2, replace=False)
        for k in ("time", "antenna1", "antenna2"):
            sc.inputs[k] = sc.inputs[k].copy()
            sc.inputs[k][j] = sc.inputs[k][i]
        what = "the same baseline and time in rows %d and %d" % (i, j)
    else:
        i = rs.randint(starts[-1])
        old = sc.inputs["flag_row"]
        sc.inputs["flag_row"] = old.copy()
        sc.inputs["flag_row"][i] = not old[i]
        what = "contradicting flags in row %d" % i
    import dask

    def lazy(d):
        cols = [x for x in da_f(**d, **kw) if x is not None]
        with dask.config.set(scheduler="sync"):
            return list(dask.compute(*cols))

    def direct(d):
        for s, n in zip(starts, rc):
            np_f(**{k: v if k in AVG_CHAN else v[s:s + n]
                    for k, v in d.items()}, **kw)
    sc.build, sc.reference, sc.model = lazy, direct, None
    sc.refused = ValueError
    sc.params.update(kind=kind, outs="averages", ins=what)
    return sc


# ---------------------------------------------------------------------------
# calibration
# ---------------------------------------------------------------------------
@varied(("model", "vis", "uvw", "lm"), prec=(),
        floor=("model", "jones", "jones"))
def calibration(ch, which=None):
    import africanus.calibration.utils as npu
    import africanus.calibration.utils.dask as dau
    import africanus.calibration.phase_only as npp
    import africanus.calibration.phase_only.dask as dap
    which = which or ch.pick(("corrupt_vis", "correct_vis", "residual_vis",
                              "compute_and_corrupt_vis", "compute_jhj",
                              "compute_jhr"))
    rs = ch.nprng()
    ntime, nant, counts, tidx, a1, a2 = _time_layout(ch, rs, 5, 3)
    nrow = tidx.size
    nchan = _dim(ch, 3, 12)
    ndir = 1 if which == "correct_vis" else ch.integer(1, 2)
    mode = "DIAG_DIAG" if which in ("compute_jhj", "compute_jhr") else \
        ch.pick(("DIAG_DIAG", "DIAG", "FULL"))
    jcorr = (2, 2) if mode == "FULL" else (2,)
    vcorr = (2,) if mode == "DIAG_DIAG" else (2, 2)
    rc, tc = _time_chunks(ch, counts, 4)
    cc = ch.composition(nchan, 2)
    tbi = np.concatenate([[0], np.cumsum(counts)[:-1]]).astype(np.int32)
    tbc = counts.astype(np.int32)
    jk = tuple((c,) for c in jcorr)
    vk = tuple((c,) for c in vcorr)
    jones = _cplx(rs, (ntime, nant, nchan, ndir) + jcorr)
    jones[np.abs(jones) < 0.2] = 1.25 + 0.5j
    if mode == "FULL":
        # keep well conditioned
        jones[..., 0, 0] += 8
        jones[..., 1, 1] += 8
    inputs = {"tbi": tbi, "tbc": tbc, "a1": a1, "a2": a2, "jones": jones}
    chunks = {"tbi": (tc,), "tbc": (tc,), "a1": (rc,), "a2": (rc,),
              "jones": (tc, (nant,), cc, (ndir,)) + jk}
    if which == "compute_and_corrupt_vis":
        inputs["model"] = _cplx(rs, (ntime, nchan, ndir) + vcorr)
        chunks["model"] = (tc, cc, (ndir,)) + vk
        inputs["uvw"] = rs.uniform(-1, 1, (nrow, 3)) * 50
        chunks["uvw"] = (rc, (3,))
        inputs["freq"] = _freq(rs, nchan)
        chunks["freq"] = (cc,)
        inputs["lm"] = rs.uniform(-1, 1, (ntime, ndir, 2)) * 1e-2
        chunks["lm"] = (tc, (ndir,), (2,))
    elif which != "correct_vis":
        inputs["model"] = _cplx(rs, (nrow, nchan, ndir) + vcorr)
        chunks["model"] = (rc, cc, (ndir,)) + vk
    if which in ("correct_vis", "residual_vis", "compute_jhr"):
        inputs["vis"] = _cplx(rs, (nrow, nchan) + vcorr)
        chunks["vis"] = (rc, cc) + vk
    if which in ("correct_vis", "residual_vis", "compute_jhj",
                 "compute_jhr"):
        inputs["flag"] = (rs.rand(*((nrow, nchan) + vcorr)) > 0.85)
        chunks["flag"] = (rc, cc) + vk
    order = {"corrupt_vis": ("tbi", "tbc", "a1", "a2", "jones", "model"),
             "compute_and_corrupt_vis": ("tbi", "tbc", "a1", "a2", "jones",
                                         "model", "uvw", "freq", "lm"),
             "correct_vis": ("tbi", "tbc", "a1", "a2", "jones", "vis",
                             "flag"),
             "residual_vis": ("tbi", "tbc", "a1", "a2", "jones", "vis",
                              "flag", "model"),
             "compute_jhj": ("tbi", "tbc", "a1", "a2", "jones", "model",
                             "flag"),
             "compute_jhr": ("tbi", "tbc", "a1", "a2", "jones", "vis",
                             "model", "flag")}[which]
    nmod, dmod = (npp, dap) if which.startswith("compute_jh") else (npu, dau)
    # look the functions up late: a patched module must be seen
    full = "DIAG_DIAG" if vcorr == (2,) else mode
    scen = Scenario("calibration." + which, inputs, chunks,
                    lambda d: [getattr(dmod, which)(*[d[k] for k in order])],
                    lambda d: [getattr(nmod, which)(*[d[k] for k in order])],
                    model=lambda d: [x for x in models.calibration(
                        which, d, full)], model_rtol=1e-9,
                    params=dict(mode=mode, row_chunks=rc, time_chunks=tc,
                                chan_chunks=cc, ndir=ndir))
    scen.whole = [[("jones", 1)],
                  [(k, a) for k, a in (("jones", 3), ("model", 2), ("lm", 1))
                   if k in inputs]]
    for i in range(len(vcorr)):
        scen.whole.append([(k, a + i) for k, a, n in (
            ("jones", 4, len(jcorr)), ("model", 3, len(vcorr)),
            ("vis", 2, len(vcorr)), ("flag", 2, len(vcorr)))
            if k in inputs and i < n])
    return scen


def solve(ch):
    """ phase-only solutions: the iteration written out lazily, one step
    after the other, or the solver as a task """
    import africanus.calibration.phase_only as npp
    import africanus.calibration.phase_only.dask as dap
    import africanus.calibration.utils as npu
    import africanus.calibration.utils.dask as dau
    import dask
    import dask.array as da
    rs = ch.nprng()
    chained = ch.flip(0.5)
    ntime, nant = ch.integer(1, 3), ch.integer(3, 4)
    nchan, ndir = ch.integer(1, 2), ch.integer(1, 2)
    p, q = np.triu_indices(nant, 1)
    counts = np.full(ntime, p.size)
    # times as they are in an observation: the row chunks follow from them
    time = np.repeat(4.9e9 + np.arange(ntime) * 8.0, p.size)
    per = ch.integer(1, ntime)
    rc = tuple(int(counts[i:i + per].sum()) for i in range(0, ntime, per))
    tc = tuple(min(per, ntime - i) for i in range(0, ntime, per))
    cc = ch.composition(nchan, 2)
    tbi = (np.arange(ntime) * p.size).astype(np.int32)
    tbc = counts.astype(np.int32)
    a1, a2 = [np.tile(x, ntime).astype(np.int32) for x in (p, q)]
    nrow = a1.size
    model = _cplx(rs, (nrow, nchan, ndir, 2)) + 4
    true = np.exp(1j * rs.uniform(-0.4, 0.4, (ntime, nant, nchan, ndir, 2)))
    vis = models.corrupted(dict(tbc=tbc, jones=true, a1=a1, a2=a2), model,
                           "DIAG_DIAG")
    if ch.flip(0.5):
        vis = vis + _cplx(rs, vis.shape) * 0.1
    flag = np.zeros(vis.shape, bool)
    if ch.flip(0.5):    # one baseline at most: each antenna keeps others
        for t in range(ntime):
            flag[t * p.size + rs.randint(p.size), rs.randint(nchan),
                 rs.randint(2)] = True
    wgt = rs.randint(1, 9, vis.shape) / 4.0 if ch.flip(0.5) else \
        np.ones(vis.shape)
    jones = np.ones(true.shape, np.complex128)
    if ch.flip(0.5):
        jones = np.exp(1j * rs.uniform(-0.2, 0.2, true.shape))
    inputs = {"tbi": tbi, "tbc": tbc, "a1": a1, "a2": a2, "jones": jones,
              "vis": vis, "flag": flag, "model": model, "weight": wgt}
    v = (rc, cc, (2,))
    chunks = {"tbi": (tc,), "tbc": (tc,), "a1": (rc,), "a2": (rc,),
              "jones": (tc, (nant,), cc, (ndir,), (2,)), "vis": v, "flag": v,
              "model": (rc, cc, (ndir,), (2,)), "weight": v}
    o = ("tbi", "tbc", "a1", "a2", "jones", "vis", "flag", "model", "weight")
    kw = dict(tol=0.0, maxiter=ch.integer(1, 2)) if chained else ch.pick(
        (dict(tol=1e-3), dict(tol=0.1), dict(maxiter=3), dict(tol=1e-9,
                                                              maxiter=6)))

    uneven = rs.randint(1, 5, ch.integer(1, 6))

    def reference(d):
        r, i, c = npu.chunkify_rows(time, per)
        if tuple(r) != rc or not np.array_equal(i, tbi) or \
                not np.array_equal(c, tbc):
            raise Violation("result", "chunkify_rows: %s %s %s for %s" % (
                r, i, c, counts), "chunkify_rows")
        # with more rows at some times than at others
        r, i, c = npu.chunkify_rows(np.repeat(np.arange(uneven.size) * 0.5 + 7,
                                              uneven), per)
        if tuple(r) != tuple(uneven[k:k + per].sum() for k in
                             range(0, uneven.size, per)) or \
                not np.array_equal(i, np.cumsum(uneven) - uneven) or \
                not np.array_equal(c, uneven):
            raise Violation("result", "chunkify_rows: %s %s %s for %s" % (
                r, i, c, uneven), "chunkify_rows")
        g, jhj, jhr, k = npp.gauss_newton(*[d[x] for x in o], **kw)
        if ch_both:
            at, _ = npp.compute_jhj_and_jhr(
                d["tbi"], d["tbc"], d["a1"], d["a2"], d["jones"],
                d["vis"], d["model"] * np.sqrt(d["weight"])[:, :, None],
                d["flag"])
            jhj = at
        return [g, jhj, jhr, np.array(k)]
    ch_both = ch.flip(0.5)

    def lazy(d):
        if not chained:
            @dask.delayed(pure=False)
            def task(*args):
                g, jhj, jhr, k = npp.gauss_newton(*args, **kw)
                return g, jhj, jhr, np.array(k)
            out = task(*[d[x] for x in o])
            sh = jones.shape
            return [da.from_delayed(out[0], sh, dtype=np.complex128),
                    da.from_delayed(out[1], sh, dtype=np.float64),
                    da.from_delayed(out[2], sh, dtype=np.complex128),
                    da.from_delayed(out[3], (), dtype=np.int64)]
        w = da.sqrt(d["weight"])
        dv, dm = d["vis"] * w, d["model"] * w[:, :, None]
        head = [d[x] for x in ("tbi", "tbc", "a1", "a2")]
        g = d["jones"]
        jhj = dap.compute_jhj(*head, g, dm, d["flag"])
        for _ in range(kw["maxiter"]):
            res = dau.residual_vis(*head, g, dv, d["flag"], dm)
            jhr = dap.compute_jhr(*head, g, res, dm, d["flag"])
            g = da.exp(1j * (da.angle(g) + 0.5 * (jhr / jhj).real))
        return [g, jhj, jhr, da.from_array(np.array(kw["maxiter"]))]

    return Scenario("phase_only." + ("steps" if chained else "solver"),
                    inputs, chunks, lazy, reference,
                    model=lambda d: models.phase_solution(d, **kw),
                    model_rtol=1e-8,
                    params=dict(row_chunks=rc, chan_chunks=cc, kw=kw,
                                ndir=ndir))


def correct_refused(ch):
    """ direction dependent gains cannot be divided out """
    for _ in range(20):
        sc = calibration(ch, "correct_vis")
        break
    import africanus.calibration.utils as npu
    import africanus.calibration.utils.dask as dau
    n = ch.integer(2, 3)
    sc.inputs["jones"] = np.repeat(sc.inputs["jones"], n, axis=3)
    c = list(sc.chunks["jones"])
    c[3] = (n,)
    sc.chunks["jones"] = tuple(c)
    order = ("tbi", "tbc", "a1", "a2", "jones", "vis", "flag")
    import dask

    def lazy(d):
        r = dau.correct_vis(*[d[k] for k in order])
        with dask.config.set(scheduler="sync"):
            return [r.compute()]
    sc.build = lazy
    sc.reference = lambda d: [npu.correct_vis(*[d[k] for k in order])]
    sc.model = None
    sc.refused = Exception
    sc.params.update(kind="directions", outs="corrected visibilities",
                     ins="gains of %d directions" % n)
    return sc


# ---------------------------------------------------------------------------
# RIME terms
# ---------------------------------------------------------------------------
@varied(("uvw", "lm"), prec=())
def phase_delay(ch):
    from africanus.rime.phase import phase_delay as np_f
    from africanus.rime.dask import phase_delay as da_f
    rs = ch.nprng()
    nsrc, nrow, nchan = _dim(ch, 4, 30), _dim(ch, 5, 30), _dim(ch, 3, 30)
    conv = ch.pick(("fourier", "casa"))
    sc, rc, cc = (ch.composition(nsrc, 3), ch.composition(nrow, 3),
                  ch.composition(nchan, 2))
    inputs = {"lm": _lm(ch, rs, nsrc),
              "uvw": rs.uniform(-1, 1, (nrow, 3)) * 60,
              "freq": _freq(rs, nchan)}
    chunks = {"lm": (sc, (2,)), "uvw": (rc, (3,)), "freq": (cc,)}

    def model(d):
        n = np.sqrt(1 - (d["lm"]**2).sum(1)) - 1
        lmn = np.concatenate([d["lm"], n[:, None]], axis=1)
        ph = np.einsum("sx,rx,f->srf", lmn, d["uvw"], d["freq"])
        return [np.exp((-1 if conv == "fourier" else 1) *
                       2j * np.pi / C * ph)]
    return Scenario("phase_delay", inputs, chunks,
                    lambda d: [da_f(d["lm"], d["uvw"], d["freq"],
                                    convention=conv)],
                    lambda d: [np_f(d["lm"], d["uvw"], d["freq"],
                                    convention=conv)], model=model)


@varied(("pa",))
def feed_rotation(ch):
    from africanus.rime.feeds import feed_rotation as np_f
    from africanus.rime.dask import feed_rotation as da_f
    rs = ch.nprng()
    nt, na = ch.integer(1, 4), ch.integer(1, 4)
    ft = ch.pick(("linear", "circular"))
    dt = ch.pick((np.float64, np.float32))
    tc, ac = ch.composition(nt, 3), ch.composition(na, 3)
    return Scenario("feed_rotation",
                    {"pa": rs.uniform(-3, 3, (nt, na)).astype(dt)},
                    {"pa": (tc, ac)},
                    lambda d: [da_f(d["pa"], ft)],
                    lambda d: [np_f(d["pa"], ft)], rtol=1e-6,
                    model=lambda d: [models.feed_rotation(d["pa"], ft)])


def parallactic_angles(ch):
    from africanus.rime.parangles import (parallactic_angles as np_f,
                                          _discovered_backends)
    from africanus.rime.dask import parallactic_angles as da_f
    rs = ch.nprng()
    backend = "casa" if "casa" in _discovered_backends and \
        not ch.flip(0.3) else "test"
    nt, na = ch.integer(1, 4), ch.integer(1, 3)
    tc, ac = ch.composition(nt, 3), ch.composition(na, 2)
    inputs = {"t": 4.92183e9 + np.arange(nt) * 1800.0,
              "ap": np.array([5109224.3, 2006790.3, -3238100.3]) +
              rs.uniform(-1, 1, (na, 3)) * 1.0e5,
              "fc": np.deg2rad([rs.uniform(0, 90), rs.uniform(-80, -20)])}
    chunks = {"t": (tc,), "ap": (ac, (3,)), "fc": ((2,),)}
    return Scenario("parallactic_angles." + backend, inputs, chunks,
                    lambda d: [da_f(d["t"], d["ap"], d["fc"],
                                    backend=backend)],
                    lambda d: [np_f(d["t"], d["ap"], d["fc"],
                                    backend=backend)], rtol=1e-7)


@varied(("lm", "pa", "pe"), prec=())
def transform_sources(ch):
    from africanus.rime.transform import transform_sources as np_f
    from africanus.rime.dask import transform_sources as da_f
    rs = ch.nprng()
    ns, nt, na, nc = [ch.integer(1, 3) for _ in range(4)]
    s, t, a, c = [ch.composition(n, 3) for n in (ns, nt, na, nc)]
    inputs = {"lm": rs.uniform(-1, 1, (ns, 2)) * 1e-2,
              "pa": rs.uniform(-3, 3, (nt, na)),
              "pe": rs.uniform(-1, 1, (nt, na, 2)) * 1e-3,
              "sc": rs.uniform(0.5, 2, (na, nc)),
              # of the size of lm, or comparing would not see lm
              "freq": _freq(rs, nc) * 1e-11}
    chunks = {"lm": (s, (2,)), "pa": (t, a), "pe": (t, a, (2,)),
              "sc": (a, c), "freq": (c,)}
    o = ("lm", "pa", "pe", "sc", "freq")
    kw = ch.pick(({}, {}, dict(dtype=np.float64), dict(dtype=np.float32)))
    single = kw.get("dtype") == np.float32
    return Scenario("transform_sources", inputs, chunks,
                    lambda d: [da_f(*[d[k] for k in o], **kw)],
                    lambda d: [np_f(*[d[k] for k in o], **kw)],
                    model=lambda d: [models.transform_sources(
                        *[d[k] for k in o])], rtol=1e-4 if single else 1e-8,
                    model_rtol=1e-4 if single else 1e-9)


@varied(("beam", "lm", "pa", "pe"), prec=(), floor=("beam",))
def beam_cube(ch):
    from africanus.rime.fast_beam_cubes import beam_cube_dde as np_f
    from africanus.rime.dask import beam_cube_dde as da_f
    rs = ch.nprng()
    ns, nt, na, nc = ch.integer(1, 3), ch.integer(1, 2), ch.integer(1, 2), \
        ch.integer(1, 3)
    corr = ch.pick(((1,), (2, 2)))
    s, t, a, c = [ch.composition(n, 2) for n in (ns, nt, na, nc)]
    lw, mh, nud = 5, 5, ch.integer(2, 4)
    ext = [[-1e-1, 1e-1], [-1e-1, 1e-1]]
    if ch.flip(0.5):
        lw, mh = ch.integer(2, 7), ch.integer(2, 7)
        ext = [[-rs.uniform(0.05, 0.2), rs.uniform(0.05, 0.2)]
               for _ in range(2)]
    inputs = {"beam": _cplx(rs, (lw, mh, nud) + corr),
              "ext": np.array(ext),
              "fmap": np.sort(rs.uniform(0.8e9, 1.8e9, nud)),
              "lm": rs.uniform(-1, 1, (ns, 2)) * ch.pick((8e-2, 2e-1)),
              "pa": rs.uniform(-3, 3, (nt, na)),
              "pe": rs.uniform(-1, 1, (nt, na, nc, 2)) * 1e-3,
              "sc": rs.uniform(0.8, 1.2, (na, nc, 2)),
              "freq": _freq(rs, nc)}
    kc = tuple((x,) for x in corr)
    chunks = {"beam": ((lw,), (mh,), (nud,)) + kc, "ext": ((2,), (2,)),
              "fmap": ((nud,),), "lm": (s, (2,)), "pa": (t, a),
              "pe": (t, a, c, (2,)), "sc": (a, c, (2,)), "freq": (c,)}
    o = ("beam", "ext", "fmap", "lm", "pa", "pe", "sc", "freq")
    scen = Scenario("beam_cube_dde", inputs, chunks,
                    lambda d: [da_f(*[d[k] for k in o])],
                    lambda d: [np_f(*[d[k] for k in o])],
                    model=lambda d: [models.beam(*[d[k] for k in o])],
                    model_rtol=1e-8)
    scen.whole = [[("beam", 0)], [("beam", 1)], [("beam", 2), ("fmap", 0)]] + \
        [[("beam", 3 + i)] for i in range(len(corr))]
    return scen


@varied(("coords", "coeffs"), prec=(), floor=("coeffs",))
def zernike(ch):
    from africanus.rime.zernike import zernike_dde as np_f
    from africanus.rime.dask import zernike_dde as da_f
    rs = ch.nprng()
    ns, nt, na, nc = ch.integer(1, 3), ch.integer(1, 2), ch.integer(1, 2), \
        ch.integer(1, 2)
    corr = ch.pick(((1,), (2, 2)))
    npoly = ch.integer(1, 4)
    s, t, a, c = [ch.composition(n, 2) for n in (ns, nt, na, nc)]
    kc = tuple((x,) for x in corr)
    coords = rs.uniform(-1, 1, (3, ns, nt, na, nc)) * ch.pick((0.8, 1.2))
    inputs = {"coords": coords,
              "coeffs": _cplx(rs, (na, nc) + corr + (npoly,)),
              "noll": rs.randint(0, 16, (na, nc) + corr + (npoly,))}
    chunks = {"coords": ((3,), s, t, a, c),
              "coeffs": (a, c) + kc + ((npoly,),),
              "noll": (a, c) + kc + ((npoly,),)}
    o = ("coords", "coeffs", "noll")
    scen = Scenario("zernike_dde", inputs, chunks,
                    lambda d: [da_f(*[d[k] for k in o])],
                    lambda d: [np_f(*[d[k] for k in o])],
                    model=lambda d: [models.zernike(*[d[k] for k in o])],
                    model_rtol=1e-8)
    scen.whole = [[("coeffs", len(corr) + 2), ("noll", len(corr) + 2)]]
    return scen


# ---------------------------------------------------------------------------
# sky model operators
# ---------------------------------------------------------------------------
STOKES_ID = {"I": 1, "Q": 2, "U": 3, "V": 4, "RR": 5, "RL": 6, "LR": 7,
             "LL": 8, "XX": 9, "XY": 10, "YX": 11, "YY": 12}
CORR_OF = {"XX": lambda s: s["I"] + s["Q"], "YY": lambda s: s["I"] - s["Q"],
           "XY": lambda s: s["U"] + 1j * s["V"],
           "YX": lambda s: s["U"] - 1j * s["V"],
           "RR": lambda s: s["I"] + s["V"], "LL": lambda s: s["I"] - s["V"],
           "RL": lambda s: s["Q"] + 1j * s["U"],
           "LR": lambda s: s["Q"] - 1j * s["U"]}
STOKES_OF = {
    "lin": {"I": lambda c: (c["XX"] + c["YY"]).real / 2,
            "Q": lambda c: (c["XX"] - c["YY"]).real / 2,
            "U": lambda c: (c["XY"] + c["YX"]).real / 2,
            "V": lambda c: (c["XY"] - c["YX"]).imag / 2},
    "circ": {"I": lambda c: (c["RR"] + c["LL"]).real / 2,
             "V": lambda c: (c["RR"] - c["LL"]).real / 2,
             "Q": lambda c: (c["RL"] + c["LR"]).real / 2,
             "U": lambda c: (c["RL"] - c["LR"]).imag / 2}}


def _arrange(ch, names):
    """ random nesting of a list of names; optionally casa ids """
    n = len(names)
    how = ch.pick(("names", "names", "names", "ids", "mixed", "npids"))
    if how == "ids":
        names = [STOKES_ID[x] for x in names]
    elif how == "npids":
        names = [np.int32(STOKES_ID[x]) for x in names]
    elif how == "mixed":
        names = [STOKES_ID[x] if ch.draw(2) else x for x in names]
    shapes = [(n,)]
    if n % 2 == 0:
        shapes += [(2, n // 2), (n // 2, 2)]
    shapes += [(1, n), (n, 1)]
    if n == 4:
        shapes += [(2, 1, 2), (2, 2, 1)]
    if n == 8:
        shapes += [(2, 2, 2)]
    shape = ch.pick(shapes)
    seq = ch.pick((list, list, tuple))
    if n == 1 and shape == (1,) and ch.flip(0.4):
        return names[0], shape

    def nest(flat, shape):
        if len(shape) == 1:
            return seq(flat)
        k = len(flat) // shape[0]
        return seq(nest(flat[i * k:(i + 1) * k], shape[1:])
                   for i in range(shape[0]))
    return nest(names, shape), shape


_NEEDS = {"XX": "IQ", "YY": "IQ", "XY": "UV", "YX": "UV", "RR": "IV",
          "LL": "IV", "RL": "QU", "LR": "QU"}
_NEEDS_OF = {"lin": {"I": ("XX", "YY"), "Q": ("XX", "YY"), "U": ("XY", "YX"),
                     "V": ("XY", "YX")},
             "circ": {"I": ("RR", "LL"), "V": ("RR", "LL"),
                      "Q": ("RL", "LR"), "U": ("RL", "LR")}}


def coherency(ch, like=None):
    from africanus.model.coherency import convert as np_f
    from africanus.model.coherency.dask import convert as da_f
    rs = ch.nprng()
    if like is None:
        fam = ch.pick(("lin", "circ"))
        corrs = (["XX", "XY", "YX", "YY"] if fam == "lin" else
                 ["RR", "RL", "LR", "LL"])
        stokes = ["I", "Q", "U", "V"]
        to_corr = ch.flip(0.5)
        src, dst = (stokes, corrs) if to_corr else (corrs, stokes)
        if to_corr and ch.flip(0.3):
            dst = ["XX", "XY", "YX", "YY", "RR", "RL", "LR", "LL"]
        if not to_corr and fam == "lin" and ch.flip(0.15):
            # both families: consistent data, so either may be used
            src = ["XX", "XY", "YX", "YY", "RR", "RL", "LR", "LL"]
        src = [src[i] for i in ch.perm(len(src))]
        nout = ch.pick([k for k in (4, 2, 1, 3, 8) if k <= len(dst)])
        dst = [dst[i] for i in ch.perm(len(dst))][:nout]
        if len(src) == 4 and ch.flip(0.3):
            # only the inputs that are needed
            pairs = _NEEDS if to_corr else _NEEDS_OF[fam]
            need = {x for k in dst for x in pairs[k]}
            src = [x for x in src if x in need]
        if ch.flip(0.12):
            # Stokes parameters and correlations from one array of both
            to_corr = "mixed"
            src = [(stokes + corrs)[i] for i in ch.perm(8)]
            dst = stokes + ["XX", "XY", "YX", "YY", "RR", "RL", "LR", "LL"]
            dst = [dst[i] for i in ch.perm(12)][:ch.pick((2, 4, 8, 3, 12))]
    else:
        # a sibling: the same names in another arrangement
        fam, to_corr, src, dst = like
        if ch.flip(0.4):
            src = [src[i] for i in ch.perm(len(src))]
        dst = [dst[i] for i in ch.perm(len(dst))]
    ins, ishape = _arrange(ch, src)
    outs, oshape = _arrange(ch, dst)
    free = tuple(ch.integer(1, 4) for _ in range(ch.integer(1, 3)))
    dt = ch.pick((np.float64, np.float32, np.complex128, np.complex64)) \
        if to_corr is True else ch.pick((np.complex128, np.complex64))
    if len(src) == 8:
        st = {k: _real(rs, free) for k in "IQUV"}
        x = np.stack([st[k] + 0j if k in st else CORR_OF[k](st)
                      for k in src], -1).reshape(
            free + ishape).astype(dt)
    else:
        x = (_real if dt in (np.float64, np.float32) else _cplx)(
            rs, free + ishape, dt)
    chunks = tuple(ch.composition(f, 3) for f in free) + \
        tuple((n,) for n in ishape)

    def model(d):
        flat = d["x"].reshape(free + (-1,))
        v = {k: flat[..., i] for i, k in enumerate(src)}
        tab = CORR_OF if to_corr else STOKES_OF[fam]
        if to_corr == "mixed":
            tab = dict(CORR_OF)
            tab.update({k: lambda v, k=k: v[k].real for k in "IQUV"})
        y = np.stack([tab[k](v) for k in dst], axis=-1)
        return [y.reshape(free + oshape)]

    sc = Scenario("coherency.convert", {"x": x}, {"x": chunks},
                  lambda d: [da_f(d["x"], ins, outs)],
                  lambda d: [np_f(d["x"], ins, outs)], model=model,
                  rtol=1e-6, model_rtol=1e-5,
                  params=dict(ins=ins, outs=outs, chunks=chunks))
    sc.dtypes = True
    sc.whole = [[("x", len(free) + i)] for i in range(len(ishape))]
    sc.variant = lambda c: coherency(c, like=(fam, to_corr, src, dst))
    return sc


def coherency_refused(ch):
    """ requests that no conversion can satisfy """
    from africanus.model.coherency import convert as np_f
    from africanus.model.coherency.dask import convert as da_f
    from africanus.model.coherency.conversion import (
        MissingConversionInputs, DimensionMismatch)
    rs = ch.nprng()
    sc = coherency(ch)
    kind = ch.pick(("missing input", "unknown output", "shape", "twice",
                    "bad id", "ragged", "bad type"))
    names = ch.pick((["XX", "XY", "YX", "YY"], ["RR", "RL", "LR", "LL"]))
    pairs = {"XX": "IQ", "YY": "IQ", "XY": "UV", "YX": "UV", "RR": "IV",
             "LL": "IV", "RL": "QU", "LR": "QU"}
    src, n, err = list("IQUV"), 4, ValueError
    dst = [names[i] for i in ch.perm(4)][:ch.integer(1, 4)]
    at = ch.draw(len(dst) + 1)
    if kind == "missing input":
        gone = ch.pick(pairs[ch.pick(dst)])
        src.remove(gone)
        n, err = 3, MissingConversionInputs
    elif kind == "unknown output":
        dst.insert(at, ch.pick(("XR", "PP", "Linear", 31, "no-such")))
    elif kind == "shape":
        n = ch.pick((3, 5, 1))
    elif kind == "twice":
        if ch.flip(0.5):
            dst.append(dst[0])
        else:
            src[ch.draw(3)] = "V"
    elif kind == "bad id":
        dst.insert(at, ch.pick((-1, 99, 4096)))
    elif kind == "ragged":
        dst = [names[:2], names[2:3]]
        err = DimensionMismatch
    else:
        dst.insert(at, ch.pick((1.5, None)))
        err = TypeError
    x = _real(rs, (ch.integer(1, 3), n))
    sc = Scenario("coherency.convert (refused)", {"x": x},
                  {"x": (ch.composition(x.shape[0], 3), (n,))},
                  lambda d: [da_f(d["x"], src, dst)],
                  lambda d: [np_f(d["x"], src, dst)],
                  params=dict(kind=kind, ins=src, outs=dst))
    sc.refused = err
    return sc


@varied(("uvw", "shape"), prec=(), floor=1e-9)
def gaussian(ch):
    from africanus.model.shape import gaussian as np_f
    from africanus.model.shape.dask import gaussian as da_f
    rs = ch.nprng()
    ns, nr, nc = _dim(ch, 4, 30), _dim(ch, 4, 30), _dim(ch, 3, 30)
    s, r, c = [ch.composition(n, 3) for n in (ns, nr, nc)]
    inputs = {"uvw": rs.uniform(-1, 1, (nr, 3)) * 60, "freq": _freq(rs, nc),
              "shape": rs.uniform(0, 1, (ns, 3)) * np.array(
                  [1e-3, 1e-3, 3.0])}
    chunks = {"uvw": (r, (3,)), "freq": (c,), "shape": (s, (3,))}
    o = ("uvw", "freq", "shape")
    return Scenario("shape.gaussian", inputs, chunks,
                    lambda d: [da_f(*[d[k] for k in o])],
                    lambda d: [np_f(*[d[k] for k in o])],
                    model=lambda d: [models.gaussian(*[d[k] for k in o])],
                    model_rtol=1e-9)


@varied(("stokes", "spi"), prec=())
def spectral(ch):
    from africanus.model.spectral import spectral_model as np_f
    from africanus.model.spectral.dask import spectral_model as da_f
    rs = ch.nprng()
    ns, nc, nspi = _dim(ch, 4, 30), _dim(ch, 4, 30), ch.integer(1, 3)
    npol = ch.pick((0, 1, 4))
    base = ch.pick((0, 1, 2, "std", "log", "log10"))
    s, c = ch.composition(ns, 3), ch.composition(nc, 3)
    pol = (npol,) if npol else ()
    pc = (ch.composition(npol, 3),) if npol else ()
    if npol and ch.flip(0.4):
        n = npol if ch.flip(0.7) else ch.integer(1, npol)
        kinds = (0, 1, 2) if ch.flip(0.7) else ("std", "log", "log10")
        base = [ch.pick(kinds) for _ in range(n)]
    kw = {} if ch.flip(0.15) else dict(base=base)
    inputs = {"stokes": rs.randint(1, 9, (ns,) + pol) / 4.0,
              "spi": rs.randint(1, 9, (ns, nspi) + pol) / 16.0,
              "ref": 1.1e9 + rs.randint(0, 5, ns) * 1e7,
              "freq": _freq(rs, nc)}
    chunks = {"stokes": (s,) + pc, "spi": (s, (nspi,)) + pc, "ref": (s,),
              "freq": (c,)}
    o = ("stokes", "spi", "ref", "freq")
    scen = Scenario("spectral_model", inputs, chunks,
                    lambda d: [da_f(*[d[k] for k in o], **kw)],
                    lambda d: [np_f(*[d[k] for k in o], **kw)],
                    model=lambda d: [models.spectral(
                        *[d[k] for k in o], base=kw.get("base", 0))],
                    model_rtol=1e-9)
    scen.whole = [[("spi", 1)]]
    return scen


def spi_fit(ch):
    from africanus.model.spi import fit_spi_components as np_f
    from africanus.model.spi.dask import fit_spi_components as da_f
    rs = ch.nprng()
    ncomp, nc = ch.integer(1, 4), ch.integer(3, 5)
    comp = ch.composition(ncomp, 3)
    freq = _freq(rs, nc)
    f0 = float(freq[nc // 2])
    i0 = rs.uniform(1, 3, ncomp)
    alpha = rs.uniform(-1.2, -0.3, ncomp)
    use_beam = ch.flip(0.4)
    use_init = ch.flip(0.4)
    beam = rs.uniform(0.5, 1.0, (ncomp, nc))
    data = i0[:, None] * (freq / f0)[None, :]**alpha[:, None]
    if use_beam:
        data = data * beam
    data = data + rs.uniform(-1, 1, data.shape) * 1e-3
    inputs = {"data": data, "wgt": rs.randint(1, 5, nc) / 1.0, "freq": freq}
    chunks = {"data": (comp, (nc,)), "wgt": ((nc,),), "freq": ((nc,),)}
    if use_beam:
        inputs["beam"] = beam
        chunks["beam"] = (comp, (nc,))
    if use_init:
        inputs["a0"] = np.full(ncomp, -0.6)
        inputs["i0"] = np.full(ncomp, 1.5)
        chunks["a0"] = chunks["i0"] = (comp,)

    def call(f, d):
        return f(d["data"], d["wgt"], d["freq"], f0, alphai=d.get("a0"),
                 I0i=d.get("i0"), beam=d.get("beam"), tol=1e-8, maxiter=30)
    scen = Scenario("fit_spi_components", inputs, chunks,
                    lambda d: [call(da_f, d)], lambda d: [call(np_f, d)],
                    rtol=1e-6)
    scen.whole = [[(k, sc.ndim - 1) for k, sc in inputs.items()
                   if k not in ("a0", "i0")]]
    return scen


@varied(prec=())
def coordinates(ch, which=None):
    import africanus.coordinates as npc
    import africanus.coordinates.dask as dac
    which = which or ch.pick(("radec_to_lmn", "radec_to_lm", "lmn_to_radec",
                              "lm_to_radec"))
    rs = ch.nprng()
    ns = ch.integer(1, 6)
    sc = ch.composition(ns, 4)
    have_pc = ch.flip(0.6)
    pc = np.array([0.1, -0.2])
    if ch.flip(0.6):        # anywhere; sources within its hemisphere
        pc = np.array([rs.uniform(-3, 6), rs.uniform(-1.2, 1.2)])
    if which.startswith("radec"):
        x = rs.uniform(-1, 1, (ns, 2)) * 0.3 + (pc if have_pc else 0)
    else:
        lm = rs.uniform(-1, 1, (ns, 2)) * 0.2
        x = lm if which == "lm_to_radec" else np.concatenate(
            [lm, np.sqrt(1 - (lm**2).sum(1))[:, None]], axis=1)
    inputs = {"x": x}
    chunks = {"x": (sc, (x.shape[1],))}
    if have_pc:
        inputs["pc"] = pc
        chunks["pc"] = ((2,),)
    def model(d):
        ra0, dec0 = d.get("pc", np.zeros(2))
        if which.startswith("radec"):
            dra, dec = d["x"][:, 0] - ra0, d["x"][:, 1]
            lmn = np.stack([
                np.cos(dec) * np.sin(dra),
                np.sin(dec) * np.cos(dec0) -
                np.cos(dec) * np.sin(dec0) * np.cos(dra),
                np.sin(dec) * np.sin(dec0) +
                np.cos(dec) * np.cos(dec0) * np.cos(dra)], axis=1)
            return [lmn if which == "radec_to_lmn" else lmn[:, :2]]
        el, m = d["x"][:, 0], d["x"][:, 1]
        n = d["x"][:, 2] if d["x"].shape[1] == 3 else \
            np.sqrt(1 - el**2 - m**2)
        return [np.stack([
            ra0 + np.arctan2(el, n * np.cos(dec0) - m * np.sin(dec0)),
            np.arcsin(m * np.cos(dec0) + n * np.sin(dec0))], axis=1)]

    return Scenario("coordinates." + which, inputs, chunks,
                    lambda d: [getattr(dac, which)(d["x"], d.get("pc"))],
                    lambda d: [getattr(npc, which)(d["x"], d.get("pc"))],
                    model=model, model_rtol=1e-9)


# ---------------------------------------------------------------------------
# perleypolyhedron
# ---------------------------------------------------------------------------
PERLEY_CONV = {"packed": "conv_1d_axisymmetric_packed_",
               "unpacked": "conv_1d_axisymmetric_unpacked_"}


def _perley_common(ch, rs):
    from africanus.gridding.perleypolyhedron import kernels
    kind = ch.pick(("packed", "unpacked"))
    W, OS = 3, ch.pick((3, 5))
    kern = kernels.kbsinc(W, oversample=OS)
    if kind == "packed":
        kern = kernels.pack_kernel(kern, W, OS)
    npix = ch.pick((8, 9, 12))
    nfacet = ch.integer(1, 2)
    pc = (0.3, 0.5)
    centres = np.array([[0.3 + 0.002 * i, 0.5 - 0.003 * i]
                        for i in range(nfacet)])
    rot = ch.pick(("None", "rotate", "wlinapprox"))
    phase = ch.pick(("None", "phase_rotate"))
    nrow, nchan = ch.integer(1, 6), ch.integer(1, 4)
    nband = ch.integer(1, min(2, nchan))
    chanmap = np.minimum(np.arange(nchan) * nband // nchan,
                         nband - 1).astype(np.int64)
    if ch.flip(0.4):
        chanmap = rs.permutation(chanmap)
    lambdas = C / _freq(rs, nchan, True)
    uvw = rs.uniform(-1, 1, (nrow, 3)) * np.array([40, 40, 10])
    cell = 1500.0
    return dict(kind=kind, W=W, OS=OS, kern=kern, npix=npix, nfacet=nfacet,
                pc=pc, centres=centres, rot=rot, phase=phase, nrow=nrow,
                nchan=nchan, nband=nband, chanmap=chanmap, lambdas=lambdas,
                uvw=uvw, cell=cell)


@varied(("uvw", "vis"), floor=("vis",))
def perley_grid(ch):
    from africanus.gridding.perleypolyhedron import dask as dw
    from africanus.gridding.perleypolyhedron import gridder as ng
    rs = ch.nprng()
    p = _perley_common(ch, rs)
    pol = ch.pick(("I_FROM_XXYY", "I_FROM_XXXYYXYY", "I_FROM_RRLL",
                   "Q_FROM_XXYY", "Q_FROM_RRRLLRLL", "U_FROM_XYYX",
                   "V_FROM_RRLL", "V_FROM_XYYX"))
    ncorr = len(pol.split("_FROM_")[1]) // 2
    conv = PERLEY_CONV[p["kind"]] + "scatter"
    norm = ch.flip(0.4)
    rc, cc = ch.composition(p["nrow"], 4), ch.composition(p["nchan"], 3)
    fc = ch.composition(p["nfacet"], 2)
    inputs = {"uvw": p["uvw"],
              "vis": _cplx(rs, (p["nrow"], p["nchan"], ncorr)),
              "lam": p["lambdas"], "cmap": p["chanmap"],
              "centres": p["centres"]}
    chunks = {"uvw": (rc, (3,)), "vis": (rc, cc, (ncorr,)), "lam": (cc,),
              "cmap": (cc,), "centres": (fc, (2,))}
    tail = (p["kern"], p["W"], p["OS"], p["rot"], p["phase"], pol, conv)

    def build(d):
        return [dw.gridder(d["uvw"], d["vis"], d["lam"], d["cmap"],
                           p["npix"], p["cell"], d["centres"], p["pc"],
                           *tail, grid_dtype=np.complex128,
                           do_normalize=norm)]

    def whole(d, lo, hi):
        return np.stack([ng.gridder(
            d["uvw"][lo:hi].copy(), d["vis"][lo:hi].copy(), d["lam"],
            d["cmap"], p["npix"], p["cell"], f, p["pc"], *tail,
            np.complex128, norm)[None] for f in d["centres"]])

    def reference(d):
        # one grid per row chunk, averaged
        e = np.cumsum((0,) + tuple(rc))
        return [sum(whole(d, a, b) for a, b in zip(e[:-1], e[1:])) /
                len(rc)]

    def model(d):
        # every sample by itself, added up
        one, n = np.ones((1, 1, ncorr), np.complex128), p["npix"]
        e = np.cumsum((0,) + tuple(rc))
        out = np.zeros((p["nfacet"], 1, p["nband"], n, n), np.complex128)
        for f, centre in enumerate(d["centres"]):
            def grid(r, c, vis, normalize):
                return ng.gridder(
                    d["uvw"][r:r + 1].copy(), vis.copy(), d["lam"][c:c + 1],
                    np.zeros(1, np.int64), n, p["cell"], centre, p["pc"],
                    *tail, np.complex128, normalize)[0]
            for a, b in zip(e[:-1], e[1:]):
                part = np.zeros(out.shape[2:], np.complex128)
                wt = np.zeros(p["nband"])
                for r in range(a, b):
                    for c in range(p["nchan"]):
                        band = d["cmap"][c]
                        part[band] += grid(r, c, d["vis"][r:r + 1, c:c + 1],
                                           False)
                        if norm:
                            g, h = grid(r, c, one, False), grid(r, c, one, True)
                            k = np.unravel_index(np.argmax(abs(h)), h.shape)
                            if abs(h[k]) < 1e-3:
                                # off the grid: its weight cannot be told
                                return reference(d)
                            wt[band] += (g[k] / h[k]).real - 1e-8
                if norm:
                    part /= (wt + 1e-8)[:, None, None]
                out[f, 0] += part
        return [out / len(rc)]

    # other parameters of equal correlations vanish, and with them weights
    known = not norm or pol[0] == "I"
    sc = Scenario("perley.gridder", inputs, chunks, build, reference,
                  model=model if known else None, model_rtol=1e-6,
                  params=dict(rot=p["rot"], phase=p["phase"], pol=pol,
                              rows=rc, chans=cc, facets=fc, norm=norm))
    sc.single = lambda d: [whole(d, 0, p["nrow"])]
    sc.n_row_chunks = len(rc)
    return sc


@varied(("uvw", "grid"), floor=("grid",))
def perley_degrid(ch):
    from africanus.gridding.perleypolyhedron import dask as dw
    from africanus.gridding.perleypolyhedron import degridder as nd
    rs = ch.nprng()
    p = _perley_common(ch, rs)
    pol = ch.pick(("XXYY_FROM_I", "XXXYYXYY_FROM_I", "RRLL_FROM_I",
                   "XXYY_FROM_Q", "RLLR_FROM_U", "XYYX_FROM_V",
                   "RRRLLRLL_FROM_V"))
    conv = PERLEY_CONV[p["kind"]] + "gather"
    par = ch.flip(0.5)
    rc, cc = ch.composition(p["nrow"], 4), ch.composition(p["nchan"], 3)
    fc = ch.composition(p["nfacet"], 2)
    bc = ch.composition(p["nband"], 2)
    n = p["npix"]
    inputs = {"uvw": p["uvw"],
              "grid": _cplx(rs, (p["nfacet"], p["nband"], n, n)),
              "lam": p["lambdas"], "cmap": p["chanmap"],
              "centres": p["centres"]}
    chunks = {"uvw": (rc, (3,)), "grid": (fc, bc, (n,), (n,)),
              "lam": (cc,), "cmap": (cc,), "centres": (fc, (2,))}
    tail = (p["kern"], p["W"], p["OS"], p["rot"], p["phase"], pol, conv)

    def build(d):
        return [dw.degridder(d["uvw"], d["grid"], d["lam"], d["cmap"],
                             p["cell"], d["centres"], p["pc"], *tail,
                             vis_dtype=np.complex128, rowparallel=par)]

    def reference(d):
        f = nd.degridder if par else nd.degridder_serial
        return [sum(f(d["uvw"].copy(), d["grid"][i], d["lam"], d["cmap"],
                      p["cell"], c, p["pc"], *tail, np.complex128)
                    for i, c in enumerate(d["centres"]))]

    def model(d):
        # every sample by itself
        return [np.concatenate([np.concatenate([
            sum(nd.degridder_serial(
                d["uvw"][r:r + 1].copy(),
                d["grid"][i, d["cmap"][c]:][:1].copy(), d["lam"][c:c + 1],
                np.zeros(1, np.int64), p["cell"], x, p["pc"], *tail,
                np.complex128) for i, x in enumerate(d["centres"]))
            for c in range(p["nchan"])], axis=1)
            for r in range(p["nrow"])])]

    return Scenario("perley.degridder", inputs, chunks, build, reference,
                    model=model, model_rtol=1e-9,
                    params=dict(rot=p["rot"], phase=p["phase"], pol=pol,
                                rows=rc, chans=cc, facets=fc))


# ---------------------------------------------------------------------------
# nifty wrappers (the C++ package itself is a stub)
# ---------------------------------------------------------------------------
def _nifty_inputs(ch, rs):
    import africanus.gridding.nifty.dask as nd
    nrow, nchan, ncorr = ch.integer(1, 8), ch.integer(1, 3), ch.integer(1, 2)
    nx, ny = ch.integer(4, 6), ch.integer(4, 6)
    gc = nd.grid_config(nx, ny, 1e-7, 2.0, 3.0)
    if ch.flip(0.2):
        gc = pickle.loads(pickle.dumps(gc))
    rc = ch.composition(nrow, 5)
    kc = ch.composition(ncorr, 2)
    inputs = {"uvw": rs.uniform(-1, 1, (nrow, 3)) * 3,
              "flag": rs.rand(nrow, nchan, ncorr) > 0.8,
              "wgt": rs.randint(1, 5, (nrow, nchan, ncorr)) / 2.0,
              "freq": _freq(rs, nchan, True)}
    chunks = {"uvw": (rc, (3,)), "flag": (rc, (nchan,), kc),
              "wgt": (rc, (nchan,), kc), "freq": ((nchan,),)}
    wlim = ch.pick(((-1e30, 1e30), (1.0, 6.0)))
    return nd, gc, inputs, chunks, rc, kc, nrow, nchan, ncorr, nx, ny, wlim


@varied(("uvw", "vis", "wgt"))
def nifty_grid(ch, streams=0):
    import nifty_gridder as ng
    rs = ch.nprng()
    (nd, gc, inputs, chunks, rc, kc, nrow, nchan, ncorr, nx, ny,
     wlim) = _nifty_inputs(ch, rs)
    single = ch.flip(0.2)
    inputs["vis"] = _cplx(rs, (nrow, nchan, ncorr),
                          np.complex64 if single else np.complex128)
    chunks["vis"] = (rc, (nchan,), kc)
    if streams == 0:
        streams = ch.pick((None, 1, 2, 3, 5))
    image = ch.flip(0.5)

    def build(d):
        g = nd.grid(d["vis"], d["uvw"], d["flag"], d["wgt"], d["freq"], gc,
                    wmin=wlim[0], wmax=wlim[1], streams=streams)
        return [nd.dirty(g, gc)] if image else [g]

    def reference(d):
        bl = ng.Baselines(d["uvw"], d["freq"])
        c = ng.GridderConfig(nx, ny, 1e-7, 2.0, 3.0)
        out = []
        for k in range(ncorr):
            idx = ng.getIndices(bl, c, d["flag"][:, :, k], -1, -1, *wlim)
            g = ng.ms2grid_c(bl, c, idx, d["vis"][:, :, k], None,
                             d["wgt"][:, :, k])
            out.append(c.grid2dirty_c(g).real if image else g)
        return [np.stack(out, axis=2)]

    sc = Scenario("nifty.grid", inputs, chunks, build, reference,
                  params=dict(streams=streams, rows=rc, corr=kc))
    sc.streams = streams
    sc.n_row_chunks = len(rc)
    if streams is not None:
        # the C++ gridder adds to its input grid in place
        sc.inplace_chain = True
    return sc


@varied(("uvw", "grid"))
def nifty_degrid(ch):
    import nifty_gridder as ng
    rs = ch.nprng()
    (nd, gc, inputs, chunks, rc, kc, nrow, nchan, ncorr, nx, ny,
     wlim) = _nifty_inputs(ch, rs)
    from_image = ch.flip(0.5)
    n0, n1 = (nx, ny) if from_image else (nx + 2, ny + 4)
    inputs["grid"] = (_real if from_image else _cplx)(rs, (n0, n1, ncorr))
    chunks["grid"] = ((n0,), (n1,), kc)

    def build(d):
        g = nd.model(d["grid"], gc) if from_image else d["grid"]
        return [nd.degrid(g, d["uvw"], d["flag"], d["wgt"], d["freq"], gc,
                          wmin=wlim[0], wmax=wlim[1])]

    def reference(d):
        bl = ng.Baselines(d["uvw"], d["freq"])
        c = ng.GridderConfig(nx, ny, 1e-7, 2.0, 3.0)
        out = []
        for k in range(ncorr):
            idx = ng.getIndices(bl, c, d["flag"][:, :, k], -1, -1, *wlim)
            g = d["grid"][:, :, k]
            if from_image:
                g = c.dirty2grid_c(g)
            out.append(ng.grid2ms_c(bl, c, idx, g))
        return [np.stack(out, axis=2)]

    return Scenario("nifty.degrid", inputs, chunks, build, reference,
                    params=dict(rows=rc, corr=kc, image=from_image))


GROUPS = {
    "wgridder": [wgridder],
    "predict": [predict_vis],
    "dft": [dft_im_to_vis, dft_vis_to_im, wsclean_predict],
    "perley": [perley_grid, perley_degrid],
    "nifty": [nifty_grid, nifty_degrid],
    "averaging": [averaging] * 9 + [averaging_refused],
    "calibration": [calibration] * 6 + [solve, correct_refused],
    "rime": [phase_delay, feed_rotation, parallactic_angles,
             transform_sources, beam_cube, zernike],
    "sky": [coherency] * 5 + [coherency_refused, gaussian, spectral,
                              spi_fit, coordinates, wsclean_spectra],
}
