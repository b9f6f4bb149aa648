"""
Definitions: small executable reference models, written from the documented
formulas with plain numpy, one obvious loop each.
"""
from math import factorial

import numpy as np

C = 299792458.0


# ---------------------------------------------------------------------------
# time and channel averaging
# ---------------------------------------------------------------------------
def time_bins(d, rows, tbin):
    """ [(mean time, baseline, rows)] in output order """
    # ties in time are ordered by second, then first antenna
    bls = sorted({(d["antenna1"][r], d["antenna2"][r]) for r in rows},
                 key=lambda x: x[::-1])
    out = []
    for b, bl in enumerate(bls):
        mine = [r for r in rows
                if (d["antenna1"][r], d["antenna2"][r]) == bl]
        mine.sort(key=lambda r: d["time"][r])
        bins, low = [], None
        for r in mine:
            half = d["interval"][r] / 2
            if not bins or d["time"][r] + half - low > tbin:
                bins.append([])
                low = d["time"][r] - half
            bins[-1].append(r)
        out += [(d["time"][x].mean(), b, bl, x) for x in bins]
    out.sort(key=lambda x: x[:2])
    return out


def averaging(d, row_chunks, chan_chunks, tbin, cbin, fields, nchan, ncorr):
    fr = None
    if "flag_row" in d:
        fr = d["flag_row"] != 0
    elif "flag" in d:
        fr = d["flag"].astype(bool).all(axis=(1, 2))
    cbins, start = [], 0
    for n in chan_chunks:
        cbins += [list(range(start + i, start + min(i + cbin, n)))
                  for i in range(0, n, cbin)]
        start += n
    res = {k: [] for k in fields}
    start = 0
    for n in row_chunks:
        for t, _, bl, rows in time_bins(d, range(start, start + n), tbin):
            flagged = fr is not None and bool(fr[rows].all())
            sel = rows if fr is None else [r for r in rows
                                           if fr[r] == flagged]
            res["time"].append(t)
            res["interval"].append(d["interval"][rows].sum())
            res["flag_row"].append(flagged)
            res["antenna1"].append(bl[0])
            res["antenna2"].append(bl[1])
            for k, f in (("time_centroid", np.mean), ("exposure", np.sum),
                         ("uvw", np.mean), ("weight", np.sum)):
                if k in d:
                    res[k].append(f(d[k][sel], axis=0))
            if "sigma" in d:
                w = d["weight"][sel] if "weight" in d else \
                    np.ones_like(d["sigma"][sel])
                ws = w.sum(axis=0)
                v = (w**2 * d["sigma"][sel]**2).sum(axis=0)
                res["sigma"].append(np.sqrt(v / np.where(ws == 0, 1, ws)**2))
            lines = {k: np.zeros((len(cbins), ncorr), complex) for k in
                     ("vis", "flag", "weight_spectrum", "sigma_spectrum")}
            for j, chans in enumerate(cbins):
                for c in range(ncorr):
                    at = [(r, f) for r in sel for f in chans]
                    if "flag" in d:
                        good = [x for x in at if not d["flag"][x + (c,)]]
                        lines["flag"][j, c] = not good
                        at = good or at
                    if "weight_spectrum" in d:
                        w = [d["weight_spectrum"][x + (c,)] for x in at]
                    elif "weight" in d:
                        w = [d["weight"][r, c] for r, _ in at]
                    else:
                        w = [1.0] * len(at)
                    w = np.array(w)
                    ws = w.sum() or 1.0
                    if "vis" in d:
                        lines["vis"][j, c] = sum(
                            x * d["vis"][i + (c,)]
                            for x, i in zip(w, at)) / ws
                    if "weight_spectrum" in d:
                        lines["weight_spectrum"][j, c] = w.sum()
                    if "sigma_spectrum" in d:
                        lines["sigma_spectrum"][j, c] = np.sqrt(sum(
                            x**2 * d["sigma_spectrum"][i + (c,)]**2
                            for x, i in zip(w, at)) / ws**2)
            for k, v in lines.items():
                res[k].append(v)
        start += n
    for k, f in (("chan_freq", np.mean), ("chan_width", np.sum),
                 ("effective_bw", np.sum), ("resolution", np.sum)):
        if k in d:
            res[k] = [f(d[k][b]) for b in cbins]
    have = set(d) | {"time", "interval", "antenna1", "antenna2"}
    if fr is not None:
        have.add("flag_row")
    return [np.array(res[k]) for k in fields if k in have]


# ---------------------------------------------------------------------------
# calibration
# ---------------------------------------------------------------------------
def diag(g):
    """ 2 x 2 Jones matrices of diagonals """
    out = np.zeros(g.shape + (2,), complex)
    out[..., 0, 0], out[..., 1, 1] = g[..., 0], g[..., 1]
    return out


def solution_of_row(tbc):
    return np.repeat(np.arange(len(tbc)), tbc)


def apply_gains(g, v, h, mode):
    """ g v h^H, all (chan, ...) """
    if mode == "DIAG_DIAG":
        return g * v * np.conj(h)
    if mode == "DIAG":
        g, h = diag(g), diag(h)
    return g @ v @ np.conj(np.swapaxes(h, -1, -2))


def corrupted(d, model, mode):
    """ sum over directions; model is (row, chan, dir, corr...) """
    t = solution_of_row(d["tbc"])
    out = np.zeros(model.shape[:2] + model.shape[3:], complex)
    for r in range(out.shape[0]):
        g, h = d["jones"][t[r], d["a1"][r]], d["jones"][t[r], d["a2"][r]]
        for s in range(model.shape[2]):
            out[r] += apply_gains(g[:, s], model[r, :, s], h[:, s], mode)
    return out


def unflagged(d):
    f = d["flag"]
    return ~f.reshape(f.shape[:2] + (-1,)).any(axis=2)


def calibration(which, d, mode):
    ok = unflagged(d) if "flag" in d else None
    t = solution_of_row(d["tbc"])
    if which == "corrupt_vis":
        return [corrupted(d, d["model"], mode)]
    if which == "compute_and_corrupt_vis":
        lm = d["lm"][t]                              # (row, dir, 2)
        n = np.sqrt(1 - (lm**2).sum(-1)) - 1
        ph = (d["uvw"][:, None, 0] * lm[..., 0] +
              d["uvw"][:, None, 1] * lm[..., 1] + d["uvw"][:, None, 2] * n)
        k = np.exp(-2j * np.pi / C * ph[:, None, :] *
                   d["freq"][None, :, None]) / (n + 1)[:, None, :]
        m = d["model"][t]                            # (row, chan, dir, ...)
        return [corrupted(d, m * k.reshape(k.shape + (1,) * (m.ndim - 3)),
                          mode)]
    if which == "correct_vis":
        out = np.zeros(d["vis"].shape, complex)
        for r in range(out.shape[0]):
            g = d["jones"][t[r], d["a1"][r], :, 0]
            h = d["jones"][t[r], d["a2"][r], :, 0]
            if mode == "FULL":
                g, h = np.linalg.inv(g), np.linalg.inv(h)
            else:
                g, h = 1 / g, 1 / h
            out[r] = apply_gains(g, d["vis"][r], h, mode)
        out[~ok] = 0
        return [out]
    if which == "residual_vis":
        out = d["vis"] - corrupted(d, d["model"], mode)
        out[~ok] = 0
        return [out]
    # normal equations of phases: the visibility of direction s changes by
    # +i (antenna p) and -i (antenna q) times itself
    jhj = np.zeros(d["jones"].shape)
    jhr = np.zeros(d["jones"].shape, complex)
    for r in range(t.size):
        p, q = d["a1"][r], d["a2"][r]
        for f in range(ok.shape[1]):
            if not ok[r, f]:
                continue
            for s in range(d["model"].shape[2]):
                v = d["jones"][t[r], p, f, s] * d["model"][r, f, s] * \
                    np.conj(d["jones"][t[r], q, f, s])
                for a, i in ((p, 1j), (q, -1j)):
                    jhj[t[r], a, f, s] += np.abs(v)**2
                    if which == "compute_jhr":
                        jhr[t[r], a, f, s] += np.conj(i * v) * d["vis"][r, f]
    return [jhj if which == "compute_jhj" else jhr]


def phase_solution(d, tol=1e-4, maxiter=100):
    """ Gauss-Newton on the phases, from the normal equations """
    w = np.sqrt(d["weight"])
    e = dict(d, model=d["model"] * w[:, :, None])
    jhj = calibration("compute_jhj", e, "DIAG_DIAG")[0]
    for k in range(1, maxiter + 1):
        res = d["vis"] * w - corrupted(e, e["model"], "DIAG_DIAG")
        jhr = calibration("compute_jhr", dict(e, vis=res), "DIAG_DIAG")[0]
        old = np.angle(e["jones"])
        new = old + 0.5 * (jhr / jhj).real
        e["jones"] = np.exp(1j * new)
        if np.abs(new - old).max() <= tol:
            break
    return [e["jones"], jhj, jhr, np.array(k)]


# ---------------------------------------------------------------------------
# sky
# ---------------------------------------------------------------------------
def gaussian(uvw, freq, shape):
    """ Fourier transform of a gaussian of given full widths """
    s = np.pi / (C * 2 * np.sqrt(np.log(2)))
    out = np.zeros((shape.shape[0], uvw.shape[0], freq.shape[0]))
    for i, (maj, mnr, pa) in enumerate(shape):
        if maj == 0:
            mnr = 0
        a = mnr * (uvw[:, 0] * np.cos(pa) - uvw[:, 1] * np.sin(pa))
        b = maj * (uvw[:, 0] * np.sin(pa) + uvw[:, 1] * np.cos(pa))
        out[i] = np.exp(-np.outer(a**2 + b**2, (freq * s)**2))
    return out


def wsclean_spectra(flux, coeffs, logp, ref, freq):
    out = np.zeros((flux.size, freq.size))
    for s in range(flux.size):
        x = freq / ref[s]
        lg = logp if np.ndim(logp) == 0 else logp[s]
        k = range(1, coeffs.shape[1] + 1)
        if lg:
            out[s] = flux[s] * np.exp(sum(
                c * np.log(x)**i for c, i in zip(coeffs[s], k)))
        else:
            out[s] = flux[s] + sum(
                c * (x - 1)**i for c, i in zip(coeffs[s], k))
    return out


def wsclean_predict(d):
    spec = wsclean_spectra(d["flux"], d["coeffs"], d["logp"], d["ref"],
                           d["freq"])
    n = np.sqrt(1 - (d["lm"]**2).sum(1)) - 1
    lmn = np.concatenate([d["lm"], n[:, None]], axis=1)
    ph = np.einsum("sx,rx,f->srf", lmn, d["uvw"], d["freq"])
    shape = gaussian(d["uvw"], d["freq"], d["gauss"])
    shape[d["stype"] == "POINT"] = 1
    return (np.exp(2j * np.pi / C * ph) * shape *
            spec[:, None, :]).sum(axis=0)[..., None]


def spectral(stokes, spi, ref, freq, base):
    one = stokes.ndim == 1
    if one:
        stokes, spi = stokes[:, None], spi[..., None]
    npol = stokes.shape[1]
    base = list(base) if isinstance(base, (list, tuple)) else [base] * npol
    base += [base[-1]] * (npol - len(base))
    out = np.zeros((stokes.shape[0], freq.size, npol))
    for s in range(stokes.shape[0]):
        x = freq / ref[s]
        for p in range(npol):
            v = stokes[s, p] + np.zeros(freq.size)
            for i in range(spi.shape[1]):
                a = spi[s, i, p]
                if base[p] in (0, "std"):
                    v = v * x**a
                elif base[p] in (1, "log"):
                    v = v * np.exp(a * np.log(x)**(i + 1))
                else:
                    v = v * 10**(a * np.log10(x)**(i + 1))
            out[s, :, p] = v
    return out[..., 0] if one else out


# ---------------------------------------------------------------------------
# instrument
# ---------------------------------------------------------------------------
def feed_rotation(pa, kind):
    pa = pa.astype(float)
    out = np.zeros(pa.shape + (2, 2), complex)
    if kind == "linear":
        out[..., 0, 0] = out[..., 1, 1] = np.cos(pa)
        out[..., 0, 1], out[..., 1, 0] = np.sin(pa), -np.sin(pa)
    else:
        out[..., 0, 0], out[..., 1, 1] = np.exp(-1j * pa), np.exp(1j * pa)
    return out


def transform_sources(lm, pa, pe, scale, freq):
    c, s = np.cos(pa)[None], np.sin(pa)[None]           # (1, time, ant)
    el, m = lm[:, 0, None, None], lm[:, 1, None, None]
    x = el * c - m * s + pe[None, :, :, 0]
    y = el * s + m * c + pe[None, :, :, 1]
    sc = scale[None, None]
    return np.stack([x[..., None] * sc, y[..., None] * sc,
                     np.broadcast_to(freq, x.shape + freq.shape)])


def beam(beam, ext, fmap, lm, pa, pe, scale, freq):
    """ one (source, time, antenna, channel) array at a time """
    lw, mh, nud = beam.shape[:3]
    hi = np.searchsorted(fmap, freq, side="right")
    lo = np.clip(hi - 1, 0, nud - 2)
    w = (fmap[lo + 1] - freq) / (fmap[lo + 1] - fmap[lo])
    w = np.clip(w, 0.0, 1.0)
    fs = np.where(freq < fmap[0], freq / fmap[0],
                  np.where(freq > fmap[-1], freq / fmap[-1], 1.0))
    l = lm[:, None, None, None, 0] * fs + pe[None, ..., 0]
    m = lm[:, None, None, None, 1] * fs + pe[None, ..., 1]
    c, s = np.cos(pa)[None, :, :, None], np.sin(pa)[None, :, :, None]
    l, m = l * c - m * s, l * s + m * c
    l, m = l * scale[None, None, ..., 0], m * scale[None, None, ..., 1]
    x = (l - ext[0, 0]) * (lw - 1) / (ext[0, 1] - ext[0, 0])
    y = (m - ext[1, 0]) * (mh - 1) / (ext[1, 1] - ext[1, 0])
    x, y = np.clip(x, 0, lw - 1), np.clip(y, 0, mh - 1)
    x0, y0 = np.floor(x).astype(int), np.floor(y).astype(int)
    x1, y1 = np.minimum(x0 + 1, lw - 1), np.minimum(y0 + 1, mh - 1)
    dx, dy = x - x0, y - y0
    tot = asum = 0.0
    k = (Ellipsis,) + (None,) * (beam.ndim - 3)
    for i, wi in ((x0, 1 - dx), (x1, dx)):
        for j, wj in ((y0, 1 - dy), (y1, dy)):
            for n, wn in ((lo, w), (lo + 1, 1 - w)):
                v = beam[i, j, np.broadcast_to(n, i.shape)]
                ww = (wi * wj * wn)[k]
                tot = tot + ww * v
                asum = asum + ww * np.abs(v)
    mag = np.abs(tot)
    return np.where(mag == 0, 0, tot / np.where(mag == 0, 1, mag)) * asum


def noll(count):
    """ (n, m) of the first polynomials: m > 0 cosines, m < 0 sines """
    out, j, n = [], 1, 0
    while len(out) < count:
        ms = sorted(m for m in range(n % 2, n + 1, 2) for _ in range(
            1 if m == 0 else 2))
        for m in ms:
            out.append((n, m if j % 2 == 0 else -m))
            j += 1
        n += 1
    return out[:count]


def zernike(coords, coeffs, index):
    nm = noll(int(index.max()) + 1)
    el, m = coords[0], coords[1]
    rho, phi = np.hypot(el, m), np.arctan2(el, m)
    corr = coeffs.shape[2:-1]
    co = coeffs.reshape(coeffs.shape[:2] + (-1, coeffs.shape[-1]))
    ix = index.reshape(co.shape)
    out = np.zeros(el.shape + co.shape[2:3], complex)
    terms = []
    for n, q in nm:
        a = abs(q)
        r = sum((-1)**k * factorial(n - k) / (
            factorial(k) * factorial((n + a) // 2 - k) *
            factorial((n - a) // 2 - k)) * rho**(n - 2 * k)
            for k in range((n - a) // 2 + 1))
        ang = np.cos(a * phi) if q >= 0 else np.sin(a * phi)
        terms.append(np.where(rho > 1, 0, r * ang))
    for a in range(co.shape[0]):
        for f in range(co.shape[1]):
            for c in range(co.shape[2]):
                out[:, :, a, f, c] = sum(
                    co[a, f, c, p] * terms[ix[a, f, c, p]][:, :, a, f]
                    for p in range(co.shape[3]))
    return out.reshape(el.shape + corr)
