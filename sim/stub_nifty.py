"""
Stand-in for the (not installed) C++ package ``nifty_gridder``: nearest
neighbour gridding with the call signatures africanus uses.  Like the original,
``ms2grid_c`` adds to ``grid_in`` in place and returns it.
"""
import numpy as np

C = 299792458.0
grid_hook = None        # callable("enter"/"exit", grid_in)


class GridderConfig(object):
    def __init__(self, nx, ny, eps, csx, csy):
        self.args = (nx, ny, eps, csx, csy)

    def __reduce__(self):
        return (GridderConfig, self.args)

    def __dask_tokenize__(self):
        return ("stub-gridder-config",) + self.args

    def Nxdirty(self):
        return self.args[0]

    def Nydirty(self):
        return self.args[1]

    def Epsilon(self):
        return self.args[2]

    def Pixsize_x(self):
        return self.args[3]

    def Pixsize_y(self):
        return self.args[4]

    def Nu(self):
        return self.args[0] + 2

    def Nv(self):
        return self.args[1] + 4

    def grid2dirty_c(self, grid):
        nx, ny = self.args[:2]
        return np.ascontiguousarray(grid[1:1 + nx, 2:2 + ny]) * \
            (1.0 + self.args[3])

    def dirty2grid_c(self, image):
        out = np.zeros((self.Nu(), self.Nv()), np.complex128)
        nx, ny = self.args[:2]
        out[1:1 + nx, 2:2 + ny] = image * (1.0 + self.args[4])
        return out


class Baselines(object):
    def __init__(self, uvw, freq):
        self.uvw = np.array(uvw)
        self.freq = np.array(freq)

    def __reduce__(self):
        return (Baselines, (self.uvw, self.freq))

    def cell(self, gc, r, c):
        s = self.freq[c] / C
        return (int(np.floor(self.uvw[r, 0] * s)) % gc.Nu(),
                int(np.floor(self.uvw[r, 1] * s)) % gc.Nv())


def getIndices(bl, gc, flags, cb, ce, wmin, wmax):
    out = []
    nchan = bl.freq.size
    cb = 0 if cb < 0 else cb
    ce = nchan if ce < 0 else ce
    for r in range(bl.uvw.shape[0]):
        for c in range(cb, ce):
            w = abs(bl.uvw[r, 2]) * bl.freq[c] / C
            if not flags[r, c] and wmin <= w < wmax:
                out.append(r * nchan + c)
    return np.array(out, np.int32)


def ms2grid_c(bl, gc, idx, ms, grid_in, wgt):
    if grid_hook is None:
        return _ms2grid_c(bl, gc, idx, ms, grid_in, wgt)
    grid_hook("enter", grid_in)
    try:
        return _ms2grid_c(bl, gc, idx, ms, grid_in, wgt)
    finally:
        grid_hook("exit", grid_in)


def _ms2grid_c(bl, gc, idx, ms, grid_in, wgt):
    grid = grid_in
    if grid is None:
        grid = np.zeros((gc.Nu(), gc.Nv()), np.complex128)
    nchan = bl.freq.size
    for i in idx:
        r, c = divmod(int(i), nchan)
        u, v = bl.cell(gc, r, c)
        grid[u, v] += ms[r, c] * wgt[r, c]
    return grid


def grid2ms_c(bl, gc, idx, grid):
    nchan = bl.freq.size
    ms = np.zeros((bl.uvw.shape[0], nchan), np.complex128)
    for i in idx:
        r, c = divmod(int(i), nchan)
        ms[r, c] = grid[bl.cell(gc, r, c)]
    return ms
