"""
A simulated GPU behind a stand-in for cupy.

``RawKernel`` compiles the source that africanus rendered with the host
compiler against sim/cuda/cupy/carray.cuh (the CUDA language and cupy's array
class for the host) and runs it on sim/cuda/runtime.cpp: every CUDA thread is
a fibre, a seeded scheduler decides which runs next, shared memory and freshly
allocated device memory hold garbage, accesses outside an array are caught.
"""
import ctypes
import hashlib
import importlib
import os
import subprocess
import sys
import types

import numpy as np

from sim.core import HarnessError, Violation

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cuda")
GUARD = 4096

current = None          # Device of the run


class OutOfMemoryError(MemoryError):
    pass


class CompileException(Exception):
    pass


class CUDADriverError(RuntimeError):
    pass


def _read(*p):
    with open(os.path.join(HERE, *p)) as f:
        return f.read()


_runtime = None
_salt = None
_loaded = {}


def _dir():
    from sim import disk
    d = os.path.join(disk.SCRATCH, "gpu")
    os.makedirs(d, exist_ok=True)
    return d


def _gxx(source, target, *flags):
    tmp = "%s.%d" % (target, os.getpid())
    src = tmp + ".cpp"
    with open(src, "w") as f:
        f.write(source)
    p = subprocess.run(["g++", "-shared", "-fPIC", "-w", "-I", HERE, "-o",
                        tmp] + list(flags) + [src], capture_output=True,
                       text=True, env=dict(os.environ, LC_ALL="C"))
    os.unlink(src)
    if p.returncode:
        return p.stderr[:2000]
    os.rename(tmp, target)
    return None


def runtime():
    global _runtime, _salt
    if _runtime is None:
        src = _read("runtime.cpp")
        _salt = hashlib.sha256((src + _read("cupy", "carray.cuh")).encode())
        path = os.path.join(_dir(), "runtime.so")
        if not os.path.exists(path):
            err = _gxx(src, path, "-O2")
            if err:
                raise HarnessError("runtime: " + err)
        _runtime = ctypes.CDLL(path, mode=ctypes.RTLD_GLOBAL)
    return _runtime


def compiled(code, name):
    """ library of a kernel; CompileException if it is not valid """
    runtime()
    h = _salt.copy()
    h.update(code.encode())
    h.update(name.encode())
    key = h.hexdigest()
    lib = _loaded.get(key)
    if lib is None:
        path = os.path.join(_dir(), key + ".so")
        bad = path + ".err"
        if os.path.exists(bad):
            with open(bad) as f:
                raise CompileException(f.read())
        if not os.path.exists(path):
            err = _gxx(code + "\nCUSIM_ENTRY(%s)\n" % name, path, "-O0")
            if err:
                with open(bad + str(os.getpid()), "w") as f:
                    f.write(err)
                os.rename(bad + str(os.getpid()), bad)
                raise CompileException(err)
        lib = _loaded[key] = ctypes.CDLL(path, mode=ctypes.RTLD_LOCAL)
    return lib


class Arg(ctypes.Structure):
    _fields_ = [("ptr", ctypes.c_void_p), ("ndim", ctypes.c_int),
                ("itemsize", ctypes.c_int)]


def _device_copy(a):
    """ (guarded copy, its address, place of the data within it) """
    lo, hi = np.byte_bounds(a)
    n = hi - lo
    buf = np.empty(2 * GUARD + n + 64, dtype=np.uint8)
    buf[:] = 0x7f
    start = (-(buf.ctypes.data + GUARD)) % 64 + GUARD
    raw = np.frombuffer((ctypes.c_char * n).from_address(lo), dtype=np.uint8)
    buf[start:start + n] = raw
    return buf, start, n, raw, a.ctypes.data - lo


class Device(object):
    """ what the simulated GPU does during one run """

    def __init__(self, ch, trace):
        self.ch, self.trace = ch, trace
        self.faults = False
        self.launches = 0

    def fault(self, kind, p, exc):
        if self.faults and self.ch.flip(p):
            self.trace.fault(kind)
            raise exc

    def empty(self, shape, dtype):
        self.fault("device out of memory", 0.12,
                   OutOfMemoryError("out of memory"))
        out = np.empty(shape, dtype=dtype)
        flat = out.reshape(-1).view(np.uint8)
        flat[:] = np.resize(np.array([0xa5, 0x91, 0xd3, 0x7f], np.uint8),
                            flat.shape)
        return out

    def launch(self, kernel, grid, block, args):
        if len(grid) != 3 or len(block) != 3 or min(grid) < 1 or \
                min(block) < 1 or max(grid[1:]) > 65535 or \
                int(np.prod(block)) > 1024:
            raise CUDADriverError("CUDA_ERROR_INVALID_VALUE: grid %s, "
                                  "block %s" % (grid, block))
        self.fault("kernel compilation failed", 0.08,
                   CompileException("nvrtc: no space left on device"))
        lib = compiled(kernel.code, kernel.name)
        self.fault("kernel launch failed", 0.08,
                   CUDADriverError("CUDA_ERROR_LAUNCH_FAILED"))
        ch = self.ch
        policy = ch.weighted([(0, 1), (1, 4), (2, 1), (3, 3)])
        seed = ch.draw(1 << 16) if policy else 0
        preempt = ch.pick((0, 0, 5, 30)) if policy else 0
        cargs = (Arg * max(len(args), 1))()
        keep, copies = [], []
        for i, a in enumerate(args):
            if isinstance(a, np.ndarray) and a.ndim:
                buf, start, n, raw, off = _device_copy(a)
                copies.append((buf, start, n, raw))
                s = np.array((buf.ctypes.data + start + off, a.size) +
                             a.shape + a.strides, dtype=np.int64)
                keep.append(s)
                cargs[i] = Arg(s.ctypes.data, a.ndim, a.itemsize)
            else:
                # cupy passes Python scalars as 8 byte values
                s = np.array([a, 0])
                if s.dtype.itemsize > 8 or s.dtype.kind not in "iufb":
                    raise TypeError("Unsupported type %s" % type(a))
                keep.append(s)
                cargs[i] = Arg(s.ctypes.data, -1, s.itemsize)
        lo, hi = ctypes.c_void_p(), ctypes.c_void_p()
        lib.cusim_shared(ctypes.byref(lo), ctypes.byref(hi))
        msg = ctypes.create_string_buffer(256)
        stats = (ctypes.c_uint64 * 5)()
        rt = runtime()
        err = ctypes.create_string_buffer(256)
        if not lib.cusim_accepts(cargs, len(args)):
            raise Violation("kernel-arguments", "kernel %s is launched with "
                            "arguments it does not take" % kernel.name,
                            "kernel-arguments:%s" % kernel.name)
        rc = rt.cusim_launch(
            ctypes.cast(lib.cusim_entry, ctypes.c_void_p), cargs, lo, hi,
            (ctypes.c_uint * 3)(*grid), (ctypes.c_uint * 3)(*block),
            ctypes.c_uint64(seed), policy, preempt, 20, msg, stats)
        del err
        self.launches += 1
        t = self.trace
        t.step("%s %x" % (kernel.name, stats[0]))
        t.log("launch", kernel.name, "grid", grid, "block", block, "policy",
              policy, "preempt", preempt, "schedule %x" % stats[0],
              "switches", stats[1])
        t.probe("kernel launches")
        t.probe("thread switches", int(stats[1]))
        t.probe("barriers", int(stats[3]))
        t.probe("warp exchanges", int(stats[4]))
        t.sim_time += 1e-6 * int(stats[2])
        if rc:
            what = msg.value.decode()
            raise Violation(
                "kernel", "%s: %s" % (kernel.name, what),
                "kernel:%s:%s" % (kernel.name, what.split(" (")[0]))
        for buf, start, n, raw in copies:
            if (buf[:start] != 0x7f).any() or (buf[start + n:] != 0x7f).any():
                raise Violation("kernel-memory", "%s wrote outside an array"
                                % kernel.name, "kernel-memory:%s" %
                                kernel.name)
            if (raw != buf[start:start + n]).any():
                raw[:] = buf[start:start + n]


class RawKernel(object):
    def __init__(self, code, name, options=()):
        if isinstance(code, bytes):
            code = code.decode("utf-8")
        self.code, self.name = code, name

    def __call__(self, grid, block, args, **kw):
        current.launch(self, tuple(grid), tuple(block), tuple(args))


def empty(shape, dtype=float, order="C"):
    return current.empty(shape, np.dtype(dtype))


_TYPENAMES = {"float32": "float", "float64": "double", "int32": "int",
              "int64": "long long", "complex64": "complex<float>",
              "complex128": "complex<double>", "uint8": "unsigned char",
              "bool": "bool"}


def get_typename(dtype):
    if dtype is None:
        raise ValueError("dtype is None")
    return _TYPENAMES[np.dtype(dtype).name]


def install():
    """ cupy, and the africanus modules that use it imported afresh """
    cp = types.ModuleType("cupy")
    cp.__path__ = []
    for n in dir(np):
        if not n.startswith("_") and n not in ("core", "testing"):
            setattr(cp, n, getattr(np, n))
    cp.empty = empty
    cp.RawKernel = RawKernel
    cp.asnumpy = np.asarray
    cp.get_array_module = lambda *a: np
    core = types.ModuleType("cupy.core")
    core.__path__ = []
    scalar = types.ModuleType("cupy.core._scalar")
    scalar.get_typename = get_typename
    cuda = types.ModuleType("cupy.cuda")
    cuda.__path__ = []
    comp = types.ModuleType("cupy.cuda.compiler")
    comp.CompileException = CompileException
    mem = types.ModuleType("cupy.cuda.memory")
    mem.OutOfMemoryError = OutOfMemoryError
    cp.core, core._scalar, cp.cuda = core, scalar, cuda
    cuda.compiler, cuda.memory = comp, mem
    for m in (cp, core, scalar, cuda, comp, mem):
        sys.modules[m.__name__] = m
    for name in list(sys.modules):
        if name in ("africanus.util.cuda", "africanus.util.jinja2") or \
                name.startswith(("africanus.rime.cuda",
                                 "africanus.model.coherency.cuda")):
            del sys.modules[name]
    return (importlib.import_module("africanus.rime.cuda"),
            importlib.import_module("africanus.model.coherency.cuda"))
