"""
Platform shim (harness side, never committed to /repo).

codex-africanus at the pinned commit imports ``numba.generated_jit`` (removed
from numba 0.59) and ``np.object`` (removed from numpy 1.24), so most of its
sub-packages cannot even be imported in this sandbox.  The shim supplies both
names *before* anything of africanus is imported.

All kernels run in pure Python (``NUMBA_DISABLE_JIT=1``).  That is deliberate:
a compiled kernel is one opaque step for the simulator, an interpreted one can
be pre-empted between any two source lines, which is what a ``nogil`` kernel
experiences under dask's threaded scheduler.

* ``generated_jit(f)``   -> dispatcher: types of the arguments -> f(*types) ->
                            python implementation -> call it.
* ``overload(stub)(f)``  -> stub is given a body that dispatches the same way.
* ``prange``             -> iteration order chosen by the simulator (identity
                            outside a simulation).
"""
import functools
import inspect
import os
import sys

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "DUCC0_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

REPO = os.environ.get("AFRICANUS_REPO", "/repo")

_registry = {}
prange_order = None     # callable(n) -> sequence of indices, or None
call_hook = None        # callable("enter"/"exit", module, name, arguments)


def _typeof(value, literal=False):
    from numba import types, typeof
    import numpy as np
    if value is None:
        return types.none
    if isinstance(value, (bool, int, str)):
        return types.literal(value) if literal else typeof(value)
    if isinstance(value, type) and issubclass(value, np.generic):
        return types.NumberClass(typeof(value(0)))
    if isinstance(value, tuple) and not hasattr(value, "_fields"):
        return types.Tuple(tuple(_typeof(v, literal) for v in value)) \
            if value else types.Tuple(())
    if isinstance(value, list):
        # reflected lists of arrays
        return typeof(value) if value else types.none
    return typeof(value)


def _bind(sig, args, kwargs):
    ba = sig.bind(*args, **kwargs)
    ba.apply_defaults()
    return ba


def _dispatch(factory, sig, cache, args, kwargs):
    ba = _bind(sig, args, kwargs)
    flat = []
    for name, p in sig.parameters.items():
        v = ba.arguments[name]
        if p.kind is p.VAR_POSITIONAL:
            flat.extend(v)
        else:
            flat.append(v)
    # like numba: non-literal types first, literal ones if the factory asks
    err = None
    for literal in (False, True):
        tys = tuple(_typeof(v, literal) for v in flat)
        key = (literal, tys)
        impl = cache.get(key)
        if impl is None:
            try:
                impl = factory(*tys)
            except MemoryError:         # injected by the simulator
                raise
            except Exception as e:
                cache[key] = impl = e
            else:
                cache[key] = impl
        if not isinstance(impl, Exception):
            return impl(*flat)
        err = err or impl
    raise err


def generated_jit(function=None, cache=False, pipeline_class=None, **options):
    def deco(fn):
        sig = inspect.signature(fn)
        memo = {}

        @functools.wraps(fn)
        def dispatcher(*args, **kwargs):
            if call_hook is None:
                return _dispatch(fn, sig, memo, args, kwargs)
            ba = _bind(sig, args, kwargs).arguments
            call_hook("enter", fn.__module__, fn.__name__, ba)
            try:
                return _dispatch(fn, sig, memo, args, kwargs)
            finally:
                call_hook("exit", fn.__module__, fn.__name__, ba)

        dispatcher.py_func = fn
        return dispatcher

    return deco if function is None else deco(function)


def overload(stub, jit_options=None, strict=True, inline="never",
             prefer_literal=False, **kw):
    def deco(factory):
        ident = "%s.%s" % (stub.__module__, stub.__qualname__)
        _registry[ident] = (factory, inspect.signature(stub), {})
        ns = {}
        exec("def _body(*args, **kwargs):\n"
             "    from sim.platform import _call_overload\n"
             "    return _call_overload(%r, args, kwargs)\n" % ident, ns)
        stub.__code__ = ns["_body"].__code__
        stub.__defaults__ = None
        stub.__kwdefaults__ = None
        return factory
    return deco


def _call_overload(ident, args, kwargs):
    factory, sig, memo = _registry[ident]
    return _dispatch(factory, sig, memo, args, kwargs)


def prange(*args):
    r = range(*args)
    if prange_order is None:
        return r
    order = prange_order(len(r))
    return [r[i] for i in order]


_installed = False


def install():
    """ Must run before africanus is imported. Idempotent. """
    global _installed
    if _installed:
        return
    if "africanus" in sys.modules:
        raise RuntimeError("africanus imported before the platform shim")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    for name in ("object", "bool", "int", "float", "complex", "str"):
        if name not in np.__dict__:
            setattr(np, name, __builtins__[name]
                    if isinstance(__builtins__, dict)
                    else getattr(__builtins__, name))
    import numba
    import numba.extending
    if not hasattr(numba, "generated_jit"):
        numba.generated_jit = generated_jit
    numba.extending.overload = overload
    numba.prange = prange
    numba.literally = lambda x: x
    # implementations closed over numba scalar types use them as numpy dtypes
    from numba import types
    from numba.np import numpy_support
    for cls in (types.Number, types.Boolean):
        if not hasattr(cls, "dtype"):
            cls.dtype = property(lambda self: numpy_support.as_dtype(self))
    _patch_after_import()
    _installed = True


def _patch_after_import():
    """ numba truncates float arguments of range(); CPython refuses them """
    import builtins
    import importlib.abc
    import importlib.util

    class Finder(importlib.abc.MetaPathFinder):
        busy = False

        def find_spec(self, name, path, target=None):
            if name != "africanus.rime.zernike" or self.busy:
                return None
            self.busy = True
            try:
                spec = importlib.util.find_spec(name)
            finally:
                self.busy = False
            if spec is None:
                return None
            orig = spec.loader.exec_module

            def exec_module(module):
                orig(module)
                module.range = lambda *a: builtins.range(
                    *[int(x) for x in a])
            spec.loader.exec_module = exec_module
            return spec

    sys.meta_path.insert(0, Finder())
