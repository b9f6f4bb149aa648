"""
Simulated process start: africanus.util is imported afresh (module level code
runs again, module state starts anew) from code objects compiled beforehand.
"""
import importlib.abc
import importlib.machinery
import os
import sys
import types

from sim import mon, platform

PREFIX = "africanus.util"
_codes = {}


def preload():
    """ compile africanus/util/**.py (before privileges are dropped) """
    if _codes:
        return
    root = os.path.join(platform.REPO, "africanus", "util")
    for dp, dn, fn in os.walk(root):
        dn[:] = [d for d in dn if d not in ("tests", "__pycache__")]
        for f in sorted(fn):
            if not f.endswith(".py"):
                continue
            path = os.path.join(dp, f)
            rel = os.path.relpath(path, root)[:-3].split(os.sep)
            pkg = rel[-1] == "__init__"
            name = ".".join([PREFIX] + (rel[:-1] if pkg else rel))
            with open(path, "rb") as g:
                try:
                    code = compile(g.read(), path, "exec", dont_inherit=True)
                except SyntaxError:
                    continue
            _codes[name] = (code, path, pkg)
            mon._walk(code)
    mon.collect([])


class _Importer(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name not in _codes:
            return None
        code, fn, pkg = _codes[name]
        spec = importlib.machinery.ModuleSpec(name, self, origin=fn,
                                              is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(fn)]
        return spec

    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, module):
        exec(_codes[module.__name__][0], module.__dict__)


class Boot(object):
    """ with Boot(env): a process that has not imported africanus.util """

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        import africanus
        self.pkg = africanus
        self.saved = {k: sys.modules.pop(k) for k in list(sys.modules)
                      if k == PREFIX or k.startswith(PREFIX + ".")}
        self.attr = africanus.__dict__.get("util")
        self.finder = _Importer()
        sys.meta_path.insert(0, self.finder)
        self.old = {k: os.environ.get(k) for k in self.env}
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self.finder)
        for k in list(sys.modules):
            if k == PREFIX or k.startswith(PREFIX + "."):
                del sys.modules[k]
        sys.modules.update(self.saved)
        if self.attr is not None:
            self.pkg.util = self.attr
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
