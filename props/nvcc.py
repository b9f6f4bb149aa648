"""
P23: probing and driving the CUDA compiler (africanus.util.nvcc) with a
simulated compiler process, disk, file descriptors and threads.
"""
import importlib
import os
import subprocess
import sys
import types

from props.sync import Halt
from sim import disk as dk
from sim import threads as th
from sim.boot import Boot
from sim.core import Violation
from sim.disk import Disk, drop_privileges
from sim.threads import Simulation

_real_dup, _real_dup2, _real_close = os.dup, os.dup2, os.close


class Job(object):
    """ what one run of the simulated compiler did """


class Toolchain(object):
    def __init__(self, ch, trace, disk):
        self.ch, self.trace, self.disk = ch, trace, disk
        self.cuda = os.path.join(disk.base, "cuda-x")
        self.nvcc = os.path.join(self.cuda, "bin", "nvcc")
        self.decoy = os.path.join(disk.base, "cuda-old", "bin", "nvcc")
        self.wrapped = ch.flip(0.15)        # NVCC="ccache '/path with space'"
        self.jobs = []
        self.probes = 0
        self.faulty = False
        self.version = ch.pick((9000, 8000, 11020, 9000, 8000, 11020, 7050))
        names = ("Tesla K40", "GeForce GTX 1080 Ti", "A'100")
        self.devices = [dict(
            name=names[ch.draw(2)], major=ch.integer(3, 8),
            minor=ch.pick((0, 5)), total_global_mem=ch.pick((12, 4 << 30)),
            warp_size=32, max_threads_per_block=1024,
            max_thread_size=(1024, 1024, 64),
            max_grid_size=(2147483647, 65535, 65535),
            device_overlap=ch.flip(0.5), async_engines=2,
            multiprocessors=ch.integer(1, 80))
            for _ in range(ch.integer(1, 2) + (
                ch.integer(1, 3) if ch.flip(0.15) else 0))]

    def install(self):
        for path in (self.nvcc, self.decoy):
            os.makedirs(os.path.dirname(path))
            with open(path, "w") as f:
                f.write("#!/bin/false\n")
            os.chmod(path, 0o755)

    def info(self):
        return dict(cuda_version=self.version, devices=self.devices)

    def printed(self):
        """ what the C program in _get_cuda_info prints """
        out = ["{", "'cuda_version': %d," % self.version, "'devices': ["]
        for d in self.devices:
            out.append("{")
            for k, v in d.items():
                out.append("'%s' : %s," % (k, repr(v)))
            out.append("},")
        out += ["]", "}", ""]
        return "\n".join(out).encode()

    # -- the child processes ------------------------------------------------
    def run(self, cmd):
        """ (returncode, stdout, stderr) """
        ch, tr = self.ch, self.trace
        if isinstance(cmd, str):
            cmd = [cmd]
        how = "ok"
        if self.faulty:
            how = ch.weighted([("ok", 7), ("error", 2), ("killed", 1),
                               ("spawn", 1), ("host", 1), ("interrupt", 1),
                               ("garbage", 1)])
        if how != "ok":
            tr.fault("compiler " + how)
        if how == "spawn":
            raise OSError(12, "Cannot allocate memory")
        if how == "interrupt":
            raise Halt("interrupt")
        if how == "killed":
            return -9, b"", b""
        if os.path.basename(cmd[0]) == "test.out":
            self.trace.log("run test.out")
            if not os.path.exists(cmd[0]):
                raise FileNotFoundError(2, "No such file", cmd[0])
            if how == "error":
                return 1, b"", b"no device\n"
            if how == "garbage":
                return 0, b"", b""
            return 0, self.printed(), b""
        if cmd[0] != self.nvcc and not (
                self.wrapped and cmd[:2] == ["ccache", self.nvcc]):
            raise FileNotFoundError(2, "No such file or directory", cmd[0])
        if self.wrapped:
            cmd = cmd[1:]
        job = Job()
        job.cmd = list(cmd)
        job.how = how
        job.thread = th.active().me() if th.active() else None
        job.out = cmd[cmd.index("-o") + 1]
        srcs = [c for c in cmd[1:] if c.endswith(".cu")]
        dk._inside += 1
        try:
            with dk._real_open(srcs[0]) as f:
                job.source = f.read()
            job.ok = how in ("ok", "garbage")
            if job.ok:
                try:
                    with dk._real_open(job.out, "w") as f:
                        f.write("object of\n" + job.source)
                except OSError as e:
                    job.ok = False
                    self.jobs.append(job)
                    return 1, b"", str(e).encode()
        finally:
            dk._inside -= 1
        self.jobs.append(job)
        self.trace.log("nvcc", how, os.path.basename(srcs[0]))
        if how == "error":
            job.message = "kern.cu(%d): error: identifier \"x%d\" is " \
                "undefined\n" % (len(self.jobs), len(self.jobs))
            if ch.flip(0.3):
                job.message = job.message.strip()
            return 2, b"", job.message.encode()
        if how == "host":
            first = b"ERROR: No supported gcc/g++ host compiler found, but " \
                b"icc is available.\nbut icc is too old\n"
            return 1, b"", (ch.pick((b"nvcc warning\n", b"", first)) +
                            b"ERROR: No supported gcc/g++ host compiler "
                            b"found, but clang is available.\n"
                            b"  Use 'nvcc -ccbin clang-3.8' to use that "
                            b"instead." + (b"\n" if ch.flip(0.5) else b""))
        return 0, b"", b""


def fake_popen(tool, sim):
    class Popen(object):
        def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                     stdout=None, stderr=None, **kw):
            self.args = args
            self.pid = 1000
            self.returncode = None
            self.out = self.err = b""
            pause(sim)
            self.want = (stdout, stderr)
            # descriptors are inherited now, whatever happens to ours later
            self.fd2 = None
            if stderr is None:
                self.fd2 = _real_dup(sys.stderr.fileno())
            try:
                rc, o, e = tool.run(args if isinstance(args, str)
                                    else list(args))
                pause(sim)
            except BaseException:
                self._close()
                raise
            self.result = rc
            if stdout == subprocess.PIPE:
                self.out = o
            if stderr == subprocess.PIPE:
                self.err = e
            elif stderr == subprocess.STDOUT:
                self.out += e
            elif self.fd2 is not None:
                os.write(self.fd2, e)
            self._close()
            self.stdout = self.stderr = self.stdin = None

        def _close(self):
            if self.fd2 is not None:
                _real_close(self.fd2)
                self.fd2 = None

        def communicate(self, input=None, timeout=None):
            pause(sim)
            self.returncode = self.result
            return (self.out if self.want[0] is not None else None,
                    self.err if self.want[1] is not None else None)

        def wait(self, timeout=None):
            pause(sim)
            self.returncode = self.result
            return self.result

        def poll(self):
            self.returncode = self.result
            return self.result

        def kill(self):
            pass

        terminate = kill

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()
    return Popen


def pause(sim):
    if sim[0] is not None and sim[0].me() is not None:
        sim[0].yield_point()


def fds():
    dk._inside += 1
    try:
        return len(os.listdir("/proc/self/fd"))
    finally:
        dk._inside -= 1


def make_cupy(loaded, disk):
    cupy = types.ModuleType("cupy")
    cupy.__file__ = os.path.join(disk.base, "cupy", "__init__.py")
    cupy.__path__ = []

    class Module(object):
        def load_file(self, path):
            dk._inside += 1
            try:
                with dk._real_open(path) as f:
                    self.text = f.read()
            finally:
                dk._inside -= 1
            loaded.append(self)

    fn = types.SimpleNamespace(Module=Module)
    cupy.cuda = types.SimpleNamespace(function=fn)
    cupy.RawKernel = object
    return cupy


# ---------------------------------------------------------------------------
def run(ch, trace):
    drop_privileges()
    disk = Disk(ch, trace)
    cwd = os.getcwd()
    import distutils.dir_util
    distutils.dir_util._path_created.clear()
    work = os.path.join(disk.base, "cwd")
    os.mkdir(work)
    term = dk._real_open(os.path.join(disk.base, "terminal"), "w")
    saved = (sys.stderr, subprocess.Popen, os.dup, sys.modules.get("cupy"),
             sys.modules.get("pkg_resources"))
    import pkg_resources        # noqa: slow import, do it once
    try:
        os.chdir(work)
        sys.stderr = term
        scenario(ch, trace, disk, work, term)
        if disk.escaped:
            raise Violation("escaped", "%s" % (disk.escaped[0],), "escaped")
    finally:
        os.chdir(cwd)
        sys.stderr, subprocess.Popen, os.dup = saved[:3]
        if saved[3] is None:
            sys.modules.pop("cupy", None)
        else:
            sys.modules["cupy"] = saved[3]
        term.close()
        disk.destroy()


def scenario(ch, trace, disk, work, term):
    tool = Toolchain(ch, trace, disk)
    tool.install()
    loaded = []
    sys.modules["cupy"] = make_cupy(loaded, disk)
    env = dict(HOME=disk.home, TMPDIR=disk.tmp, CUDA_PATH=None, NVCC=None,
               PATH=os.path.join(disk.base, "nowhere"))
    where = ch.pick(("path", "path", "cuda_path", "nvcc", "both", "stale"))
    good, nowhere = os.path.dirname(tool.nvcc), env["PATH"]
    decoy = os.path.dirname(tool.decoy)
    if tool.wrapped:
        env["NVCC"] = "ccache '%s'" % tool.nvcc
    elif where == "nvcc":
        env["NVCC"] = tool.nvcc
    elif where == "cuda_path":
        env["CUDA_PATH"] = tool.cuda
    elif where == "both":
        # CUDA_PATH is preferred to what is found on the PATH
        env["CUDA_PATH"] = tool.cuda
        env["PATH"] = decoy
    elif where == "stale":
        env["CUDA_PATH"] = os.path.join(disk.base, "uninstalled")
        env["PATH"] = good
    if where == "path":
        env["PATH"] = os.pathsep.join(ch.pick((
            (good,), (nowhere, good), ("", good), (good, decoy),
            (nowhere, good, decoy))))
    tool.known = where != "nvcc" and not (tool.wrapped and where != "path")
    sim = [None]
    subprocess.Popen = fake_popen(tool, sim)
    inode = os.fstat(term.fileno()).st_ino
    nfd = fds()
    with disk, Boot(env):
        nv = importlib.import_module("africanus.util.nvcc")
        rounds = ch.integer(1, 3)
        good_info = [False]
        for r in range(rounds):
            last = r == rounds - 1
            tool.faulty = not last and ch.flip(0.7)
            if last or ch.flip(0.5):
                disk.calm()
            else:
                disk.arm({1 + ch.draw(14): "error"
                          for _ in range(ch.integer(1, 2))})
            dups = [ch.draw(3) + 1 if not last and ch.flip(0.1) else 0]

            def dup(fd):
                if dups[0]:
                    dups[0] -= 1
                    if not dups[0]:
                        trace.fault("too many open files")
                        disk.fired.append(("dup", "EMFILE"))
                        raise OSError(24, "Too many open files")
                return _real_dup(fd)
            os.dup = dup
            nthread = ch.pick((1, 1, 2, 3))
            plans = [[ch.pick(("info", "base", "compile", "compile",
                               "gencode", "version", "setting"))
                      for _ in range(ch.integer(1, 2))]
                     for _ in range(nthread)]
            sim[0] = s = Simulation(ch, trace, max_steps=60000,
                                    quantum=(1, 3, 9, 40))
            trace.log("round", r, plans, "faulty", tool.faulty)

            def worker(i):
                def body():
                    for j, what in enumerate(plans[i]):
                        action(ch, trace, disk, tool, nv, loaded, what,
                               (r, i, j), good_info, last)
                return body
            before = len(tool.jobs)
            ts = [s.spawn(worker(i), "caller%d" % i) for i in range(nthread)]
            s.run()
            sim[0] = None
            for t in ts:
                if isinstance(t.exc, Violation):
                    raise t.exc
                if t.exc is not None:
                    raise Violation("raised", "%s: %s" % (
                        type(t.exc).__name__, t.exc),
                        "raised:%s" % type(t.exc).__name__)
            if os.fstat(term.fileno()).st_ino != inode:
                raise Violation("stderr-lost", "standard error still goes "
                                "elsewhere after all calls returned",
                                "stderr-lost")
            if fds() != nfd:
                raise Violation("fd-leak", "%d file descriptors are open "
                                "after all calls returned, %d before" % (
                                    fds(), nfd), "fd-leak")
            if not any(k in ("remove", "rmdir", "scandir", "open-r")
                       for k, _ in disk.fired):
                dk._inside += 1
                try:
                    left = sorted(os.listdir(disk.tmp))
                    here = sorted(os.listdir(work))
                finally:
                    dk._inside -= 1
                if here:
                    raise Violation("left-behind", "%s were created in the "
                                    "current directory" % here,
                                    "left-behind-cwd")
                known = getattr(disk, "leftover", [])
                if [x for x in left if x not in known]:
                    raise Violation("left-behind", "temporary directories %s "
                                    "remain" % left, "left-behind")
            dk._inside += 1
            disk.leftover = os.listdir(disk.tmp)
            dk._inside -= 1


def action(ch, trace, disk, tool, nv, loaded, what, ident, good_info, last):
    source = "__global__ void kernel%d_%d_%d() {}\n" % ident
    n0 = len(tool.jobs)
    had = good_info[0]
    options = ch.pick((None, [], ["-lineinfo"], ["-I", "/x"]))
    keep = None if options is None else list(options)
    arch = ch.pick((None, None, 35))
    filename = ch.pick(("kern.cu", "kern.cu", "my kernel.cu"))
    formatted = ch.flip(0.5)
    old = tool.version < 8000 and what in ("version", "compile")
    try:
        if what == "info":
            got = nv.get_cuda_info()
        elif what == "gencode":
            got = nv.get_gencode_options()
        elif what == "base":
            got = nv.get_compiler_base_options()
        elif what == "version":
            got = nv.get_cuda_version(formatted=formatted)
        elif what == "setting":
            got = nv.get_compiler_setting()
        else:
            got = nv.compile_using_nvcc(source, options=options, arch=arch,
                                        filename=filename)
    except Halt:
        trace.log(what, "interrupted")
        return check_options(options, keep)
    except Exception as e:
        trace.log(what, "raised", type(e).__name__)
        check_options(options, keep)
        if old and isinstance(e, ValueError):
            return
        if last:
            raise Violation("no-recovery", "%s still fails after the faults "
                            "stopped: %s: %s" % (what, type(e).__name__, e),
                            "no-recovery:" + what)
        if isinstance(e, (NameError, AttributeError)) or (
                isinstance(e, TypeError)):
            raise Violation("raised", "%s raised %s: %s" % (
                what, type(e).__name__, e),
                "raised:%s:%s" % (what, type(e).__name__))
        mine = [j for j in tool.jobs[n0:] if j.thread is th.active().me()]
        if what == "base" and mine and mine[-1].how == "host" and \
                not disk.fired:
            raise Violation("base-options", "nvcc suggests a host compiler "
                            "but the suggestion is not used: %s" % e,
                            "base-options-missed")
        if what == "info" and had:
            raise Violation("probe-lost", "the device information was known "
                            "but is no longer returned", "probe-lost")
        if type(e).__name__ == "CompileError":
            mine = [j for j in tool.jobs if j.source == source]
            msg = getattr(mine[-1], "message", None) if mine else None
            if source.strip() not in str(e):
                raise Violation("message", "the compile error does not show "
                                "the source", "message-source")
            if msg and msg.strip() not in str(e):
                raise Violation("message", "the compile error does not show "
                                "the compiler's output %r" % msg, "message")
            others = [j.message for j in tool.jobs if j.source != source and
                      getattr(j, "message", None)]
            for o in others:
                if o.strip() in str(e):
                    raise Violation("message", "the compile error shows "
                                    "another compilation's output",
                                    "message-foreign")
        return
    trace.log(what, "ok")
    check_options(options, keep)
    if old:
        raise Violation("old", "%s accepted CUDA version %d" % (
            what, tool.version), "old")
    if what == "version":
        good_info[0] = True
        want = str(tool.version) if formatted else tool.version
        if got != want or type(got) is not type(want):
            raise Violation("version", "CUDA version %r instead of %r" % (
                got, want), "version")
        return
    if what == "setting":
        if tool.known:
            real = [os.path.normpath(p) for k in ("include_dirs",
                                                  "library_dirs")
                    for p in got[k]]
            for sub in ("include", "lib64"):
                if os.path.join(tool.cuda, sub) not in real:
                    raise Violation("setting", "%s of %s is not among %s" % (
                        sub, tool.cuda, real), "setting")
        if got["define_macros"]:
            raise Violation("setting", "macros %r" % got["define_macros"],
                            "setting")
        return
    if what == "info":
        good_info[0] = True
        if got != tool.info():
            raise Violation("wrong-info", "device information %r instead of "
                            "%r" % (got, tool.info()), "wrong-info")
        if had and any(j.out.endswith("test.out") and "cudaDeviceProp" in
                       j.source for j in tool.jobs[n0:]) and \
                th.active() is not None and len(th.active().threads) == 1:
            raise Violation("probed-again", "devices were probed again",
                            "probed-again")
        return
    if what == "gencode":
        good_info[0] = True
        want = ["--generate-code=arch=compute_%d,code=sm_%d" % (a, a)
                for a in (d["major"] * 10 + d["minor"]
                          for d in tool.devices)]
        if got != want:
            raise Violation("gencode", "%r instead of %r" % (got, want),
                            "gencode")
        return
    if what == "base":
        probes = [j.how for j in tool.jobs if j.source.startswith("int main")]
        want = [[] if h in ("ok", "garbage") else ["-ccbin", "clang-3.8"]
                for h in probes if h in ("ok", "garbage", "host")]
        if got not in want:
            raise Violation("base-options", "%r" % (got,), "base-options")
        return
    if got not in loaded or got.text != "object of\n" + source:
        raise Violation("wrong-module", "the loaded module is not the "
                        "compiled source", "wrong-module")
    job = [j for j in tool.jobs if j.source == source][-1]
    want = (keep or []) + ["-cubin"]
    cmd = job.cmd
    i = max(k for k, c in enumerate(cmd) if c == "-cubin") + 1
    if cmd[i - len(want):i] != want or cmd.count("-cubin") != 1:
        raise Violation("options", "the compiler was called with %r for "
                        "options %r" % (cmd, keep), "options")
    inc = [os.path.normpath(c[2:]) for c in cmd if c.startswith("-I")]
    wanted = [os.path.join(tool.disk.base, "cupy", "core", "include")]
    if tool.known:
        wanted.append(os.path.join(tool.cuda, "include"))
    for w in wanted:
        if w not in inc:
            raise Violation("options", "headers in %s cannot be included: %r"
                            % (w, cmd), "options-include")
    for d in tool.devices:
        a = d["major"] * 10 + d["minor"]
        flag = "--generate-code=arch=compute_%d,code=sm_%d" % (a, a)
        if flag not in cmd:
            raise Violation("options", "code for sm_%d was not requested" % a,
                            "options-arch")


def check_options(options, keep):
    if options is not None and options != keep:
        raise Violation("options-mutated", "the caller's options became %r"
                        % (options,), "options-mutated")
