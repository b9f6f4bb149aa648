"""
Simulated storage: a scratch directory in which every file operation of the
code under test is a scheduling and fault point.

Seams (installed once per session process, inert unless a Disk is active):
* an audit hook sees mkdir, rename, remove, rmdir, scandir, os.open, ... before
  they happen and may raise OSError or crash the simulated process;
* builtins.open/io.open below the scratch directory return buffered files on
  top of FaultyRaw (short reads and writes, torn writes, ENOSPC, EIO);
* directory listings come in a seeded order, temporary names are numbered;
* after a crash the disk is frozen: nothing the dying process still attempts
  (finally blocks, flushes of buffers) reaches it.

The same hook is the containment: an attempt to change anything outside the
scratch directory is refused and recorded.  In addition sessions that use a
Disk run as an unprivileged user.
"""
import builtins
import errno
import io
import os
import shutil
import sys
import tempfile

from sim import threads as th
from sim.core import HarnessError
from sim.threads import SimCrash

_active = None
_installed = False
_real_open = builtins.open
_real_scandir = os.scandir
_real_listdir = os.listdir
_inside = 0

MUTATING = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate",
            "os.link", "os.symlink", "os.chmod", "os.chown", "os.utime",
            "os.mkfifo", "os.mknod", "os.setxattr", "os.removexattr"}
READING = {"os.scandir", "os.listdir"}

NOBODY = 65534
SCRATCH = None


def scratch():
    """ directory of all scratch directories, owned by the main process """
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="verif-run-")
    os.chmod(SCRATCH, 0o1777)
    return SCRATCH


def drop_privileges():
    """ an escaped call can then reach nothing of the sandbox """
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setresgid(NOBODY, NOBODY, NOBODY)
            os.setresuid(NOBODY, NOBODY, NOBODY)
        except OSError:
            pass


def cleanup():
    if SCRATCH is not None:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _resolve(path, dir_fd):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if isinstance(path, int):
        try:
            return os.readlink("/proc/self/fd/%d" % path)
        except OSError:
            return None
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if isinstance(dir_fd, int) and dir_fd >= 0 and not os.path.isabs(path):
        try:
            path = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd),
                                path)
        except OSError:
            return None
    return os.path.abspath(path)


def _hook(event, args):
    global _inside
    d = _active
    if d is None or _inside:
        return
    if event == "open":
        path, mode, flags = args
        if path is None or isinstance(path, int):
            return
        _inside += 1
        try:
            p = _resolve(path, None)
        finally:
            _inside -= 1
        write = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT |
                                     os.O_TRUNC | os.O_APPEND))
        d.seen("open-w" if write else "open-r", p, write)
    elif event in MUTATING or event in READING:
        _inside += 1
        try:
            if event == "os.rename":
                p = [_resolve(args[0], args[2]), _resolve(args[1], args[3])]
            elif event in ("os.link",):
                p = [_resolve(args[0], args[2]), _resolve(args[1], args[3])]
            elif event == "os.symlink":
                p = [_resolve(args[1], args[2])]
            elif event in ("os.mkdir",):
                p = [_resolve(args[0], args[2])]
            elif event in ("os.remove", "os.rmdir"):
                p = [_resolve(args[0], args[1])]
            else:
                p = [_resolve(args[0] if args[0] is not None else ".", None)]
        finally:
            _inside -= 1
        d.seen(event[3:], p[0], event in MUTATING,
               p[1] if len(p) > 1 else None)


class FaultyRaw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk, self.path = disk, path
        self.name = path
        self.mode = mode + "b" if "b" not in mode else mode
        self.f = io.FileIO(path, mode.replace("b", "").replace("t", ""))

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def fileno(self):
        return self.f.fileno()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        self.disk.seen("truncate", self.path, True)
        return self.f.truncate(size)

    def readinto(self, b):
        n = self.disk.reading(self.path, len(b))
        view = memoryview(b)[:n]
        return self.f.readinto(view)

    def write(self, b):
        b = bytes(b)
        if self.disk.frozen:
            return len(b)
        n, exc = self.disk.writing(self.path, len(b))
        while n and self.f.write(b[:n]) != n:
            raise HarnessError("short write of the real file")
        if exc is not None:
            raise exc
        return n

    def close(self):
        if not self.closed:
            try:
                super(FaultyRaw, self).close()
            finally:
                self.f.close()


def _open(file, mode="r", buffering=-1, encoding=None, errors=None,
          newline=None, closefd=True, opener=None):
    global _inside
    d = _active
    if d is None or _inside or isinstance(file, int) or opener is not None:
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    path = _resolve(file, None)
    if not d.inside(path):
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    write = any(c in mode for c in "wax+")
    d.seen("open-w" if write else "open-r", path, write)
    _inside += 1
    try:
        raw = FaultyRaw(d, path, mode)
    finally:
        _inside -= 1
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else 8192
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif write:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
    text.mode = mode
    return text


class _Entries(object):
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(path="."):
    d = _active
    if d is None or _inside:
        return _real_scandir(path)
    with _real_scandir(path) as it:
        entries = sorted(it, key=lambda e: e.name)
    return _Entries([entries[i] for i in d.ch.perm(len(entries))])


def _listdir(path="."):
    d = _active
    if d is None or _inside:
        return _real_listdir(path)
    names = sorted(_real_listdir(path))
    return [names[i] for i in d.ch.perm(len(names))]


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.addaudithook(_hook)
    builtins.open = io.open = _open
    os.scandir, os.listdir = _scandir, _listdir
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "COPY_BUFSIZE"):
        shutil.COPY_BUFSIZE = 4096
    sys.unraisablehook = lambda *a: None


class Names(object):
    """ deterministic temporary names """

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "t%06d" % self.n


ERRORS = {
    "open-w": (errno.ENOSPC, errno.EIO, errno.EACCES),
    "open-r": (errno.EIO, errno.EACCES),
    "mkdir": (errno.ENOSPC, errno.EIO, errno.EACCES),
    "rename": (errno.EIO, errno.ENOSPC, errno.EACCES),
    "remove": (errno.EIO, errno.EACCES, errno.EBUSY),
    "rmdir": (errno.EIO, errno.ENOTEMPTY, errno.EBUSY),
    "scandir": (errno.EIO, errno.EACCES),
    "listdir": (errno.EIO, errno.EACCES),
    "read": (errno.EIO,),
    "write": (errno.ENOSPC, errno.EIO),
    "truncate": (errno.EIO,),
    "link": (errno.EIO,), "symlink": (errno.EIO,),
}
SPACE = ("open-w", "mkdir", "write", "rename")


class Disk(object):
    """ use as a context manager around the code under test """

    def __init__(self, ch, trace):
        self.ch, self.trace = ch, trace
        install()
        self.base = tempfile.mkdtemp(prefix="verif-disk-", dir=SCRATCH)
        os.chmod(self.base, 0o755)
        self.home = os.path.join(self.base, "home")
        self.tmp = os.path.join(self.base, "tmp")
        os.mkdir(self.home)
        os.mkdir(self.tmp)
        self.names = Names()
        self.cross_device = False
        self.frozen = False
        self.escaped = []
        self.calm()

    # -- faults ---------------------------------------------------------
    def calm(self):
        self.ops = 0
        self.plan = {}              # op number -> kind
        self.full_after = None
        self.short = False
        self.fired = []
        self.counts = {}

    def arm(self, plan, full_after=None, short=False):
        self.calm()
        self.plan = dict(plan)
        self.full_after = full_after
        self.short = short

    def inside(self, path):
        return path is not None and (path == self.base or
                                     path.startswith(self.base + os.sep))

    def _crash(self):
        self.frozen = True
        self.trace.fault("process crash", "op", self.ops)
        return SimCrash()

    def _fault(self, kind, path):
        """ None, an exception to raise, or "torn" """
        self.ops += 1
        self.counts[kind] = self.counts.get(kind, 0) + 1
        what = self.plan.get(self.ops)
        if self.full_after is not None and self.ops > self.full_after and \
                kind in SPACE:
            what = "full"
        if what is None:
            return None
        if what == "crash":
            self.fired.append((kind, "crash"))
            return self._crash()
        if what == "full":
            self.trace.fault("disk full", kind)
            self.fired.append((kind, "full"))
            return OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        codes = ERRORS.get(kind)
        if not codes:
            return None
        code = codes[self.ch.draw(len(codes))]
        self.trace.fault("I/O error %s" % errno.errorcode[code], kind)
        self.fired.append((kind, errno.errorcode[code]))
        return OSError(code, os.strerror(code), path)

    def seen(self, kind, path, mutating, other=None):
        """ the code under test is about to do this """
        for p in (path, other):
            if p is None:
                continue
            if mutating and not self.inside(p) and p != os.devnull:
                self.escaped.append((kind, p))
                raise OSError(errno.EACCES, "outside the scratch directory",
                              p)
        if not self.inside(path):
            return
        if self.frozen:
            if mutating:
                raise SimCrash()
            return
        sim = th.active()
        if sim is not None:
            sim.yield_point()
            if self.frozen:
                raise SimCrash()
        self.trace.step((kind, os.path.basename(path)))
        if kind == "rename" and self.cross_device and \
                self.inside(other) and \
                path.startswith(self.tmp) != other.startswith(self.tmp):
            self.trace.probe("cross-device renames")
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), path)
        exc = self._fault(kind, path)
        if exc is not None:
            raise exc

    def reading(self, path, n):
        if self.frozen:
            raise SimCrash()
        self.trace.step(("read", n))
        exc = self._fault("read", path)
        if exc is not None:
            raise exc
        if self.short and n > 1 and self.ch.flip(0.4):
            self.trace.fault("short read")
            n = 1 + self.ch.draw(min(n, 5000) - 1)
        return n

    def writing(self, path, n):
        """ (bytes that reach the file, exception afterwards) """
        sim = th.active()
        if sim is not None:
            sim.yield_point()
            if self.frozen:
                return 0, SimCrash()
        exc = self._fault("write", path)
        if exc is not None:
            return (self.ch.draw(n + 1) if n else 0), exc
        if self.short and n > 1 and self.ch.flip(0.2):
            self.trace.fault("short write")
            return 1 + self.ch.draw(n - 1), None
        return n, None

    # -- life cycle -----------------------------------------------------
    def __enter__(self):
        global _active
        self.saved = (tempfile.tempdir, tempfile._name_sequence)
        tempfile.tempdir = self.tmp
        tempfile._name_sequence = self.names
        self.frozen = False
        _active = self
        return self

    def __exit__(self, *a):
        global _active
        _active = None
        tempfile.tempdir, tempfile._name_sequence = self.saved

    def destroy(self):
        global _active
        _active = None
        shutil.rmtree(self.base, ignore_errors=True)

    def tree(self, path):
        """ {relative name: content or None for a directory} """
        global _inside
        out = {}
        _inside += 1
        try:
            for dp, dn, fn in os.walk(path):
                for d in dn:
                    out[os.path.relpath(os.path.join(dp, d), path)] = None
                for f in fn:
                    with _real_open(os.path.join(dp, f), "rb") as g:
                        out[os.path.relpath(os.path.join(dp, f),
                                            path)] = g.read()
        finally:
            _inside -= 1
        return out
