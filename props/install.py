"""
P20: cub_dir()/trove_dir() through crashes, I/O errors and bad downloads.
P21: sha_hash_file on an unreliable disk.
"""
import hashlib
import http.client
import importlib
import io
import os
import re
import urllib.error
import urllib.request
import zipfile
import zlib

from sim import threads as th
from sim.boot import Boot
from sim.core import Violation
from sim.disk import Disk, drop_privileges, ERRORS, Names
from sim.threads import SimCrash, Simulation

VERSION = "Current release: v1.8.0 (02/16/2018)"

FILES = {
    "cub": {
        "README.md": ("# CUB\n\n" + "text\n" * 30 + VERSION + "\n" +
                      "more text\n" * 10).encode(),
        "LICENSE.TXT": b"license\n" * 20,
        "cub/cub.cuh": b'#pragma once\n#include "util.cuh"\n',
        "cub/util.cuh": b"// utilities\n" * 700,
        "cub/block/block_load.cuh": b"// block load\n" * 40,
        "cub/block/specializations/x.cuh": b"",
        "examples/Makefile": b"all:\n",
    },
    "trove": {
        "README.md": b"Trove\n" * 5,
        "LICENSE": b"license\n" * 3,
        "trove/trove.cuh": b"// trove\n",
        "trove/ptr.h": b"// ptr\n" * 1500,
        "tests/t.cu": b"",
    },
}
OFFICIAL = {"cub": "836f523a34c32a7e99fba36b30abfe7a68d41d4b",
            "trove": "183c9ce229b3c0b2afeb808a9f4b07c9d9b9035d"}
TOP = {"cub": "cub-1.8.0", "trove": "trove-master"}
URL = {"cub": "https://github.com/NVlabs/cub/archive/1.8.0.zip",
       "trove": "https://github.com/bryancatanzaro/trove/archive/master.zip"}
ARCHIVE = {"cub": "cub-1.8.0.zip", "trove": "trove-master.zip"}
ALLOWED = (OSError, http.client.HTTPException, zipfile.BadZipFile, EOFError,
           zlib.error)


def make_archive(what, altered=False):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        for name in sorted(FILES[what]):
            info = zipfile.ZipInfo(TOP[what] + "/" + name,
                                   (2018, 2, 16, 0, 0, 0))
            info.compress_type = zipfile.ZIP_DEFLATED
            info.external_attr = 0o644 << 16
            data = FILES[what][name]
            if altered and name != "README.md":
                data = data + b"// released again\n"
            z.writestr(info, data)
    return buf.getvalue()


BLOB = {w: make_archive(w) for w in FILES}
# a well-formed archive of the same layout that is not the official one
OTHER = {w: make_archive(w, True) for w in FILES}
_real_sha1 = hashlib.sha1
_real_new = hashlib.new
REAL = {w: _real_sha1(BLOB[w]).hexdigest() for w in BLOB}
_MAP = {REAL[w]: OFFICIAL[w] for w in BLOB}


class Sha1(object):
    """ SHA1 in a world where our archives are the official ones """
    name, digest_size, block_size = "sha1", 20, 64

    def __init__(self, data=b"", **kw):
        self.h = _real_sha1(data)

    def update(self, data):
        self.h.update(data)

    def copy(self):
        c = Sha1()
        c.h = self.h.copy()
        return c

    def hexdigest(self):
        d = self.h.hexdigest()
        return _MAP.get(d, d)

    def digest(self):
        return bytes.fromhex(self.hexdigest())


def _new(name, data=b"", **kw):
    return Sha1(data) if name.lower() in ("sha1", "sha-1") else \
        _real_new(name, data, **kw)


def expected_tree(what):
    out = {}
    for name, data in FILES[what].items():
        parts = name.split("/")
        for i in range(1, len(parts)):
            out["/".join(parts[:i])] = None
        out[name] = data
    return out


class Response(io.RawIOBase):
    """ one HTTP response """
    status = code = 200
    headers = {}

    def __init__(self, ch, trace, data, cut=None, reset=False, slow=False):
        self.ch, self.trace = ch, trace
        self.data, self.pos = data, 0
        self.cut, self.reset, self.slow = cut, reset, slow

    def readable(self):
        return True

    def getcode(self):
        return 200

    def info(self):
        return {}

    def geturl(self):
        return ""

    def readinto(self, b):
        sim = th.active()
        if sim is not None:
            sim.yield_point()
            if self.slow:
                self.trace.fault("network stall")
                sim.sleep(30.0)
        end = len(self.data) if self.cut is None else self.cut
        n = min(len(b), end - self.pos)
        if n <= 0:
            if self.reset and self.cut is not None:
                self.trace.fault("connection reset")
                raise ConnectionResetError(104, "Connection reset by peer")
            return 0
        if n > 1 and self.ch.flip(0.5):
            n = 1 + self.ch.draw(min(n, 3000) - 1)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Network(object):
    def __init__(self, ch, trace, disk):
        self.ch, self.trace, self.disk = ch, trace, disk
        self.requests = []
        self.faulty = False

    def urlopen(self, url, *a, **kw):
        url = getattr(url, "full_url", url)
        sim = th.active()
        if sim is not None:
            sim.yield_point()
        if self.disk.frozen:
            raise SimCrash()
        what = [w for w in URL if URL[w] == url]
        if not what:
            raise urllib.error.URLError("no route to %s" % url)
        what = what[0]
        self.requests.append(what)
        self.trace.log("download", what)
        data = BLOB[what]
        how = "ok"
        if self.faulty:
            how = self.ch.weighted([
                ("ok", 6), ("urlerror", 1), ("httperror", 1), ("truncated", 2),
                ("reset", 2), ("corrupt", 2), ("html", 1), ("empty", 1),
                ("slow", 1), ("other archive", 2)])
        ch, tr = self.ch, self.trace
        if how != "ok":
            tr.fault("network " + how, what)
        if how == "urlerror":
            raise urllib.error.URLError("Name or service not known")
        if how == "httperror":
            raise urllib.error.HTTPError(url, 503, "unavailable", {}, None)
        if how == "truncated":
            return wrap(Response(ch, tr, data, cut=ch.draw(len(data))))
        if how == "reset":
            return wrap(Response(ch, tr, data, cut=ch.draw(len(data)),
                                 reset=True))
        if how == "corrupt":
            i = ch.draw(len(data))
            data = data[:i] + bytes([data[i] ^ 0x41]) + data[i + 1:]
        if how == "other archive":
            data = OTHER[what]
        if how == "html":
            data = b"<html>captive portal</html>"
        if how == "empty":
            data = b""
        return wrap(Response(ch, tr, data, slow=how == "slow"))


class wrap(io.BufferedReader):
    status = code = 200

    def __init__(self, raw):
        super(wrap, self).__init__(raw, 2048)
        self.headers = {}

    def getcode(self):
        return 200

    def info(self):
        return {}

    def getheader(self, name, default=None):
        return default


class Patched(object):
    def __init__(self, net):
        self.net = net

    def __enter__(self):
        self.saved = (urllib.request.urlopen, hashlib.sha1, hashlib.new)
        urllib.request.urlopen = self.net.urlopen
        hashlib.sha1, hashlib.new = Sha1, _new

    def __exit__(self, *a):
        (urllib.request.urlopen, hashlib.sha1, hashlib.new) = self.saved


class ProcessCrash(Exception):
    pass


# ---------------------------------------------------------------------------
def run(ch, trace):
    drop_privileges()
    disk = Disk(ch, trace)
    try:
        history(ch, trace, disk)
        if disk.escaped:
            raise Violation("escaped", "the installer touched %s outside the "
                            "user's data and temporary directories"
                            % (disk.escaped[0],), "escaped")
    finally:
        disk.destroy()


def history(ch, trace, disk):
    net = Network(ch, trace, disk)
    whats = ch.pick((["cub"], ["cub"], ["trove"], ["trove"],
                     ["cub", "trove"]))
    disk.cross_device = ch.flip(0.6)
    # what earlier versions or the user left behind
    pre = ch.weighted([("nothing", 6), ("stale", 2), ("half", 2),
                       ("archive", 1), ("bad archive", 2), ("old", 1),
                       ("other archive", 2)])
    env = dict(HOME=disk.home, XDG_DATA_HOME=os.path.join(
        disk.home, ".local", "share"), TMPDIR=disk.tmp)
    trace.log("install", whats, "before", pre, "cross", disk.cross_device)
    prepare(disk, env, whats, pre)
    nboot = ch.integer(1, 4)
    for b in range(nboot):
        last = b == nboot - 1
        one_boot(ch, trace, disk, net, env, whats, last)


def dirs(env, disk):
    """ the directories the library would use """
    with Boot(env):
        m = importlib.import_module("africanus.util.appdirs")
        return m.downloads_dir, m.include_dir


def prepare(disk, env, whats, pre):
    downloads, include = dirs(env, disk)
    disk.downloads, disk.include = downloads, include
    for d in (downloads, include):
        if not disk.inside(os.path.abspath(d)):
            raise Violation("escaped", "data directory %s does not follow "
                            "the user's environment" % d, "escaped-appdirs")
    if pre == "nothing":
        return
    for w in whats:
        tree = FILES[w]
        root = os.path.join(include, w)
        if pre in ("archive", "bad archive", "other archive"):
            os.makedirs(downloads, exist_ok=True)
            data = BLOB[w]
            if pre == "bad archive":
                data = data[:len(data) // 2]
            elif pre == "other archive":
                data = OTHER[w]
            with open(os.path.join(downloads, ARCHIVE[w]), "wb") as f:
                f.write(data)
            continue
        os.makedirs(root, exist_ok=True)
        if pre == "stale":
            with open(os.path.join(root, "stale.h"), "w") as f:
                f.write("left over")
        elif pre == "half":
            for n in sorted(tree):
                if n == "README.md":
                    continue
                p = os.path.join(root, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(tree[n][:10])
        elif pre == "old" and w == "cub":
            for n in sorted(tree):
                p = os.path.join(root, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(tree[n].replace(b"v1.8.0", b"v1.7.4"))
            with open(os.path.join(root, "gone_in_1.8.0.cuh"), "wb") as f:
                f.write(b"old")


def valid_archive(disk, w):
    try:
        with open(os.path.join(disk.downloads, ARCHIVE[w]), "rb") as f:
            return f.read() == BLOB[w]
    except OSError:
        return False


def complete(disk, w):
    return disk.tree(os.path.join(disk.include, w)) == expected_tree(w)


def plan_faults(ch, trace):
    kind = ch.weighted([("one", 4), ("crash", 5), ("several", 2),
                        ("full", 2), ("none", 2)])
    n = 90
    short = ch.flip(0.3)
    if kind == "one":
        return dict(plan={1 + ch.draw(n): "error"}, short=short)
    if kind == "crash":
        return dict(plan={1 + ch.draw(n): "crash"}, short=short)
    if kind == "several":
        return dict(plan={1 + ch.draw(n): ch.pick(("error", "error", "crash"))
                          for _ in range(ch.integer(2, 6))}, short=short)
    if kind == "full":
        return dict(plan={}, full_after=ch.draw(n), short=short)
    return dict(plan={}, short=short)


def one_boot(ch, trace, disk, net, env, whats, last):
    net.requests = []
    net.faulty = not last and ch.flip(0.4)
    had_archive = {w: valid_archive(disk, w) for w in whats}
    was_complete = {w: complete(disk, w) for w in whats}
    if last:
        disk.calm()
    else:
        disk.arm(**plan_faults(ch, trace))
    nthread = ch.pick((1, 1, 2, 3))
    attempts = 1 if last else ch.integer(1, 3)
    trace.log("boot", "last" if last else "", nthread, attempts)
    outcomes = []
    crashed = False
    with disk, Patched(net), Boot(env):
        try:
            mods = {w: importlib.import_module("africanus.util." + w)
                    for w in whats}
        except SimCrash:
            trace.log("crashed while importing")
            return
        except OSError as e:
            if last:
                raise Violation("import-failed", str(e), "import-failed")
            trace.log("import failed", type(e).__name__)
            return
        sim = Simulation(ch, trace, max_steps=100000,
                         quantum=(1, 3, 9, 40))
        order = [[ch.pick(whats) for _ in range(attempts)]
                 if not last else [whats[i] for i in ch.perm(len(whats))]
                 for _ in range(nthread)]

        def worker(i):
            def body():
                for w in order[i]:
                    fn = getattr(mods[w], w + "_dir")
                    try:
                        d = fn()
                    except Exception as e:
                        outcomes.append((w, e))
                        trace.log("raised", i, w, type(e).__name__)
                        continue
                    trace.log("returned", i, w)
                    check_return(disk, w, d)
                    outcomes.append((w, None))
            return body
        ts = [sim.spawn(worker(i), "proc%d" % i) for i in range(nthread)]
        kill_at = ch.draw(400) if not last and ch.flip(0.15) else None

        def watch(ready):
            if disk.frozen:
                raise ProcessCrash()
            if kill_at is not None and sim.steps >= kill_at:
                disk.frozen = True
                trace.fault("process crash", "step", kill_at)
                raise ProcessCrash()
        sim.pre_step = watch
        try:
            sim.run()
        except ProcessCrash:
            crashed = True
        crashed = crashed or disk.frozen
        trace.sim_time += sim.now
        for t in ts:
            if isinstance(t.exc, Violation):
                raise t.exc
    if disk.frozen:
        trace.log("crashed")
    for w, e in outcomes:
        if e is not None:
            judge(w, mods[w], e)
    for w in whats:
        n = net.requests.count(w)
        failures = sum(1 for x, e in outcomes if x == w and e is not None)
        if was_complete[w] and n:
            raise Violation("downloaded-again", "%s was downloaded although "
                            "it is installed" % w, "downloaded-again:" + w)
        if had_archive[w] and n and not disk.fired and not disk.full_after:
            raise Violation("downloaded-again", "%s was downloaded although "
                            "a correct archive is there" % w,
                            "archive-ignored:" + w)
        if not crashed and n > failures + 1:
            raise Violation("downloaded-again", "%d downloads of %s in one "
                            "process with %d failed calls" % (n, w, failures),
                            "downloads:" + w)
    if last:
        bad = [(w, e) for w, e in outcomes if e is not None]
        if bad or len(outcomes) != sum(len(o) for o in order):
            w, e = (bad or [(whats[0], None)])[0]
            raise Violation(
                "no-recovery", "after the faults stopped, installing %s in a "
                "new process fails: %s: %s" % (w, type(e).__name__, e),
                "no-recovery:" + w)
    if not crashed and not any(k in ("remove", "rmdir", "scandir", "open-r",
                                     "listdir") for k, _ in disk.fired):
        extra = os.listdir(disk.tmp)
        if os.path.isdir(disk.include):
            known = set(disk.leftover) if hasattr(disk, "leftover") else set()
            extra += [x for x in os.listdir(disk.include)
                      if x not in ("cub", "trove") and x not in known]
        known = getattr(disk, "leftover", set())
        extra = [x for x in extra if x not in known]
        if extra:
            raise Violation(
                "left-behind", "temporary files %s remain although nothing "
                "prevented their removal" % sorted(extra), "left-behind")
    # what an earlier crash left is nobody's fault
    left = set(os.listdir(disk.tmp))
    if os.path.isdir(disk.include):
        left |= set(os.listdir(disk.include)) - {"cub", "trove"}
    disk.leftover = left


def check_return(disk, w, d):
    if os.path.abspath(d) != os.path.join(disk.include, w):
        raise Violation("wrong-dir", "%s_dir() returned %s" % (w, d),
                        "wrong-dir:" + w)
    tree, want = disk.tree(d), expected_tree(w)
    if tree == want:
        return
    missing = sorted(set(want) - set(tree))
    extra = sorted(set(tree) - set(want))
    differ = sorted(k for k in want if k in tree and want[k] != tree[k])
    raise Violation(
        "incomplete", "%s_dir() returned but the installed tree is not the "
        "archive's: missing %s, extra %s, different %s" % (
            w, missing[:4], extra[:4], differ[:4]), "incomplete:" + w)


def judge(w, mod, e):
    own = getattr(mod, "Install%sException" % w.capitalize())
    if not isinstance(e, ALLOWED + (own,)):
        raise Violation("raised", "%s_dir() raised %s: %s" % (
            w, type(e).__name__, e), "raised:%s:%s" % (w, type(e).__name__))
    m = re.search(r"is ([0-9a-f]{40}) and does not match the expected\s+hash "
                  r"of ([0-9a-f]{40})", str(e))
    if m and (m.group(2) != OFFICIAL[w] or m.group(1) == OFFICIAL[w]):
        raise Violation("message", "the error names %s as the downloaded and "
                        "%s as the expected hash" % m.groups(),
                        "message:" + w)


# ---------------------------------------------------------------------------
def hashing(ch, trace):
    drop_privileges()
    disk = Disk(ch, trace)
    try:
        size = ch.pick((0, 1, 63, 64, 4095, 8191, 8192, 8193, 65536, 1048575,
                        1048576, 1048577, 2097152, 3000001, 100, 9000))
        rng = ch.nprng()
        data = rng.bytes(size)
        if size and ch.flip(0.2):
            data = b"\n" * size if ch.flip(0.5) else b"\r\n\x1a\0" * (size // 4)
        path = os.path.join(disk.home, ch.pick(("f", "with space", "\u00fc")))
        with open(path, "wb") as f:
            f.write(data)
        want = _real_sha1(data).hexdigest()
        trace.log("hash", len(data))
        with disk, Boot({}):
            fn = importlib.import_module("africanus.util.files").sha_hash_file
            for attempt in range(ch.integer(1, 3)):
                plan = {}
                if ch.flip(0.6):
                    plan = {1 + ch.draw(6): "error"}
                disk.arm(plan, short=size < 20000 and ch.flip(0.5))
                try:
                    got = fn(path)
                except OSError as e:
                    if not disk.fired:
                        raise Violation("raised", "hashing raised %s" % e,
                                        "raised")
                    trace.log("raised")
                    continue
                if disk.fired:
                    raise Violation(
                        "error-ignored", "an I/O error was ignored and a "
                        "digest returned", "error-ignored")
                if got != want:
                    raise Violation(
                        "digest", "sha_hash_file of %d bytes gave %r instead "
                        "of %s" % (len(data), got, want), "digest")
            missing = os.path.join(disk.home, "missing")
            try:
                fn(missing)
            except OSError:
                pass
            else:
                raise Violation("missing", "a missing file has a digest",
                                "missing")
    finally:
        disk.destroy()
