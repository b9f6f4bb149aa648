"""
P25: wsclean component lists are loaded whole or refused.

Real parser on a simulated disk (short and failing reads, failing opens) or on
an iterable that fails half way.
"""
import math
import os

import numpy as np

from props.sync import Boom
from sim.core import Violation
from sim.disk import Disk, drop_privileges

REFUSED = (ValueError, SyntaxError)


def _sexa(ch, rs, sep):
    """ (text, sign * (a, m, s)) """
    sign = ch.pick(("", "-", "+"))
    a, m = rs.randint(0, 24 if sep == ":" else 90), rs.randint(0, 60)
    if ch.flip(0.15):
        a = 0
    s = ch.pick(("%02d" % rs.randint(0, 60), "%.3f" % (rs.rand() * 59),
                 "%09.6f" % (rs.rand() * 59)))
    text = ch.pick(("%s%02d%s%02d%s%s", "%s%02d%s%02d%s%s", "%s%d%s%d%s%s")
                   ) % (sign, a, sep, m, sep, s)
    return text, (-1.0 if sign == "-" else 1.0) * (
        a + m / 60.0 + float(s) / 3600.0)


def value(ch, rs, name):
    """ (text, value) """
    if name == "Name":
        t = ch.pick(("s0c%d" % rs.randint(99), "source one", "3C286", "s-1",
                     "s#%d" % rs.randint(9), "a=b", "J0408-6545: core"))
        return t, t
    if name == "Type":
        t = ch.pick(("POINT", "GAUSSIAN"))
        return t, t
    if name == "Ra":
        t, v = _sexa(ch, rs, ":")
        return t, v * math.pi / 12.0
    if name == "Dec":
        t, v = _sexa(ch, rs, ".")
        return t, v * math.pi / 180.0
    if name == "SpectralIndex":
        v = [float("%.6f" % (rs.rand() - 0.5))
             for _ in range(ch.pick((2, 1, 3, 0)))]
        return "[" + ch.pick((",", ", ")).join(repr(x) for x in v) + "]", v
    if name == "LogarithmicSI":
        v = ch.flip(0.5)
        return ("true" if v else "false"), v
    x = float("%.9g" % ((rs.rand() - 0.3) * 10 ** rs.randint(-3, 4)))
    t = ch.pick((repr(x), "%.15e" % x, "%g" % x, "%d" % int(x)))
    x = float(t)
    if name == "MajorAxis" or name == "MinorAxis":
        return t, math.radians(x / 3600.0)
    if name == "Orientation":
        return t, math.radians(x)
    return t, x


COLUMNS = ["Name", "Type", "Ra", "Dec", "I", "SpectralIndex", "LogarithmicSI",
           "ReferenceFrequency", "MajorAxis", "MinorAxis", "Orientation"]
BLANK = dict(Name="", Type="", I=0.0, ReferenceFrequency=0.0, MajorAxis=0.0,
             MinorAxis=0.0, Orientation=0.0)
BROKEN = dict(Ra=("12h30m", "12:30", "12:30:45.5x", "1:2:3e-05", "a:b:c"),
              Dec=("x", "-12.30", "12.30.45.5.1", "12.30.45d", "12:30:45"),
              I=("bright", "1.0.0", "1 2"),
              SpectralIndex=("[0.1,", "[0.1 0.2]", "[x]"),
              LogarithmicSI=("True", "maybe", "1"),
              ReferenceFrequency=("1.4GHz",), MajorAxis=("5'",),
              MinorAxis=("x",), Orientation=("north",))


def model(ch):
    """ (lines, expected columns or None if it must be refused) """
    rs = ch.nprng()
    cols = list(COLUMNS)
    if ch.flip(0.4):
        cols = [COLUMNS[i] for i in ch.perm(len(COLUMNS))]
        cols = cols[:ch.integer(1, len(cols))]
    defaults = {}
    head = []
    for c in cols:
        # no commas: header fields are separated by them
        d = None
        if c not in ("Name", "SpectralIndex") and ch.flip(0.2):
            d = value(ch, rs, c)
        elif c == "SpectralIndex" and ch.flip(0.2):
            d = ("[]", [])
        if d is not None:
            defaults[c] = d
            head.append("%s=%s'%s'" % (c, ch.pick(("", " ")), d[0]))
        else:
            head.append(c)
    lines = [ch.pick(("", "# made by hand", "   ", "#"))
             for _ in range(ch.draw(3))]
    lines.append("Format = " + ch.pick((", ", ",", " , ")).join(head) +
                 (" # columns" if ch.flip(0.1) else ""))
    n = ch.pick((3, 1, 0, 12, 200)) if ch.flip(0.5) else ch.integer(1, 6)
    want = {c: [] for c in cols}
    bad = None
    if n and ch.flip(0.2):
        bad = ch.draw(n)
    for i in range(n):
        row = []
        for c in cols:
            t, v = value(ch, rs, c)
            if ch.flip(0.1):
                if c in defaults:
                    t, v = "", defaults[c][1]
                elif c in BLANK and not (len(cols) == 1):
                    t, v = "", BLANK[c]
            row.append(t)
            want[c].append(v)
        if i == bad:
            kinds = ["short"] if len(cols) > 1 else []
            kinds += ["long"]
            kinds += [c for c in cols if c in BROKEN]
            kinds += ["empty " + c for c in cols
                      if c not in BLANK and c not in defaults]
            k = ch.pick(kinds)
            if k == "short":
                row.pop(ch.draw(len(row)))
            elif k == "long":
                row.append("1")
            elif k.startswith("empty "):
                row[cols.index(k[6:])] = ""
            else:
                row[cols.index(k)] = ch.pick(BROKEN[k])
        sep = ch.pick((",", ", "))
        lines.append(ch.pick(("", "  ")) + sep.join(row))
    if n and bad is None and ch.flip(0.06):
        # a long list: the same components again and again
        k = ch.integer(2, 6000 // n)
        lines += lines[-n:] * (k - 1)
        want = {c: v * k for c, v in want.items()}
    refuse = bad is not None
    if ch.flip(0.06):
        refuse = True
        k = ch.draw(3)
        h = [i for i, x in enumerate(lines) if x.startswith("Format")][0]
        if k == 0:
            lines[h] = lines[h].replace("Format", "Fromat", 1)
        elif k == 1:
            lines[h] = lines[h].replace(cols[0], "Brightness", 1)
        else:
            lines = ["# nothing", ""]
    return lines, None if refuse else [(c, want[c]) for c in cols]


def same(a, b):
    if isinstance(b, bool) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    return isinstance(a, (float, np.floating)) and \
        abs(a - b) <= 1e-12 * max(1.0, abs(b))


def compare(got, want, again):
    try:
        cols = [(n, list(v)) for n, v in got]
    except (TypeError, ValueError) as e:
        raise Violation("result", "load returned %r (%s)" % (got, e),
                        "result")
    if [c for c, _ in cols] != [c for c, _ in want]:
        raise Violation(
            "columns", "%s reading: columns %r instead of %r" % (
                again, [c for c, _ in cols], [c for c, _ in want]), "columns")
    for (c, v), (_, w) in zip(cols, want):
        if len(v) != len(w):
            raise Violation("rows", "column %s has %d of %d components" % (
                c, len(v), len(w)), "rows")
        for i, (x, y) in enumerate(zip(v, w)):
            if not same(x, y):
                raise Violation("value", "component %d has %s %r instead of "
                                "%r" % (i, c, x, y), "value:%s" % c)


def fds():
    return len(os.listdir("/proc/self/fd"))


def feed(lines, fail):
    for i, x in enumerate(lines):
        if i == fail:
            raise Boom("the stream broke")
        yield x + "\n"


def run(ch, trace):
    from africanus.model.wsclean import load
    drop_privileges()
    disk = Disk(ch, trace)
    try:
        for _ in range(ch.integer(1, 3)):
            lines, want = model(ch)
            text = "\n".join(lines) + "\n"
            if ch.flip(0.2) and lines[-1].strip() and \
                    not text.endswith(",\n"):
                text = text[:-1]
            how = ch.weighted([("file", 6), ("lines", 1), ("stream", 2),
                               ("handle", 1)])
            path = os.path.join(disk.home, ch.pick(("m.txt", "a model",
                                                    "\u00fc.txt")))
            newline = ch.pick(("\n", "\n", "\r\n"))
            with open(path, "wb") as f:
                f.write(text.replace("\n", newline).encode("utf-8"))
            trace.log("load", how, len(lines), "refuse" if want is None
                      else "ok")
            trace.step(how + str(len(lines)))
            plan, fail = {}, None
            if ch.flip(0.4):
                plan = {1 + ch.draw(4): "error"}
                fail = ch.draw(len(lines) + 1)
            handle = None
            n0 = fds()
            exc = got = None
            with disk:
                disk.arm(plan if how == "file" else {},
                         short=len(text) < 4000 and ch.flip(0.5))
                try:
                    if how == "file":
                        got = load(path)
                    elif how == "lines":
                        got = load(text.splitlines())
                    elif how == "stream":
                        got = load(feed(lines, fail))
                    else:
                        handle = open(path)
                        got = load(handle)
                except Exception as e:      # keeps its frames alive
                    exc = e
                trace.step(str(disk.ops))
                fired = list(disk.fired)
                disk.calm()
            if how == "handle":
                if handle.closed:
                    raise Violation("closed", "the caller's file was closed",
                                    "closed")
                handle.close()
            if fds() != n0:
                raise Violation("leak", "load left the file open", "leak")
            if how == "stream" and fail is not None and fail < len(lines):
                if exc is None:
                    raise Violation(
                        "partial", "a stream that broke after %d of %d lines "
                        "gave a model" % (fail, len(lines)), "partial")
                if not isinstance(exc, (Boom,) + REFUSED):
                    raise Violation("raised", "%r" % exc, "raised")
                trace.fault("stream broke")
                continue
            if fired:
                if exc is None:
                    raise Violation("partial", "reading failed (%s) and a "
                                    "model was returned" % fired, "partial")
                if not isinstance(exc, (OSError,) + REFUSED):
                    raise Violation("raised", "%r" % exc, "raised")
                continue
            if want is None:
                if exc is None:
                    raise Violation("accepted", "a malformed model was "
                                    "accepted", "accepted")
                if not isinstance(exc, REFUSED):
                    raise Violation("raised", "%r" % exc, "raised")
                continue
            if exc is not None:
                raise Violation("raised", "loading a well-formed model raised "
                                "%s: %s" % (type(exc).__name__, exc),
                                "raised")
            compare(got, want, "first")
            compare(got, want, "second")
        missing = os.path.join(disk.home, "missing")
        try:
            load(missing)
        except OSError:
            pass
        else:
            raise Violation("missing", "a missing file was loaded", "missing")
    finally:
        disk.destroy()
