"""
Pre-emption and fault-injection points through sys.monitoring (PEP 669).

LINE (and, on demand, INSTRUCTION) events are enabled once for every code
object whose file lies under a scope prefix; a per-thread handler decides what
happens there.  Handlers may block (simulated thread switch) or raise (injected
fault).  Unlike sys.settrace nothing is re-instrumented while a frame is
suspended (which crashes CPython 3.12 with several threads).
"""
import dis
import gc
import sys
import types
import _thread

M = sys.monitoring
TOOL = 4
_get_ident = _thread.get_ident

handlers = {}           # thread ident -> callable(code, where)
grace = {}              # thread ident -> lines without injected exceptions
_codes = {}             # id -> code
_mode = "off"
_prefixes = ()
_registered = False


def _line(code, line):
    h = handlers.get(_get_ident())
    if h is not None:
        h(code, line)


def _instr(code, offset):
    h = handlers.get(_get_ident())
    if h is not None:
        h(code, -offset - 1)


def _walk(code):
    if id(code) in _codes or not code.co_filename.startswith(_prefixes):
        return
    _codes[id(code)] = code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c)


def collect(prefixes):
    """ (re)discover code objects below prefixes """
    global _prefixes, _registered
    _prefixes = tuple(sorted(set(_prefixes) | set(prefixes)))
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            _walk(o.__code__)
    if not _registered:
        M.use_tool_id(TOOL, "verif-sim")
        M.register_callback(TOOL, M.events.LINE, _line)
        M.register_callback(TOOL, M.events.INSTRUCTION, _instr)
        _registered = True
    mode = _mode
    _apply("off")
    _apply(mode)
    return len(_codes)


def _apply(mode):
    global _mode
    ev = {"off": 0, "line": M.events.LINE,
          "op": M.events.LINE | M.events.INSTRUCTION}[mode]
    for c in _codes.values():
        M.set_local_events(TOOL, c, ev)
    _mode = mode


def want(mode):
    """ only called while no simulated thread is inside the scope """
    if mode != _mode and _registered:
        _apply(mode)


_unsafe = {}


def unsafe(code):
    """ lines and (negated) offsets at which CPython raises nothing by itself
    but which, if it did, no program could defend against: the way out of a
    with block and the call that releases a lock """
    u = _unsafe.get(code)
    if u is None:
        lines, where = set(), []
        line = None
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                line = ins.starts_line
            where.append((ins.offset, line))
            if ins.opname in ("BEFORE_WITH", "WITH_EXCEPT_START") or \
                    ins.argval in ("release", "__exit__"):
                lines.add(line)
        u = _unsafe[code] = lines | {-off - 1 for off, ln in where
                                     if ln in lines}
    return u


def may_inject(code, where):
    """ not directly after a lock was taken (see threads.GRACE) nor where it
    is released """
    ident = _get_ident()
    n = grace.get(ident, 0)
    if n and where >= 0:
        grace[ident] = n - 1
    return not n and where not in unsafe(code)
