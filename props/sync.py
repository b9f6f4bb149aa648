"""
Thread-level properties of africanus.util: memoization (P17), singletons
(P18), optional requirements (P19).
"""
import importlib.abc
import importlib.machinery
import sys
import types

from sim import threads as th
from sim.core import Violation
from sim.threads import Simulation

QUANTUM = (1, 2, 3, 5, 9, 17)


class Boom(Exception):
    """ the user's function failed """


class Halt(BaseException):
    """ like KeyboardInterrupt: not an Exception """


def simulation(ch, trace, **kw):
    kw.setdefault("max_steps", 60000)
    return Simulation(ch, trace, opcodes=ch.flip(0.4), quantum=QUANTUM, **kw)


def pause(ch):
    """ user code takes time: other threads run, the clock may move on """
    how = ch.draw(4)
    sim = th.active()
    if sim is None:
        return
    if how == 1:
        sim.yield_point()
    elif how == 2:
        for _ in range(3):
            sim.yield_point()
    elif how == 3:
        sim.sleep(ch.pick((0.5, 1.0, 20.0)))


class Interrupts(object):
    """ KeyboardInterrupt delivered to a caller thread at a seeded step """

    def __init__(self, ch, trace, sim, threads, p=0.25, span=60):
        self.hit = {}
        if not ch.flip(p):
            return
        plan = sorted((ch.draw(span), ch.draw(len(threads)))
                      for _ in range(ch.integer(1, 2)))

        def hook(ready):
            while plan and sim.steps >= plan[0][0]:
                _, i = plan.pop(0)
                t = threads[i]
                if not t.done and t.waiting is None and t.inject is None:
                    t.inject = Halt("interrupt")
                    trace.fault("interrupt", t.name)
        sim.pre_step = hook


# ---------------------------------------------------------------------------
class Value(object):
    def __init__(self, key, n):
        self.key, self.n = key, n

    def __repr__(self):
        return "<value %r #%d>" % (self.key, self.n)


class Falsy(Value):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Awkward(Value):
    """ like an array: equality is not a truth value """

    def __eq__(self, other):
        raise ValueError("ambiguous")

    __hash__ = object.__hash__

    def __bool__(self):
        raise ValueError("ambiguous")


class Collide(object):
    """ keys that are different but have the same hash """

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return isinstance(other, Collide) and self.n == other.n

    def __repr__(self):
        return "<key %d>" % self.n


def keys_for(ch):
    kind = ch.draw(6)
    if kind == 4:
        return [-1, -2, ("f8", -2)]
    if kind == 5:
        return [Collide(0), Collide(1), Collide(2)]
    if kind == 0:
        return [("f8", "c16"), ("f4", "c16"), ("f8", "c8")]
    if kind == 1:
        return [0, 1, 2]
    if kind == 2:
        return [None, "", ()]
    return [frozenset([1]), (1, (2, 3)), "key"]


def memoize(ch, trace):
    from africanus.util.code import memoize_on_key
    keys = keys_for(ch)[:ch.integer(1, 3)]
    nfn = ch.pick((1, 1, 2))
    nthread = ch.integer(1, 4)
    many = ch.flip(0.01)
    if many:
        # many kernels in one process
        nfn = 1
        nthread = ch.integer(1, 2)
        keys = [("f8", i) for i in range(ch.pick((40, 150, 300)))]
    sim = simulation(ch, trace)
    evals, calls = [], []       # (fn, key index, value | exc), history
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def key_fn(k, *args, **kwargs):
        if args and args[0] == "bad key":
            raise Boom("key function failed")
        return keys[k]

    def make(f):
        def fn(k, *args, **kwargs):
            "the user's function"
            e = dict(fn=f, key=k, start=tick(), end=None, value=None,
                     exc=None, args=(args, tuple(sorted(kwargs.items()))))
            evals.append(e)
            outcome = ch.weighted([("value", 6), ("none", 2), ("falsy", 2),
                                   ("awkward", 1), ("fail", 3), ("halt", 1),
                                   ("keyerror", 2)])
            trace.log("eval", f, k, outcome)
            try:
                if not many:
                    pause(ch)
                if outcome in ("fail", "keyerror", "halt"):
                    trace.fault("function " + outcome)
                    raise {"fail": Boom, "halt": Halt,
                           "keyerror": KeyError}[outcome](
                        "evaluation %d" % len(evals))
            except BaseException as x:      # noqa
                e["exc"], e["end"] = x, tick()
                raise
            v = {"value": Value, "falsy": Falsy, "awkward": Awkward,
                 "none": lambda *a: None}[outcome]((f, k), len(evals))
            e["value"], e["end"], e["ok"] = v, tick(), True
            return v
        return memoize_on_key(key_fn)(fn)
    fns = [make(f) for f in range(nfn)]
    for f in fns:
        if f.__name__ != "fn" or f.__doc__ != "the user's function":
            raise Violation("not-wrapped", "the memoized function does not "
                            "carry the original's name and docstring",
                            "not-wrapped")
    plans = [[(ch.draw(nfn), ch.draw(len(keys)), ch.draw(5))
              for _ in range(ch.integer(1, 4))] for _ in range(nthread)]
    if many:
        plans = [[(0, k, 0) for k in range(len(keys))] +
                 [(0, ch.draw(len(keys)), 0) for _ in range(6)]
                 for _ in range(nthread)]

    def worker(i):
        def run():
            for f, k, how in plans[i]:
                c = dict(thread=i, fn=f, key=k, start=tick(), end=None,
                         value=None, exc=None, bad=how == 4, args=((), ()))
                calls.append(c)
                try:
                    if how == 4:
                        v = fns[f](k, "bad key")
                    elif how == 3:
                        c["args"] = ((c["start"],), (("extra", i),))
                        v = fns[f](k, c["start"], extra=i)
                    elif how == 2:
                        c["args"] = ((), (("extra", i),))
                        v = fns[f](extra=i, k=k)
                    else:
                        v = fns[f](k)
                except (Boom, Halt, KeyError) as x:
                    c["exc"], c["end"] = x, tick()
                    trace.log("call", i, f, k, "raised", type(x).__name__)
                else:
                    c["value"], c["end"], c["ok"] = v, tick(), True
                    trace.log("call", i, f, k, "ok")
        return run
    ts = [sim.spawn(worker(i), "caller%d" % i) for i in range(nthread)]
    Interrupts(ch, trace, sim, ts)
    sim.run()
    trace.sim_time += sim.now
    for t in ts:
        if t.exc is not None and not isinstance(t.exc, Halt):
            raise Violation("raised", "%s: %s" % (type(t.exc).__name__,
                                                  t.exc), "raised")
    for f in range(nfn):
        for k in range(len(keys)):
            ev = [e for e in evals if (e["fn"], e["key"]) == (f, k)]
            good = [e for e in ev if e.get("ok")]
            cs = [c for c in calls if (c["fn"], c["key"]) == (f, k)]
            rets = [c for c in cs if c.get("ok")]
            for e in ev:
                if not any(e["args"] == c["args"] and c["start"] < e["start"]
                           and (c["end"] is None or e["start"] < c["end"])
                           for c in cs):
                    raise Violation(
                        "arguments", "the function was evaluated with "
                        "arguments %r, which no call for that key had" % (
                            e["args"],), "arguments")
            # a successful evaluation whose caller was interrupted before
            # the value was stored may be repeated, no other
            cut = sum(1 for c in cs if isinstance(c["exc"], Halt) or
                      c["end"] is None)
            if len(good) > 1 + cut:
                raise Violation(
                    "evaluated-twice", "the function was successfully "
                    "evaluated %d times for one key" % len(good),
                    "evaluated-twice")
            for c in rets:
                if not any(c["value"] is e["value"] for e in good):
                    raise Violation(
                        "wrong-value", "a call for key %r returned %r, which "
                        "no evaluation for that key produced" % (
                            keys[k], c["value"]), "wrong-value")
                if c["value"] is not rets[0]["value"]:
                    raise Violation(
                        "different-values", "two calls for one key returned "
                        "different objects", "different-values")
            if rets:
                done = min(c["end"] for c in rets)
                late = [e for e in ev if e["start"] > done]
                if late:
                    raise Violation(
                        "evaluated-again", "the function was evaluated for a "
                        "key whose value had already been returned",
                        "evaluated-again")
            for c in cs:
                x = c["exc"]
                if x is None or c["bad"]:
                    continue
                if isinstance(x, Halt) and x.args == ("interrupt",):
                    continue
                mine = [e for e in ev if e["exc"] is x and
                        e["start"] > c["start"] and e["end"] < c["end"]]
                if not mine:
                    raise Violation(
                        "foreign-failure", "a call raised %r although its "
                        "own evaluation did not" % x, "foreign-failure")
                if sum(1 for d in calls if d["exc"] is x) > 1:
                    raise Violation(
                        "failure-cached", "one failed evaluation was reported "
                        "to two calls", "failure-cached")
            for c in cs:
                if c["bad"] and c.get("ok"):
                    raise Violation("key-ignored", "the call succeeded "
                                    "although its key function failed",
                                    "key-ignored")
    trace.probe("evaluations", len(evals))


# ---------------------------------------------------------------------------
def singleton(ch, trace):
    from africanus.util.code import SingletonMixin
    nthread = ch.integer(1, 4)
    sim = simulation(ch, trace)
    made, got = [], []
    falsy = ch.flip(0.3)
    fail_left = [ch.draw(3) if ch.flip(0.5) else 0]
    shape = ch.pick(("one", "two", "derived", "derived", "nested"))
    bases = (SingletonMixin,)

    def body(ns_name, nested=None):
        def __init__(self):
            if nested is not None:
                self.other = nested[0].instance()
            pause(ch)
            if fail_left[0] > 0:
                fail_left[0] -= 1
                trace.fault("constructor failed", ns_name)
                raise Boom("constructor %d" % fail_left[0])
            made.append((type(self), self))
        d = dict(__init__=__init__)
        if falsy:
            d["__len__"] = lambda self: 0
        return d
    A = type("A", bases, body("A"))
    classes = [A]
    if shape == "two":
        classes.append(type("B", bases, body("B")))
    elif shape == "derived":
        classes.append(type("B", (A,), body("B")))
        if ch.flip(0.3):
            classes.append(type("C", (classes[-1],), {}))
    elif shape == "nested":
        classes.append(type("B", bases, body("B", nested=[A])))
    trace.log("singleton", shape, "falsy", falsy)
    plans = [[ch.draw(len(classes)) for _ in range(ch.integer(1, 4))]
             for _ in range(nthread)]

    def worker(i):
        def run():
            for k in plans[i]:
                try:
                    v = classes[k].instance()
                except (Boom, Halt) as x:
                    trace.log("raised", i, k, x)
                    got.append((k, None))
                else:
                    trace.log("got", i, k)
                    got.append((k, v))
                    if not any(m[1] is v for m in made):
                        raise Violation(
                            "unfinished", "%s.instance() returned an object "
                            "whose constructor has not completed" %
                            classes[k].__name__, "unfinished:" + shape)
        return run
    ts = [sim.spawn(worker(i), "caller%d" % i) for i in range(nthread)]
    Interrupts(ch, trace, sim, ts)
    try:
        sim.run()
    except Violation as v:
        raise Violation(v.kind, v.message, "%s:%s" % (v.kind, shape))
    trace.sim_time += sim.now
    for t in ts:
        if isinstance(t.exc, Violation):
            raise t.exc
        if t.exc is not None and not isinstance(t.exc, Halt):
            raise Violation("raised", "%s: %s" % (type(t.exc).__name__,
                                                  t.exc), "raised")
    cut = trace.faults.get("interrupt", 0)
    for k, cls in enumerate(classes):
        mine = [m for m in made if m[0] is cls]
        vals = [v for j, v in got if j == k and v is not None]
        if len(mine) > 1 + cut:
            raise Violation("two-instances", "the constructor of %s completed "
                            "%d times" % (cls.__name__, len(mine)),
                            "two-instances:" + shape)
        for v in vals:
            if type(v) is not cls:
                raise Violation(
                    "wrong-class", "%s.instance() returned an instance of %s"
                    % (cls.__name__, type(v).__name__),
                    "wrong-class:" + shape)
            if v is not vals[0]:
                raise Violation("two-instances", "%s.instance() returned two "
                                "different objects" % cls.__name__,
                                "two-instances:" + shape)
    # once faults stop, every class has its instance
    fail_left[0] = 0
    for k, cls in enumerate(classes):
        v = run_one(ch, trace, cls.instance)
        vals = [w for j, w in got if j == k and w is not None]
        if not any(m[1] is v for m in made):
            raise Violation("unfinished", "%s.instance() returned an object "
                            "whose constructor failed" % cls.__name__,
                            "unfinished:" + shape)
        if type(v) is not cls or any(v is not w for w in vals):
            raise Violation("lost-instance", "%s.instance() no longer returns "
                            "the instance handed out before" % cls.__name__,
                            "lost-instance:" + shape)


def run_one(ch, trace, fn):
    sim = Simulation(ch, trace, preempt=False)
    t = sim.spawn(fn, "main")
    sim.run()
    if t.exc is not None:
        raise Violation("raised", "%s: %s" % (type(t.exc).__name__, t.exc),
                        "raised")
    return t.result


# ---------------------------------------------------------------------------
class FakePackages(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """ an environment in which packages are present, missing or broken """

    def __init__(self, state, pause):
        self.state, self.pause = state, pause
        self.imports = 0

    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root not in self.state:
            return None
        self.imports += 1
        self.pause()
        s = self.state[root]
        if s == "missing":
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if s == "broken":
            raise ImportError("%s: cannot open shared object file" % name)
        return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, module):
        pass

    def purge(self):
        for m in list(sys.modules):
            if m.split(".")[0] in self.state:
                del sys.modules[m]


def mark(testing, v, ch):
    if v and ch.flip(0.5):
        testing.mark_in_pytest()
    else:
        testing.mark_in_pytest(v)


def requirements(ch, trace):
    import pytest
    from africanus.util import testing
    from africanus.util.requirements import (MissingPackageException,
                                             requires_optional)
    names = ["vpkg_a", "vpkg_b", "vpkg_c"][:ch.integer(1, 3)]
    if ch.flip(0.06):
        names = []
    state = {n: ch.pick(("ok", "missing", "broken")) for n in names}
    sim = simulation(ch, trace)

    def idle():
        if sim.me() is not None:
            sim.yield_point()
    finder = FakePackages(state, idle)
    for n, s in sorted(state.items()):
        trace.log("package", n, s)
        if s != "ok":
            trace.fault("package " + s, n)
    subs = [n if ch.flip(0.7) else n + ".sub" for n in names]
    user_err = [ImportError("user import of %s failed" % n)
                if state[n] != "ok" else None for n in names]
    odd = ch.weighted([("no", 8), ("user error", 2), ("type", 1)])
    force = ch.flip(0.2)
    reqs = list(subs)
    if ch.flip(0.7):
        reqs += user_err
    if odd == "user error":
        reqs.append(ch.pick((ImportError, ModuleNotFoundError))(
            "user logic is wrong"))
    if ch.flip(0.15):
        reqs.insert(ch.draw(len(reqs) + 1), None)
    if odd == "type":
        reqs.insert(ch.draw(len(reqs) + 1), ch.pick((3, b"numpy", ["numpy"])))
    if force:
        reqs.append(testing.force_missing_pkg_exception)
    missing = [s for s, n in zip(subs, names) if state[n] != "ok"]
    errors = [r for r in reqs if isinstance(r, ImportError)]
    marker = ch.flip(0.5)
    if ch.flip(0.1):
        # the module as a new process finds it
        fresh = types.ModuleType("fresh_testing")
        with open(testing.__file__) as f:
            exec(compile(f.read(), testing.__file__, "exec"), fresh.__dict__)
        if fresh.in_pytest() is not False:
            raise Violation("fresh", "a process that never said so counts as "
                            "running pytest", "fresh")
    mark(testing, marker, ch)
    history = [marker]          # every value the marker had, in order
    ran = []
    saved_path = list(sys.meta_path)
    sys.meta_path.insert(0, finder)
    try:
        def function(x, y=2, *args, **kwargs):
            "original docstring"
            ran.append(x)
            return (x, y, args, tuple(sorted(kwargs.items())))
        try:
            fn = requires_optional(*reqs)(function)
        except TypeError as e:
            if odd != "type":
                raise Violation("raised", "decorating failed: %s" % e,
                                "decorate:TypeError")
            return
        except ImportError as e:
            if missing or not errors:
                raise Violation(
                    "raised", "decorating raised ImportError although %s: %s"
                    % ("packages are missing" if missing else
                       "no import error was supplied", e),
                    "decorate:ImportError")
            for x in errors:
                if str(x) not in str(e):
                    raise Violation("message", "the user's ImportError is "
                                    "not reported", "decorate:message")
            return
        if odd == "type":
            raise Violation("accepted", "a requirement that is neither a "
                            "string nor an ImportError was accepted",
                            "decorate:accepted")
        if not missing and errors:
            raise Violation("swallowed", "all packages import but the "
                            "user-supplied ImportErrors were swallowed",
                            "decorate:swallowed")
        if fn.__name__ != "function" or \
                fn.__doc__ != "original docstring":
            raise Violation("signature", "name or docstring lost",
                            "signature")
        nthread = ch.integer(1, 3)
        calls = []

        def caller(i, n):
            def run():
                for j in range(n):
                    a = max(len(history) - 2, 0)
                    try:
                        out = ("value", fn(i, j, 5, z=1))
                    except MissingPackageException as e:
                        out = ("missing", str(e))
                    except pytest.skip.Exception as e:
                        out = ("skip", str(e))
                    calls.append((i, j, out, history[a:]))
                    trace.log("call", i, j, out[0])
            return run

        def marking(values):
            def run():
                for v in values:
                    # the marker may hold v from now on
                    history.append(v)
                    mark(testing, v, ch)
                    history.append(v)
                    pause(ch)
            return run
        ts = [sim.spawn(caller(i, ch.integer(1, 2)), "caller%d" % i)
              for i in range(nthread)]
        if ch.flip(0.6):
            ts.append(sim.spawn(marking([ch.flip(0.5) for _ in range(
                ch.integer(1, 3))]), "marker"))
        sim.run()
    finally:
        sys.meta_path[:] = saved_path
        finder.purge()
        testing.mark_in_pytest(False)
    for t in ts:
        if t.exc is not None:
            raise Violation("raised", "a call raised %s: %s" % (
                type(t.exc).__name__, t.exc),
                "call:%s" % type(t.exc).__name__)
    for i, j, (what, val), seen in calls:
        if not missing:
            if what != "value" or val != (i, j, (5,), (("z", 1),)):
                raise Violation(
                    "not-original", "all requirements are present but the "
                    "call gave %s %r" % (what, val), "not-original")
            continue
        if what == "value":
            raise Violation("ran", "the function returned %r although %s "
                            "cannot be imported" % (val, missing), "ran")
        if what == "skip" and (force or not any(seen)):
            raise Violation("skipped", "the call skipped a test although "
                            "%s" % ("exceptions were forced" if force else
                                    "not marked as inside pytest"),
                            "skipped")
        if what == "missing" and not force and all(seen):
            raise Violation("not-skipped", "the call raised although marked "
                            "as inside pytest throughout", "not-skipped")
        for s in missing:
            if s not in val:
                raise Violation("message", "missing package %s is not named "
                                "in: %s" % (s, val), "message")
        for s in subs:
            if s not in missing and s in val and not any(
                    s in m for m in missing) and not any(
                    s in str(e) for e in errors):
                raise Violation("message", "available package %s is named "
                                "as missing" % s, "message-extra")
    if missing and ran:
        raise Violation("ran", "the body of the function ran although %s "
                        "cannot be imported" % missing, "ran-body")
