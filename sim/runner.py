"""
Seeded search, minimisation, replay and evidence.

Unit of isolation is the *session*: one forked process that performs up to
``K`` runs of a property one after the other (so state that leaks from one run
into the next is part of a repeatable history).  A run is a pure function of
its choice list; a session of its list of choice lists.
"""
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

from sim.core import (Choices, Trace, Violation, HarnessError, Discard,
                      derive_seed)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)     # mutation studies only
RUN_LIMIT = 150         # wall seconds; a normal run takes well below 1 s


class Timeout(BaseException):
    pass


class Property(object):
    def __init__(self, pid, title, run, quick, thorough, session=8,
                 real=(), stub=(), rule="", assumptions=(),
                 quick_wall=150, thorough_wall=1500, measure=None):
        self.pid, self.title, self.run = pid, title, run
        self.quick, self.thorough = quick, thorough
        self.session = session
        self.real, self.stub = list(real), list(stub)
        self.rule = rule
        self.assumptions = list(assumptions)
        self.quick_wall, self.thorough_wall = quick_wall, thorough_wall
        self.measure = measure or (
            "distinct digests of the sequence of scheduling decisions "
            "(which task/thread ran next, where)")


KNOWN = {}
_uuid_runs = 0


def begin_run(ch):
    """ pin every remaining source of randomness of the process """
    import random
    import uuid
    import numpy as np
    np.random.seed(12345)
    random.seed(12345)
    global _uuid_runs
    _uuid_runs += 1
    count = [_uuid_runs << 32]      # unique within the session

    def uuid4():
        count[0] += 1
        return uuid.UUID(int=(0xC0DE << 96) | count[0], version=4)
    uuid.uuid4 = uuid4


# ---------------------------------------------------------------------------
def one_run(prop, ch, trace):
    """ returns None or violation dict; raises only HarnessError """
    def alarm(signum, frame):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(RUN_LIMIT)
    try:
        begin_run(ch)
        prop.run(ch, trace)
        for sig, message in sorted(trace.findings.items()):
            if (prop.pid, sig) not in KNOWN:
                return dict(kind="finding", message=message, signature=sig)
        return None
    except Discard:
        trace.probe("discarded")
        return None
    except Violation as v:
        return dict(kind=v.kind, message=v.message, signature=v.signature)
    except HarnessError:
        raise
    except Exception as e:
        # an exception of the code under test that no oracle expected
        import sim.platform as plat
        tb, where = e.__traceback__, None
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(plat.REPO + "/africanus"):
                where = tb.tb_frame.f_code.co_name
            tb = tb.tb_next
        if where is None:
            raise
        return dict(kind="raised", message="%s raised in %s: %s" % (
            type(e).__name__, where, str(e)[:400]),
            signature="raised:%s:%s" % (where, type(e).__name__))
    except Timeout:
        return dict(kind="no-termination",
                    message="run did not finish within %d s of wall time "
                    "(a normal run takes less than a second)" % RUN_LIMIT,
                    signature="no-termination:%s" % prop.pid)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def session_body(prop, runs, keep_trace=False):
    """ runs: list of ("seed", int) / ("choices", list) """
    stats = dict(runs=0, discarded=0, faults={}, probes={}, inter=[],
                 sim_time=0.0, events=0, digests=[], samples=[], findings=[])
    records = []
    violation = None
    trace = None
    for kind, val in runs:
        ch = Choices(seed=val) if kind == "seed" else Choices(replay=val)
        trace = Trace()
        violation = one_run(prop, ch, trace)
        records.append(list(ch.record))
        if trace.probes.get("discarded"):
            stats["discarded"] += 1
        else:
            stats["runs"] += 1
            stats["inter"].append(trace.interleaving())
        for k, v in trace.faults.items():
            stats["faults"][k] = stats["faults"].get(k, 0) + v
        for k, v in trace.probes.items():
            stats["probes"][k] = stats["probes"].get(k, 0) + v
        for sig in trace.findings:
            stats["findings"].append(sig)
        stats["sim_time"] += trace.sim_time
        stats["events"] += trace.n
        stats["digests"].append(trace.digest())
        if len(stats["samples"]) < 1 and trace.n > 3:
            stats["samples"].append(dict(
                seed=val if kind == "seed" else None,
                faults=dict(trace.faults), first_events=trace.events[:14]))
        if violation is not None:
            break
    out = dict(stats=stats, violation=violation, records=records)
    if keep_trace and trace is not None:
        out["trace"] = trace.events
        out["digest"] = trace.digest()
    return out


class Child(object):
    def __init__(self, prop, runs, tag, keep_trace=False):
        self.tag = tag
        self.runs = runs
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 1)
                os.dup2(devnull, 0)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(devnull, 2)
                try:
                    out = session_body(prop, runs, keep_trace)
                except BaseException as e:      # noqa
                    out = dict(harness="%s\n%s" % (
                        e, traceback.format_exc()[-3000:]))
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f, protocol=4)
            except BaseException:       # noqa
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self.fd = pid, r
        self.buf = b""
        self.t0 = time.time()

    def read(self):
        data = os.read(self.fd, 1 << 20)
        if data:
            self.buf += data
            return None
        os.close(self.fd)
        _, status = os.waitpid(self.pid, 0)
        if self.buf:
            try:
                return pickle.loads(self.buf)
            except Exception:
                pass
        return dict(died=status)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.close(self.fd)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


def run_session(prop, runs, keep_trace=False, limit=None):
    """ one session in a fresh process, synchronously """
    c = Child(prop, runs, None, keep_trace)
    limit = limit or RUN_LIMIT * 2 + 30
    while True:
        r, _, _ = select.select([c.fd], [], [], limit)
        if not r:
            c.kill()
            return dict(died="wall limit")
        out = c.read()
        if out is not None:
            return out


def died_violation(prop, out):
    return dict(kind="process-died",
                message="the process was killed (status %s) while executing "
                "the run" % out.get("died"),
                signature="process-died:%s" % prop.pid)


# ---------------------------------------------------------------------------
def minimise(prop, runs, target, wall=40):
    """ shrink list of choice lists, keeping the violation signature """
    t0 = time.time()
    tried = [0]
    base = target["signature"]

    def fails(rs):
        tried[0] += 1
        out = run_session(prop, [("choices", r) for r in rs])
        v = out.get("violation")
        if v is not None and v["signature"] == base and \
                len(out["records"]) == len(rs):
            return out
        return None

    out = fails(runs)
    if out is None:
        return runs, tried[0], False
    # 1. drop earlier runs
    if len(runs) > 1 and fails(runs[-1:]):
        runs = runs[-1:]
    i = 0
    while len(runs) > 1 and i < len(runs) - 1 and time.time() - t0 < wall:
        cand = runs[:i] + runs[i + 1:]
        if fails(cand):
            runs = cand
        else:
            i += 1
    # 2. shrink the last run's choices
    cur = list(runs[-1])

    def attempt(c):
        return fails(runs[:-1] + [c]) is not None

    # trailing zeros are implied
    lo, hi = 0, len(cur)
    while lo < hi and time.time() - t0 < wall:
        mid = (lo + hi) // 2
        if attempt(cur[:mid]):
            hi = mid
        else:
            lo = mid + 1
    if attempt(cur[:hi]):
        cur = cur[:hi]
    improved = True
    while improved and time.time() - t0 < wall:
        improved = False
        size = max(len(cur) // 2, 1)
        while size >= 1 and time.time() - t0 < wall:
            i = 0
            while i < len(cur) and time.time() - t0 < wall:
                if any(cur[i:i + size]):
                    cand = cur[:i] + [0] * len(cur[i:i + size]) + \
                        cur[i + size:]
                    if attempt(cand):
                        cur = cand
                        improved = True
                    else:
                        cand = cur[:i] + cur[i + size:]
                        if attempt(cand):
                            cur = cand
                            improved = True
                            continue
                i += size
            size //= 2
        for i in range(len(cur)):
            if time.time() - t0 > wall:
                break
            while cur[i] > 0 and time.time() - t0 < wall:
                for v in (cur[i] // 2, cur[i] - 1):
                    cand = cur[:i] + [v] + cur[i + 1:]
                    if attempt(cand):
                        cur = cand
                        improved = True
                        break
                else:
                    break
    while cur and cur[-1] == 0:
        cur = cur[:-1]
    if not attempt(cur):
        cur = list(runs[-1])
    return runs[:-1] + [cur], tried[0], True


# ---------------------------------------------------------------------------
def load_known():
    """ {(property, signature): text} from the "known:" lines; "fixed:" lines
    and comments suppress nothing """
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known:"):
                    w = line.split(None, 3)
                    pid = w[1].split("=", 1)[1]
                    sig = w[2].split("=", 1)[1]
                    known[(pid, sig)] = w[3].strip()
    return known


def search(prop, seed, tier, jobs=None, log=sys.stdout):
    t0 = time.time()
    jobs = jobs or int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    total = prop.quick if tier == "quick" else prop.thorough
    wall = prop.quick_wall if tier == "quick" else prop.thorough_wall
    if os.environ.get("VERIF_RUNS"):
        total = int(os.environ["VERIF_RUNS"])
    if os.environ.get("VERIF_WALL"):
        wall = float(os.environ["VERIF_WALL"])
    nsess = (total + prop.session - 1) // prop.session
    known = load_known()
    KNOWN.clear()
    KNOWN.update(known)
    agg = dict(runs=0, discarded=0, faults={}, probes={}, sim_time=0.0,
               events=0, samples=[])
    inter = set()
    known_hit = {}
    found = {}
    harness = []
    children = []
    nxt = 0
    deadline = None
    while True:
        stop = bool(harness) or time.time() - t0 > wall
        if found:
            # grace period: prefer the earliest session for determinism
            first = min(f["session"] for f in found.values())
            if all(c.tag > first for c in children) or \
                    time.time() > deadline:
                break
            stop = True
        while not stop and len(children) < jobs and nxt < nsess:
            runs = [("seed", derive_seed(seed, prop.pid, nxt, r))
                    for r in range(prop.session)]
            children.append(Child(prop, runs, nxt))
            nxt += 1
        if not children:
            break
        r, _, _ = select.select([c.fd for c in children], [], [], 5.0)
        for c in list(children):
            if c.fd in r:
                out = c.read()
                if out is None:
                    continue
                children.remove(c)
            elif time.time() - c.t0 > RUN_LIMIT * (prop.session + 1):
                c.kill()
                children.remove(c)
                out = dict(died="wall limit")
            else:
                continue
            if "harness" in out:
                harness.append(out["harness"])
                continue
            if "died" in out:
                v = died_violation(prop, out)
                found.setdefault(v["signature"], dict(
                    session=c.tag, violation=v, runs=c.runs, records=None))
                deadline = deadline or time.time() + 20
                continue
            s = out["stats"]
            agg["runs"] += s["runs"]
            agg["discarded"] += s["discarded"]
            agg["sim_time"] += s["sim_time"]
            agg["events"] += s["events"]
            for k in ("faults", "probes"):
                for a, b in s[k].items():
                    agg[k][a] = agg[k].get(a, 0) + b
            inter.update(s["inter"])
            for sig in s["findings"]:
                if (prop.pid, sig) in known:
                    known_hit[sig] = known[(prop.pid, sig)]
            if len(agg["samples"]) < 3 and s["samples"]:
                agg["samples"].append(s["samples"][0])
            v = out["violation"]
            if v is not None:
                key = (prop.pid, v["signature"])
                if key in known:
                    known_hit[v["signature"]] = known[key]
                    continue
                cur = found.get(v["signature"])
                if cur is None or cur["session"] > c.tag:
                    found[v["signature"]] = dict(
                        session=c.tag, violation=v, runs=c.runs,
                        records=out["records"])
                deadline = deadline or time.time() + 20
    for c in children:
        c.kill()
    search_wall = time.time() - t0
    if not found and harness:
        raise HarnessError(harness[0])

    result = dict(found=[], known=known_hit, agg=agg, inter=len(inter),
                  search_wall=search_wall, sessions=nxt)
    if found:
        first = min(found.values(), key=lambda f: f["session"])
        result["found"].append(report(prop, seed, first))
    return result


def report(prop, seed, f):
    v = f["violation"]
    replay = dict(property=prop.pid, verif_seed=seed, session=f["session"],
                  kind=v["kind"], signature=v["signature"],
                  message=v["message"],
                  hashseed=os.environ.get("PYTHONHASHSEED", ""),
                  repo=os.environ.get("AFRICANUS_REPO", "/repo"))
    reproduced = False
    if f["records"] is not None:
        if os.environ.get("VERIF_NOMIN"):
            wall = 0
        else:
            wall = 40
        runs, tried, reproduced = minimise(prop, f["records"], v, wall)
        out = run_session(prop, [("choices", r) for r in runs],
                          keep_trace=True)
        again = run_session(prop, [("choices", r) for r in runs],
                            keep_trace=True)
        v2 = out.get("violation")
        if v2 is not None:
            replay["message"] = v2["message"]
        replay.update(
            runs=[["choices", r] for r in runs], minimise_trials=tried,
            original_choices=sum(len(r) for r in f["records"]),
            minimised_choices=sum(len(r) for r in runs),
            trace=out.get("trace", [])[:2000], digest=out.get("digest"),
            deterministic=out.get("digest") == again.get("digest"))
    else:
        replay["runs"] = [["seed", s] for _, s in f["runs"]]
        out = run_session(prop, f["runs"])
        reproduced = "died" in out
    replay["reproduced"] = reproduced
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (
        prop.pid, "".join(c if c.isalnum() else "_"
                          for c in v["signature"])[:60], seed))
    with open(path, "w") as fh:
        json.dump(replay, fh, indent=1, sort_keys=True, default=str)
        fh.write("\n")
    return dict(path=path, violation=v, replay=replay)


def evidence(prop, seed, tier, result, wall):
    agg = result["agg"]
    hours = max(result["search_wall"], 1e-6) / 3600.0
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=result["inter"],
        rule=prop.rule + " One evaluation is one simulated run (one seed); "
        "distinct_nontrivial counts " + prop.measure + ".",
        samples=agg["samples"] or [dict(note="no run long enough to sample")],
        seeds=agg["runs"], discarded_runs=agg["discarded"],
        seeds_per_hour=int(agg["runs"] / hours),
        simulated_time_s=round(agg["sim_time"], 3),
        simulated_events=agg["events"],
        faults_injected=dict(sorted(agg["faults"].items())),
        probes=dict(sorted(agg["probes"].items())),
        sessions=result["sessions"],
        components_real=prop.real, components_stubbed=prop.stub,
        exhaustive=False)
    ev = dict(property=prop.pid, tier=tier, seed=seed, level="exploration",
              coverage=cov, assumptions=prop.assumptions,
              wall_s=round(wall, 3), violations=len(result["found"]),
              known_findings=sorted(result["known"]))
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    return ev
