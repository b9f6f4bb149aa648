#!/opt/venv/bin/python
"""
run.py check <ID> [quick|thorough]     search; evidence/<ID>.json; exit 0/1
run.py replay <file>                   re-execute a replay file; exit 1 if the
                                       recorded violation occurs again
run.py digest <ID> <n> [seed]          print the event-log digests of n seeds
run.py list
Exit 2: error of the machinery itself.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def reexec(hashseed):
    """ the hash seed is part of the execution: fix it before anything """
    want = {"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1",
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
            "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
            "NUMBA_DISABLE_JIT": "1", "VERIF_REEXEC": "1", "TZ": "UTC",
            "PYTHONWARNINGS": "ignore", "LC_ALL": "C.UTF-8"}
    if os.environ.get("VERIF_REEXEC") == "1" and \
            os.environ.get("PYTHONHASHSEED") == str(hashseed):
        return
    env = dict(os.environ)
    env.update(want)
    env.pop("PYTHONPATH", None)
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def main(argv):
    if not argv or argv[0] not in ("check", "replay", "digest", "list"):
        print(__doc__)
        return 2
    cmd = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = None
    if cmd == "replay":
        with open(argv[1]) as f:
            rep = json.load(f)
        hashseed = rep.get("hashseed") or 0
    else:
        hashseed = os.environ.get("VERIF_HASHSEED") or seed % 4294967295
    reexec(hashseed)

    import time
    t0 = time.time()
    from sim import seams
    seams.install()
    from props import registry
    from sim import runner
    from sim.core import HarnessError

    if cmd == "list":
        for pid in registry.IDS:
            print(pid, registry.title(pid))
        return 0
    pid = rep["property"] if rep else argv[1]
    from props import imports
    from sim import mon, platform
    imports.load_all()
    prop = registry.load(pid)
    mon.collect([platform.REPO + "/africanus"])
    from sim import boot
    boot.preload()
    from sim import disk
    disk.scratch()

    if cmd == "digest":
        n = int(argv[2])
        seed = int(argv[3]) if len(argv) > 3 else seed
        from sim.core import derive_seed
        nsess = (n + prop.session - 1) // prop.session
        for s in range(nsess):
            out = runner.run_session(prop, [
                ("seed", derive_seed(seed, pid, s, r))
                for r in range(prop.session)])
            if "harness" in out:
                print("HARNESS", out["harness"])
                return 2
            if "died" in out:
                print(s, "died")
                continue
            for r, d in enumerate(out["stats"]["digests"]):
                print(s, r, d, out["violation"]["signature"]
                      if out["violation"] else "")
        return 0

    if cmd == "replay":
        out = runner.run_session(prop, [tuple(r) for r in rep["runs"]],
                                 keep_trace=True)
        if "died" in out:
            v = runner.died_violation(prop, out)
        elif "harness" in out:
            print(out["harness"])
            return 2
        else:
            v = out["violation"]
        if v is None:
            print("no violation on replay")
            return 0
        for line in out.get("trace", [])[-40:]:
            print("   ", line)
        print("%s: %s" % (v["kind"], v["message"]))
        same = v["signature"] == rep["signature"]
        exact = out.get("digest") == rep.get("digest")
        print("same violation: %s; identical event log: %s" % (same, exact))
        print("VIOLATION property=%s replay=%s" % (pid, argv[1]))
        return 1

    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        res = runner.search(prop, seed, tier)
    except HarnessError as e:
        print("HARNESS ERROR in %s: %s" % (pid, e))
        return 2
    ev = runner.evidence(prop, seed, tier, res, time.time() - t0)
    print("%s %s: %d runs, %d distinct interleavings, %d faults, %.1f s"
          % (pid, tier, ev["coverage"]["evaluations"],
             ev["coverage"]["distinct_nontrivial"],
             sum(ev["coverage"]["faults_injected"].values()), ev["wall_s"]))
    for sig, what in sorted(res["known"].items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if res["found"]:
        f = res["found"][0]
        print("%s: %s" % (f["violation"]["kind"], f["replay"]["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, f["path"]))
        return 1
    if ev["coverage"]["evaluations"] == 0:
        print("HARNESS ERROR: no run completed")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:       # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        if "sim.disk" in sys.modules:
            sys.modules["sim.disk"].cleanup()
    sys.stdout.flush()
    sys.exit(rc)
