#!/opt/venv/bin/python
"""
plant.py <id> [...]  for /verif/seeded/<id>: in a scratch copy of /repo, confirm
that the patch applies, the stable tests pass, the demo tells the trees apart,
and whether the property's quick check (and optionally others) catches it.
Options: --no-tests, --checks P01,P02 (default: the property of meta.json)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True,
                       errors="replace")
    return p.returncode, p.stdout


def main(argv):
    tests = "--no-tests" not in argv
    checks = None
    ids = []
    for i, a in enumerate(argv):
        if a == "--checks":
            checks = argv[i + 1].split(",")
        elif not a.startswith("--") and (i == 0 or argv[i - 1] != "--checks"):
            ids.append(a)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for pid in ids:
        d = os.path.join(HERE, "seeded", pid)
        meta = json.load(open(os.path.join(d, "meta.json")))
        scratch = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        tree = os.path.join(scratch, "repo")
        demo = os.path.join(scratch, "demo")
        try:
            shutil.copytree("/repo", tree, symlinks=True)
            shutil.copytree(d, demo)
            rc0, out0 = sh(["bash", os.path.join(demo, "demo.sh")], tree,
                           timeout=300)
            rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")],
                         tree)
            if rc:
                print(pid, "PATCH DOES NOT APPLY", out)
                continue
            rc1, out1 = sh(["bash", os.path.join(demo, "demo.sh")], tree,
                           timeout=300)
            line = [pid, "demo %d/%d" % (rc0, rc1)]
            if rc0:
                print(out0[-1500:])
            if not rc1:
                print(out1[-1500:])
            if tests:
                x = os.path.join(scratch, "r.xml")
                _, tout = sh([PY, "-m", "pytest", "-q", "-n", "8", "-p",
                              "no:cacheprovider", "--timeout=300",
                              "--continue-on-collection-errors",
                              "--ignore=africanus/util/tests/"
                              "test_cub_download.py",
                              "--ignore=africanus/util/tests/"
                              "test_trove_download.py", "-o",
                              "junit_family=xunit2", "--junitxml=" + x,
                              "africanus"], tree,
                             dict(PYTHONHASHSEED="0"))
                fails = 0
                npass = 0
                for tc in ET.parse(x).iter("testcase"):
                    if any(c.tag in ("failure", "error", "skipped")
                           for c in tc):
                        continue
                    npass += 1
                line.append("tests pass %d/%d" % (npass, len(stable)))
            for c in checks or [meta["property"]]:
                rc, out = sh([PY, "run.py", "check", c, "quick"], HERE,
                             dict(AFRICANUS_REPO=tree, VERIF_SEED="1",
                                  VERIF_TIER="quick"))
                v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
                line.append("%s %s" % (c, "CAUGHT" if rc == 1 and v else
                                       "missed" if rc == 0 else "ERROR"))
                if rc == 1:
                    line.append(out.splitlines()[-2][:160])
                elif rc != 0:
                    print(out[-1500:])
            print(" | ".join(line), flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
