#!/opt/venv/bin/python
""" Regenerates properties.jsonl and MANIFEST.json from props/catalog.py. """
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import catalog      # noqa


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in catalog.PROPERTIES:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["quant"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=n, where=w)
                                             for n, w in p["mech"]],
                                  observe_at=p.get("observe", []),
                                  hook_needed=None))
            assert len(d["title"]) <= 80, (len(d["title"]), d["title"])
            f.write(json.dumps(d, sort_keys=False) + "\n")
    checks = [dict(property=p["id"],
                   quick_cmd="/opt/venv/bin/python run.py check %s quick"
                   % p["id"],
                   thorough_cmd="/opt/venv/bin/python run.py check %s "
                   "thorough" % p["id"],
                   evidence_file="evidence/%s.json" % p["id"],
                   technique=p["technique"], level="exploration",
                   level_note=p["note"])
              for p in catalog.PROPERTIES if not p.get("na")]
    na = [dict(property=p["id"], reason=p["na"])
          for p in catalog.PROPERTIES if p.get("na")]
    m = dict(version=1,
             setup_cmd="/opt/venv/bin/python run.py list",
             hooks=dict(guard="AFRICANUS_SIM (reserved; no hook was needed: "
                        "every seam is installed from outside)",
                        enable="none", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Seeded deterministic simulation; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
