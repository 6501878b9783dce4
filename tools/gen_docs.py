"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run after editing it)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props_table import NA, PROPS  # noqa: E402

SIM = "deterministic simulation with fault injection: seeded search over schedules and fault sequences"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in NA:
            continue
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                       "technique": p.get("technique", SIM), "level": "exploration", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks were needed: every seam (SimPy's event queue, the random number generators, file access, the web application's client) is owned from outside /repo", "source_commits": []},
         "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
