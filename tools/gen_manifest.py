#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        mods = sorted({x["module"] for x in c["parts"]})
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ (TLC) " + "/".join(mods) + ": " + c.get("technique", "model checking, behaviours replayed on the code"),
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", "Exhaustive within the bounds of the specification's constants; bound to the code by replaying every emitted behaviour (or validating recorded traces).") +
                " Assumes: " + "; ".join(c.get("assumptions", ["TLC and the Go toolchain are correct"])) + "."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
  "hooks": {"guard": "none: no hooks are compiled into /repo", "enable": "harnesses are compiled into /repo's module with go build -overlay", "source_commits": []},
  "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
