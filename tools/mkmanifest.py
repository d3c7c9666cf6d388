#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import plans

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC checks the property on the specification over every state reachable with the alphabets of the check, and every "
        "explored transition is replayed on the library built from the working tree; random programs with larger values are "
        "executed first and TLC validates the recorded traces. Exhaustive inside the bounds that DESIGN.md lists, sampling "
        "beyond them. Trusts TLC, the driver that executes the calls, and the compiler.")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, rest = [], []
for p in ids:
    if p in plans.PLANS:
        checks.append({
            "property": p,
            "quick_cmd": "python3 -B tools/check.py %s --tier quick" % p,
            "thorough_cmd": "python3 -B tools/check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": plans.PLANS[p].get("technique", "TLA+ model checking (TLC), replay of explored behaviours on the library, trace validation against the specification"),
            "level": "model_checking",
            "level_note": plans.PLANS[p].get("note", NOTE),
        })
    else:
        rest.append({"property": p, "reason": "not claimed yet: its worlds are still being written"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": rest,
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of the library only", "source_commits": []},
     "notes": "Specification in spec/, C++ driver in driver/, checks in tools/. Known findings are in known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
