#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NATIVE = {"C20", "C21", "C22", "C23", "C24", "C25", "C27", "C29", "C31", "C32"}
NOTES = {i: "Every run is one seeded execution of the C++ engine and its Python client under a deterministic scheduler with a memory checker; holds on the "
            "schedules, inputs and faults explored, not on all. The RPC transport is simulated; trusts its model of the transport and the reference graph model."
         for i in NATIVE}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 vcheck_run.py " + i,
            "thorough_cmd": "python3 vcheck_run.py " + i,
            "technique": "deterministic simulation with fault injection, seeded search",
            "level": "exploration",
            "level_note": NOTES.get(i, "Every run is one seeded execution of the real code under a deterministic scheduler; holds on the schedules, "
                                       "inputs and faults explored, not on all. Trusts the simulator's seams and the independent oracle."),
        })
    else:
        na.append({"property": i, "reason": "No check built yet."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "No hooks were needed in /repo: every seam is installed from outside the source (standard-library and "
                                          "transport seams).", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay a violation: python3 vcheck_run.py --replay <file>. Determinism proof: tools/determinism.py <id> <runs>."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
