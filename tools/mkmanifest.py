#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/specs.py and properties.jsonl."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, "..")]
import specs  # noqa: E402

TECH = "runtime monitoring: "
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
for pid in ids:
    s = specs.SPECS.get(pid)
    if not s:
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py {pid} quick",
        "thorough_cmd": f"python3 run.py {pid} thorough",
        "technique": TECH + s["technique"],
        "level": s["level"],
        "level_note": s["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in specs.SPECS],
    "notes": "No hooks in /repo: the library is a header, so the harnesses observe it through its own template parameters (buffers, containers, allocators, element types, callees) and through the sanitizers. Held means held on the executions counted in the evidence file.",
}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
