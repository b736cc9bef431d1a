#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs

NOTE = ("Generated-input search in builds with and without debug assertions; finds violations, does not prove their absence. "
        "Assumes the oracle in harness/src (described in DESIGN.md), the pinned compiler and a 64-bit target.")
props = [json.loads(l) for l in open(os.path.join(specs.VERIF, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed. Replay a recorded failure with: python3 run.py --replay FILE. Every check rebuilds from /repo's working tree into /verif/target (by content, not only by file times).",
}
for p in props:
    i = p["id"]
    s = specs.SPECS.get(i)
    if s is None:
        m["not_applicable"].append({"property": i, "reason": "check is not built yet"})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 run.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
        "technique": s.get("technique", "property-based testing: choice-sequence generator, model oracle, shrinking to a replay file"),
        "level": "exploration",
        "level_note": s.get("note", NOTE),
    })
with open(os.path.join(specs.VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
