#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vp/units.py (claimed properties) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
from units import PROPS, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 vp/check.py {i} quick", thorough_cmd=f"python3 vp/check.py {i} thorough",
          evidence_file=f"evidence/{i}.json",
          technique="deductive verification: contracts on the functions extracted from the expanded source, discharged by Verus (Z3)",
          level="proof", level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no contract written yet; the property is not decided by this framework at present")))
m = dict(version=1, setup_cmd="python3 vp/setup.py",
  hooks=dict(guard="none", enable="no hooks: the checks read the unmodified source through rustc's expansion", source_commits=[]),
  checks=checks, not_applicable=na,
  notes="Every check extracts the contracted functions from /repo's current source, verifies them, and runs a bounded search on the real code which replays failures; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
