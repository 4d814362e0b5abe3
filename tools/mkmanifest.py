#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CLAIMED = {}
exec(open(os.path.join(V, "tools", "claimed.py")).read(), {"CLAIMED": CLAIMED})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i,
                       "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c["technique"], "level": c.get("level", "exploration"),
                       "level_note": c["note"]})
    elif i.startswith("N"):
        na.append({"property": i, "reason": "Pure function of its operands: no schedule, clock, I/O, fault, crash or history occurs in it, so a simulator has nothing to vary; deciding it would be input generation, which is another technique."
                   + (" (eigen.hpp cannot even be instantiated at this commit.)" if i == "N12" else "")})
    else:
        na.append({"property": i, "reason": "Check not built yet."})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are symbol interposition and compiler instrumentation, see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
