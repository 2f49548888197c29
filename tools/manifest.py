#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = json.load(open(H + "/checks.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs:
        s = specs[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": s.get("technique", "property-based testing (rapid) with shrinking"),
                       "level": "exploration",
                       "level_note": s.get("note", "Held on the generated cases only.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness uses the packages' public API and finds the few private parts it needs by type. Fixes to /repo are listed in known-findings.txt."}
open(H + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
