#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks_table.py and properties.jsonl."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, D)
from checks_table import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed at public interfaces (controllers, hardware, loaders, services, parameters) or by sanitizers and interposed libc functions. Repairs of /repo are listed in known-findings.txt."}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c.get("note", "Held on every execution observed (counts in the evidence file); says nothing about executions not produced. ") + " Trusts: " + "; ".join(c["assumptions"])})
    else: m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(os.path.join(D, "..", "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
