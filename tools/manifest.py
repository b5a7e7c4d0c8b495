#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call(["python3", os.path.join(root, "tools", "properties.py")])
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": "bounded symbolic execution of the Go SSA with SMT (z3), counterexamples replayed natively",
                       "level": "other", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": REASONS.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses enter through a source overlay. /repo carries only fix: commits, listed in known-findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
