#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when contracts carry obligations for it (CLAIM below)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "./check.sh " + i,
            "technique": "contract-based deductive verification of the Go source (weakest preconditions over go/ssa, SMT); bounded replay search beside it",
            "level": "proof",
            "level_note": NOTE[i] + COMMON,
        })
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "The bounded leg of each check executes the real code against an independent oracle; it is labelled bounded in the evidence and never counted as proved. No hooks are needed in /repo: contracts live in /verif/contracts, keyed by function."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
