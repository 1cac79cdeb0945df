#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/properties.py (texts) and props.py (checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "meta"))
from props import P
from properties import PROPS, NA
lines = []
for p in PROPS:
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["all"]}, "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}}))
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
checks, na = [], []
reason = {k: v for k, v in NA}
for p in PROPS:
    i = p["id"]
    if i in P:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled LLVM IR of the real code, decided by Z3, replayed natively", "level": "model_checking",
            "level_note": "Every assertion, panic and branch on the explored program shapes is decided by Z3 for all values of the symbolic inputs. Bounds: " + P[i]["bounds"] + " Trusted: rustc/LLVM, the executor symx (every recorded path is re-run natively and compared), Z3."})
    elif i in reason: na.append({"property": i, "reason": reason[i]})
    else: na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: everything is driven through the public API. Fixes in /repo are recorded in known-findings.txt."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
