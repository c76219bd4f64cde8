"""Writes MANIFEST.json and levels.json from the table below and the files present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
from levels import PROOF, OTHER, NA   # id -> note
checks, na = [], []
lv = {}
for p in props:
    i = p["id"]
    if i in NA or i not in {**PROOF, **OTHER}:
        na.append({"property": i, "reason": NA.get(i, "no check yet")}); continue
    lv[i] = "proof" if i in PROOF else "other"
    checks.append({"property": i, "quick_cmd": f"python3 check.py --property {i}", "thorough_cmd": f"python3 check.py --property {i}",
                   "technique": "deductive verification of contracts on the functions parsed from /repo (symbolic execution, exact loop summaries, SMT)"
                                if i in PROOF else "deductive contracts on part of the functions; labelled bounded stand-in for the rest",
                   "level": lv[i], "level_note": {**PROOF, **OTHER}[i]})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. See DESIGN.md."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
json.dump(lv, open(os.path.join(H, "levels.json"), "w"), indent=0)
print(len(checks), "checks,", len(na), "not claimed")
