"""addfix.py PROPERTY COMMIT WHAT: record a repaired defect (development)."""
import json, sys
f = "/verif/known_findings.json"; k = json.load(open(f)); p, c, w = sys.argv[1:4]
k.append({"property": p, "key": "fixed:" + c, "status": "fixed", "commit": c, "what": f"fixed: property={p} {c} {w}"}); json.dump(k, open(f, "w"), indent=1)
