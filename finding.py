"""Hand tool: python3 finding.py <ID> <commit> <what failed>  (records a repaired defect)"""
import json, sys
k = json.load(open("/verif/KNOWN_FINDINGS.json"))
p, c, t = sys.argv[1:4]
k["findings"].append({"property": p, "status": "fixed", "entry": f"fixed: property={p} {c} {t}"})
json.dump(k, open("/verif/KNOWN_FINDINGS.json", "w"), indent=1)
