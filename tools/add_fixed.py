"""add_fixed.py ID PROPERTY COMMIT WHAT: record a repaired defect in known-findings.json"""
import json, sys
p = "/verif/known-findings.json"
k = json.load(open(p))
i, prop, c, what = sys.argv[1:5]
e = {"id": i, "status": "fixed", "property": prop, "entry": f"fixed: property={prop} {c} {what}", "commit": c, "what": what}
fs = [f for f in k["findings"] if f["id"] != i]
n = len([f for f in fs if f["status"] == "fixed"])
fs.insert(n, e)
k["findings"] = fs
json.dump(k, open(p, "w"), indent=1)
