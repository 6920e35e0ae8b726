"""Writes MANIFEST.json from the check modules that exist (checks/cNN.py) and properties.jsonl."""
import ast, json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    f = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet (being built)")})
        continue
    tree = ast.parse(open(f).read())
    vals = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "RULE", "ASSUMPTIONS", "NOTE"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} --tier quick",
        "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": vals["TECHNIQUE"],
        "level": vals["LEVEL"],
        "level_note": vals.get("NOTE") or ("Exhaustive within the stated bounds on the real code: " + vals["RULE"] + ". Assumes: " + "; ".join(vals.get("ASSUMPTIONS", ["nothing beyond the interpreter and libraries"]))),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses import the working tree of /repo directly; see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
