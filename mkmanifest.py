"""Write MANIFEST.json from the check modules (developer tool; the result is committed)"""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    path = os.path.join(here, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": p["id"], "reason": "not built yet"})
        continue
    tree = ast.parse(open(path).read())
    c = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                c[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({"property": p["id"], "quick_cmd": "/opt/venv/bin/python -m mc.run %s quick" % p["id"],
                   "thorough_cmd": "/opt/venv/bin/python -m mc.run %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": c["TECHNIQUE"], "level": c["LEVEL"], "level_note": c["NOTE"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing,
     "notes": "No hooks: the checks import the working tree of /repo/src/legwork through a scratch symlink overlay "
              "and use its public interface only."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
