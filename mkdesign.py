"""python3 mkdesign.py: DESIGN.md from design/, the checks' own descriptions, the planted bugs and trials/results.txt"""
import ast
import json
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
out = [open("design/intro.md").read().rstrip(), "", "## Properties", ""]
why = json.load(open("design/why.json"))
cost = json.load(open("design/cost.json")) if os.path.exists("design/cost.json") else {}
for line in open("properties.jsonl"):
    p = json.loads(line)
    tree = ast.parse(open("mc/checks/%s.py" % p["id"].lower()).read())
    doc = ast.get_docstring(tree).split("\n", 1)[1].strip()
    val = {n.targets[0].id: ast.literal_eval(n.value) for n in tree.body
           if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS", "TECHNIQUE", "NOTE")}
    out += ["### %s — %s" % (p["id"], p["title"]), "", doc, "",
            "* *Technique*: %s." % val["TECHNIQUE"].rstrip("."), "* *Bounds (quick)*: %s." % val["BOUNDS"]["quick"],
            "* *Bounds (thorough)*: %s." % val["BOUNDS"]["thorough"]]
    out += ["* *Assumption*: %s." % a for a in val.get("ASSUMPTIONS", [])]
    out += ["* *Beyond the tests*: " + why[p["id"]]]
    if p["id"] in cost:
        out += ["* *Cost*: " + cost[p["id"]]]
    out += [""]
out += ["## Properties the technique does not apply to", "", "None.", "", open("design/outro.md").read().rstrip(), ""]
out += ["## Planted bugs", "",
        "Each change in `seeded/` was written from a property's text and the code; the demonstrations pass on the current",
        "tree and fail with the change, the stable tests pass with it.  The quick check of the property named catches it",
        "unless stated.", "", "| planted change | property | what it breaks | caught |", "|---|---|---|---|"]
res = {}
if os.path.exists("trials/seeded.txt"):
    for line in open("trials/seeded.txt"):
        w = line.split()
        if len(w) > 1 and w[1] == "check":
            res[w[0]] = "yes" if "caught" in line else "no"
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], res.get(d, "")))
if os.path.exists("trials/results.txt"):
    lines = [x.split() for x in open("trials/results.txt") if x.strip()]
    last = {w[0]: w[1] for w in lines}
    missed = sorted(k for k, v in last.items() if v != "caught")
    out += ["", "### Trial bugs", "", "`trials/bugs.py` holds %d further trial changes; the property's own quick check catches %d of %d run." % (
        len(last), len(last) - len(missed), len(last)), ""]
    if missed:
        out += ["Not caught: " + ", ".join(missed) + ".", ""]
    if os.path.exists("design/missed.md"):
        out += [open("design/missed.md").read().rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
