"""regenerates DESIGN.md from tools/design_head.md, the checks' own descriptions, seeded/*/meta.json and tools/design_tail.md"""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    P[p["id"]] = p
NA = {n["property"]: n["reason"] for n in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
out = [open(V + "/tools/design_head.md").read(), "## 2. The properties\n"]
WHY = json.load(open(V + "/tools/why.json")) if os.path.exists(V + "/tools/why.json") else {}
for pid in sorted(P):
    out.append("### %s — %s\n" % (pid, P[pid]["title"]))
    fs = glob.glob(V + "/checks/p%s_*.py" % pid[1:])
    if not fs:
        out.append("Not claimed: %s.\n" % NA.get(pid, "not built"))
        continue
    d = {}
    for n in ast.parse(open(fs[0]).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "EXPLAIN", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    out.append("*Decided* (`%s`): %s\n\n*Bounds:* %s.\n\n*Assumed:* %s.\n" % (os.path.relpath(fs[0], V), d["EXPLAIN"], d["BOUNDS"].rstrip("."), "; ".join(d["ASSUMPTIONS"])))
    if pid in WHY:
        out.append("*Beyond the tests:* %s\n" % WHY[pid])
out.append("## 3. Planted changes (`seeded/`)\n")
out.append("Each was written from the property and the code, confirmed to build, to pass the repository's stable tests and to fail its demonstration "
           "(`tools/mkseed.py`, `tools/tryseed.sh`).\n")
out.append("| change | what it breaks | needs | caught by |\n|---|---|---|---|")
C = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    out.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], C.get(i, m["property"])))
out.append("")
out.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
