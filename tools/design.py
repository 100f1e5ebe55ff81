#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md + one section per property + the planted bugs."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, technique, level="model_checking", note="", state=None,
         observe=None, claimed=True, na=None, thorough=True): P.append(locals())
exec(open(V + "/tools/props_data.py").read())
D = {}
cur = None
for l in open(V + "/tools/design_props.md"):
    if l.startswith("## "): cur = l[3:].strip(); D[cur] = ""
    elif cur: D[cur] += l
out = open(V + "/tools/design_head.md").read()
out += "\n## 4. Properties: how each is decided\n"
for p in P:
    out += "\n### %s %s\n" % (p["id"], p["title"])
    if not p["claimed"]: out += "Not applicable: %s\n" % p["na"]; continue
    out += "*Method.* %s.\n*Enumerated.* %s.\n*Beyond tests.* %s\n" % (p["technique"].rstrip("."), p["qtext"].rstrip("."), p["tests"])
    if D.get(p["id"], "").strip(): out += "*Details.* " + D[p["id"]].strip() + "\n"
out += "\n## 5. Planted bugs and the checks that catch them\n\n| id | property | breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"])
out += "\n" + open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
