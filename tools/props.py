#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, tests, files, mech, technique, level="model_checking",
         note="", state=None, observe=None, claimed=True, na=None, thorough=True):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files,
                  mech=mech, technique=technique, level=level, note=note, state=state, observe=observe,
                  claimed=claimed, na=na, thorough=thorough))

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")

m = {"version": 1,
     "setup_cmd": "make -s -j8 setup",
     "hooks": {"guard": "JUNGLE_VERIF_HOOKS", "enable": "no hooks are needed: checks compile /repo's sources as they are", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    if p["claimed"]:
        c = {"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"]}
        if p["thorough"]:
            c["thorough_cmd"] = "./check %s --tier thorough" % p["id"]
        c.update({"technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        m["checks"].append(c)
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
