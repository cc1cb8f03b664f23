#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
usage: tools/gen_docs.py [ID ...]   (IDs: the implemented properties; default all)"""
import json, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None,
         technique="property-based testing", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, state=state, observe=observe, technique=technique, note=note))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

ids = sys.argv[1:] or [p["id"] for p in P]
sel = [p for p in P if p["id"] in ids]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sel:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"],
                 "evidence_file": f"evidence/{p['id']}.json"} for p in sel],
     "not_applicable": [],
     "notes": "No hooks in /repo: every property is observable through the public API. Repairs of genuine defects are the commits of /repo whose message starts with 'fix:' (see known_findings.json)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
