#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, crate, technique, note, level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, crate=crate,
                  technique=technique, note=note, level=level, na=na))

M = "rust/pact_models/src/"
exec(open(os.path.join(R, "tools", "props_list.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for fl in p["files"]: assert os.path.exists("/repo/" + fl), fl
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
  "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s %s" % (p["crate"], p["id"]),
     "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s %s" % (p["crate"], p["id"]),
     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if not p["na"]],
  "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
with open(os.path.join(R, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(P), "properties")
