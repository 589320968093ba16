#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md, the property list, the last evidence, the known findings and the planted bugs."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(*a, **k):
    n = ["id","title","statement","over","qtext","why","files","mech","crate","technique","note"]
    d = dict(zip(n, a)); d.update(k); d.setdefault("na", None); P.append(d)
M = "rust/pact_models/src/"
exec(open(os.path.join(R, "tools", "props_list.py")).read())
O = json.load(open(os.path.join(R, "tools", "oracles.json")))
out = []
for p in P:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if p["na"]: out.append("Not applicable: %s\n" % p["na"]); continue
    out.append("*Decided by*: %s (`harness/%s`). %s\n" % (p["technique"], p["crate"], O[i]["oracle"]))
    out.append("*Workload*: %s\n" % p["qtext"])
    try:
        e = json.load(open(os.path.join(R, "evidence", i + ".json"))); c = e["coverage"]
        ev = ", ".join("%s %d" % (k, v) for k, v in sorted(c["monitor_events"].items(), key=lambda x: -x[1])[:8])
        out.append("*Bounds and cost*: %s One quick run: %d executions, %d distinct, about %d s; observed: %s. Thorough repeats ten-fold rounds with fresh keys for a time budget.\n"
                   % (O[i].get("bounds", ""), c["evaluations"], c["distinct_nontrivial"], round(e["wall_s"]) or 1, ev))
    except OSError: pass
    out.append("*Beyond the tests*: %s\n" % p["why"])
kf = [l.rstrip() for l in open(os.path.join(R, "known_findings.jsonl")) if l.strip()]
op, fx = [], []
for l in kf:
    if l.startswith("fixed:"):
        q = l[len("fixed: property="):].split(" ", 2); fx.append("| %s | %s | %s |" % (q[0], q[1], q[2]))
    else:
        d = json.loads(l); op.append(d)
fi = "Repaired by `fix:` commits in /repo:\n\n| property | commit | what failed |\n|---|---|---|\n" + "\n".join(fx)
fi += "\n\nRecorded and not repaired (`known_findings.jsonl`):\n\n| property | key | what fails |\n|---|---|---|\n"
fi += "\n".join("| %s | %s | %s |" % (d.get("property"), d.get("signature") or "", d["what"]) for d in op)
bu = "| bug | property | needs | what it breaks | caught by |\n|---|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); b = os.path.basename(os.path.dirname(m))
    bu += "| %s | %s | %s | %s | %s |\n" % (b, d["property"], d["needs"], d["what_it_breaks"], O.get("caught", {}).get(b, d["property"]))
t = open(os.path.join(R, "tools", "design.in.md")).read()
t = t.replace("%PROPS%", "\n".join(out)).replace("%FINDINGS%", fi).replace("%BUGS%", bu)
open(os.path.join(R, "DESIGN.md"), "w").write(t)
print(len(P), "properties,", len(fx), "repaired,", len(op), "recorded")
