#!/usr/bin/env python3
"""bugs.py FILE: plants the bugs FILE describes (a list BUGS of dicts id, property, edits [(file, old, new)], needs, breaks, main) one by one."""
import json, os, subprocess, sys
R = "/repo/rust/"
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
for b in g["BUGS"]:
    if only and b["id"] not in only: continue
    print("==", b["id"], flush=True)
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    ok = True
    for f, old, new in b["edits"]:
        t = open(R + f).read()
        if t.count(old) != 1: print("  edit matches", t.count(old), "times:", f, old[:50]); ok = False; break
        open(R + f, "w").write(t.replace(old, new))
    if not ok:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."]); continue
    open(d + "/main.rs", "w").write(b["main"].lstrip())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["bash", "/verif/tools/plant.sh", b["id"]])
