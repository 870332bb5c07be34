#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The table below is the source; the jsonl is the committed product."""
import json, os, sys
P = []
C, NA = [], []
NOTE = "Static: every execution path of the analysed functions, over-approximated on the type-checked SSA form of the current source; trusts the Go compiler's SSA construction, PostgreSQL's transaction semantics and the rule set listed in the evidence. Does not bound runtime quantities."
def check(id, technique, note=""):
    C.append({"property": id, "quick_cmd": "bash check.sh " + id, "thorough_cmd": "bash check.sh " + id,
              "technique": technique, "level": "other", "level_note": (note + " " if note else "") + NOTE})
def na(id, reason):
    NA.append({"property": id, "reason": reason})
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "props_table.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
cids, nids = [c["property"] for c in C], [c["property"] for c in NA]
assert sorted(cids + nids) == sorted(ids), (set(ids) ^ set(cids + nids))
m = {"version": 1, "setup_cmd": "bash check.sh --setup", "checks": C, "not_applicable": NA,
     "notes": "One analyzer (analyzer/, Go, golang.org/x/tools SSA, vendored) decides every property from /repo's current source; no hooks in /repo are needed."}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(C), "checks", len(NA), "n/a")
print(len(P), "properties")
