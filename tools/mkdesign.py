#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, the rule texts in analyzer/r_*.go, tools/props_table.py and seeded/*/meta.json."""
import re, os, json, glob, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
rules = {}
for f in sorted(glob.glob(root + "/analyzer/r_*.go")):
    for m in re.finditer(r'\breg\("(P\d+)", "((?:[^"\\]|\\.)*)"', open(f).read()):
        rules.setdefault(m[1], []).append(m[2].replace('\\"', '"'))
ns = {"P": [], "C": {}, "NA": {}}
def prop(id, title, statement, *a): ns["P"].append((id, title, statement, a))
def check(id, technique, note=""): ns["C"][id] = (technique, note)
def na(id, reason): ns["NA"][id] = reason
exec(open(here + "/props_table.py").read())
notes = {}
cur = None
for l in open(here + "/design_notes.md"):
    m = re.match(r"## (P\d+)", l)
    if m: cur = m[1]; notes[cur] = ""
    elif cur: notes[cur] += l
out = open(here + "/design_head.md").read().rstrip() + "\n\n## Properties and how each is decided\n\n"
for id, title, st, a in ns["P"]:
    if id in ns["NA"]: continue
    out += f"### {id} {title}\n\n*Quantified over:* {a[1]} *Out of reach of tests because:* {a[2]}\n\n"
    out += f"*Deciding method:* {ns['C'][id][0]}.\n\nRules (each violation names the construct):\n"
    for t in rules.get(id, []): out += f"- {t}\n"
    if notes.get(id, "").strip(): out += "\n" + notes[id].strip() + "\n"
    out += "\n"
out += "## Properties this family cannot decide here\n\n"
for id, title, st, a in ns["P"]:
    if id in ns["NA"]: out += f"- **{id} {title}**: {ns['NA'][id]}\n"
out += "\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
caught = json.load(open(here + "/caught.json")) if os.path.exists(here + "/caught.json") else {}
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out += f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |\n"
out += "\n" + open(here + "/design_tail.md").read()
open(root + "/DESIGN.md", "w").write(out)
