#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, checks/registry.py, known-findings.txt, seeded/*/meta.json and the notes here."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import registry  # noqa: E402

INTRO = open(os.path.join(V, "tools", "design-intro.md")).read()
NOTES = {}
cur = None
for l in open(os.path.join(V, "tools", "design-notes.md")):
    if l.startswith("## "):
        cur = l[3:].strip()
        NOTES[cur] = ""
    elif cur:
        NOTES[cur] += l
found = {}
for l in open(os.path.join(V, "known-findings.txt")):
    if l.startswith(("fixed:", "known:")):
        p = l.split("property=")[1].split()[0]
        found.setdefault(p, []).append(l.split("property=")[1].split(None, 1)[1].strip())
seeds = {}
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    seeds.setdefault(m["property"], []).append((s, m))
catches = {}
cf = os.path.join(V, "tools", "catches.txt")
if os.path.exists(cf):
    for l in open(cf):
        w = l.split(None, 2)
        if len(w) > 1:
            catches[w[0]] = (w[1], w[2].strip() if len(w) > 2 else "")

out = [INTRO.rstrip(), "\n## Properties\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    o = json.loads(l)
    p = o["id"]
    out.append(f"### {p} {o['title']}\n\n{o['statement']}\n")
    d = registry.PROPS.get(p)
    if not d:
        out.append("Not claimed: " + registry.NOT_APPLICABLE.get(p, "no check yet") + "\n")
        continue
    hs = []
    for g in d["groups"]:
        t = f"{g['pkg']}.{g['fn']}" + (f" ({g['variant']})" if g.get("variant") else "")
        if t not in hs:
            hs.append(t)
    out.append("*Decided by* " + ", ".join(hs) + ". " + NOTES.get(p, "").strip() + "\n")
    out.append("*Bounds:* " + d["bounds"] + ".\n")
    if d.get("outside"):
        out.append("*Outside:* " + d["outside"] + ".\n")
    if found.get(p):
        out.append("*Defects found and repaired:* " + "; ".join(f"{x.split(None, 1)[1]} ({x.split(None, 1)[0]})" for x in found[p]) + ".\n")
    if seeds.get(p):
        out.append("*Planted:* " + "; ".join(f"{s} ({m['what_it_breaks']}; needs {m['needs']}): {catches.get(s, ('not run', ''))[0]}" for s, m in seeds[p]) + ".\n")
out.append(open(os.path.join(V, "tools", "design-end.md")).read().rstrip() + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
