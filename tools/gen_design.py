#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one entry per property (from properties.jsonl, MANIFEST.json, the checks) + tools/design_tail.md"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
M = json.load(open(H + "/MANIFEST.json"))
C = {c["property"]: c for c in M["checks"]}
N = {c["property"]: c["reason"] for c in M["not_applicable"]}
COST = json.load(open(H + "/tools/cost.json"))
def modules(i):
    src = open(f"{H}/checks/{i.lower()}.py").read()
    ms = set(re.findall(r'"([A-Z][A-Za-z0-9]+)"', src)) | set(re.findall(r'"([A-Z][A-Za-z0-9-]+)\.cfg"', src))
    return sorted(m for m in ms if os.path.exists(f"{H}/specs/{m}.tla"))
def drivers(i):
    src = open(f"{H}/checks/{i.lower()}.py").read()
    return sorted(set(d for d in re.findall(r'"([a-z_0-9]+\.cpp)"', src) if os.path.exists(f"{H}/drivers/{d}")))
out = [open(H + "/tools/design_head.md").read(), "\n## Properties\n\nFor each: what is specified and enumerated, the oracle, the bounds, the cost of the quick check here (8 cores, idle machine).\n"]
for p in P:
    i = p["id"]
    out.append(f"\n### {i} {p['title']}\n\n")
    if i in C:
        t = C[i]["technique"].replace("TLA+ specification checked with TLC; ", "")
        out.append(f"*How*: {t}.\n*Oracle*: specs/{{{', '.join(modules(i))}}}.tla; drivers: {', '.join(drivers(i)) or 'see the check'}.\n"
                   f"*Bounds*: {C[i]['level_note']}\n*Cost*: about {COST.get(i, '?')} s.\n")
    else:
        out.append(f"Not claimed: {N[i]}\n")
out.append("\n" + open(H + "/tools/design_tail.md").read())
out.append(open(H + "/tools/seeds_table.md").read())
open(H + "/DESIGN.md", "w").write("".join(out))
