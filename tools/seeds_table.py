#!/usr/bin/env python3
"""rewrites tools/seeds_table.md from seeded/*/meta.json (used by gen_design.py)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{d}/meta.json')); rows.append((m['property'], d, m['what_it_breaks'].replace('|', '/')))
rows.sort()
s = "\n| seed | property whose check catches it | breaks |\n|---|---|---|\n" + "".join(f"| {d} | {p} | {w} |\n" for p, d, w in rows)
s += "\nC11 and C23 missed theirs at first (tree-fixed-stack, solve-early-out); deep trees and limit events were added for them.\n"
open(H + '/tools/seeds_table.md', 'w').write(s)
