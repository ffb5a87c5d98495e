#!/usr/bin/env python3
"""Assemble DESIGN.md."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
tech = json.load(open(here + "/techniques.json"))
out = [open(here + "/design_head.md").read()]
for p in props:
    t = tech.get(p["id"], tech["default"])
    out.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n\n"
               f"*Technique:* {t['technique']}.  *Cases and oracle:* {t['note']}\n\n"
               f"*Quantified over:* {p['quantifier']['text']}  *What the tests leave open:* {p['why_tests_cant']}\n\n")
mx = {}
if os.path.exists(here + "/matrix.json"): mx = json.load(open(here + "/matrix.json"))
out.append("## Planted bugs and the checks which catch them\n\n"
           "Each is in `seeded/<id>/` with a demonstration; all compile and pass the 79 stable tests.  "
           "The last column lists every check (of all 36, quick tier) which reports it.\n\n"
           "| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
for d in sorted(os.listdir(root + "/seeded")):
    m = root + f"/seeded/{d}/meta.json"
    if not os.path.exists(m): continue
    m = json.load(open(m))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {' '.join(mx.get(d, ['?'])) or '**none**'} |\n")
out.append(open(here + "/design_tail.md").read() if os.path.exists(here + "/design_tail.md") else "")
open(root + "/DESIGN.md", "w").write("".join(out))
