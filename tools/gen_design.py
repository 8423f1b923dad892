#!/usr/bin/env python3
"""assembles DESIGN.md from design_head.md, the plan (bounds), design_how.txt (per property) and design_tail.md"""
import os, sys, json, re
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, V + "/bin")
from plan import PLAN
how = {}
for blk in re.split(r"\n(?=P\d\d\|)", open(H + "/design_how.txt").read().strip()):
    pid, cost, txt = blk.split("|", 2); how[pid] = (cost.strip(), txt.strip())
o = open(H + "/design_head.md").read()
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; c, t = how[i]
    hs = sorted({h for h, _ in PLAN[i]["harness"]})
    o += "\n### %s %s\n\n%s\n\n*Harness*: %s (%s). *Bounds*: %s" % (i, p["title"], t, ", ".join("`harness/%s.c`" % h for h in hs), ", ".join(sorted({f for _, f in PLAN[i]["harness"]})), PLAN[i]["bounds"])
    a = [x for x in PLAN[i]["assumptions"] if not x.startswith(("gcc and", "the reference model"))]
    if a: o += " *Not claimed / assumed*: " + "; ".join(a) + "."
    o += " *Cost*: %s.\n" % c
t = open(H + "/design_tail.md").read()
rows = "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
caught = dict(l.split(None, 1) for l in open(H + "/seed_results.txt")) if os.path.exists(H + "/seed_results.txt") else {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d)); rows += "| %s | %s | %s | %s | %s |\n" % (d, m["property"], m["what_it_breaks"], m["needs"], caught.get(d, "-").strip())
o += "\n" + t.replace("@SEEDS@", rows)
open(V + "/DESIGN.md", "w").write(o)
