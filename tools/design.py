#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_data.py, the checks, known_findings.txt and seeded/."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path[:0] = [here, os.path.join(V, "checks")]; sys.dont_write_bytecode = True
P, NA, SETUP = [], {}, []
D = {}
exec(open(os.path.join(here, "design_data.py")).read(), D)
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    x = json.loads(l); i = x["id"]
    out.append("### %s %s" % (i, x["title"]))
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        c = importlib.import_module(i.lower()).CHECK
        out.append("- Generated and judged: %s" % (D["HOW"].get(i, "")))
        out.append("- Non-trivial: %s" % c.rule)
        if c.assumptions:
            out.append("- Bounds and assumptions: %s" % "; ".join(c.assumptions))
        out.append("- Why this reaches what tests cannot: %s" % x["why_tests_cant"])
    else:
        out.append("- " + D["HOW"].get(i, "No check yet."))
    out.append("")
find = []
for l in open(os.path.join(V, "known_findings.txt")):
    l = l.strip()
    if l.startswith("fixed:"):
        find.append("- repaired: " + l[7:])
    elif l.startswith("{"):
        k = json.loads(l); find.append("- open, %s: %s" % (k["id"], k["what"]))
seeds = ["| change | property | caught by | what it needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], D["CAUGHT"].get(s, m["property"]), m["needs"]))
t = open(os.path.join(here, "design_head.md")).read()
for k, v in (("PROPS", out), ("FINDINGS", find), ("SEEDS", seeds), ("NOTES", D["NOTES"])):
    t = t.replace("@@%s@@" % k, "\n".join(v))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
