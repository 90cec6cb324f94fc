#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, props.py, the rules' docstrings, seeded/ and known_findings.json."""
import ast, glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS, NOT
na = dict(NOT)
known = json.load(open(os.path.join(HERE, "known_findings.json")))
seeds = {}
for m in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
extra = json.load(open(os.path.join(HERE, "design/bounds.json")))
out = [open(os.path.join(HERE, "design/head.md")).read()]
for p in PROPS:
    i = p["id"]
    if i in na:
        continue
    out.append("### %s  %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    doc = ast.get_docstring(ast.parse(open(os.path.join(HERE, "rules", i + ".py")).read()))
    out.append("*Decided by* " + p["technique"] + ".\n")
    out.append("*What is analysed, and against what.* " + re.sub(r"\n+", " ", doc) + "\n")
    if i in extra:
        out.append("*Bounds and cost.* " + extra[i] + "\n")
    out.append("*Why tests cannot settle it.* " + p["why_tests_cant"] + " The analysis covers " + p["quantifier"]["text"] + ".\n")
    if p["note"]:
        out.append("*Limits.* " + p["note"] + "\n")
    out.append("*Anchors.* " + "; ".join("%s: %s" % (a["name"], a["where"]) for a in p["anchors"]["mechanism"]) + ".\n")
    fx = [x for x in known["fixed"] if "property=" + i + " " in x]
    if fx:
        out.append("*Found and repaired.*\n\n" + "\n".join("- %s" % x.split(" ", 2)[2] for x in fx) + "\n")
    if i in seeds:
        out.append("*Planted bugs caught.*\n\n" + "\n".join("- `%s`: %s (needs %s)" % (n, d["what_it_breaks"], d["needs"]) for n, d in seeds[i]) + "\n")
out.append("## Not applicable\n")
for p in PROPS:
    if p["id"] in na:
        out.append("### %s  %s\n\n%s\n\n%s\n" % (p["id"], p["title"], p["statement"], na[p["id"]]))
        fx = [x for x in known["fixed"] if "property=" + p["id"] + " " in x]
        if fx:
            out.append("Found by reading and repaired all the same:\n\n" + "\n".join("- %s" % x.split(" ", 2)[2] for x in fx) + "\n")
out.append(open(os.path.join(HERE, "design/tail.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
