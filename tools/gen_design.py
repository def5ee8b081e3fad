#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + bounds of every run from harness/props.py + tools/design_tail.md"""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/harness")
import props
P = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
HOW = eval(open(V + "/tools/design_how.py").read())
o = [open(V + "/tools/design_head.md").read()]
for k in sorted(props.PROPS):
    d = props.PROPS[k]; o.append("### %s – %s\n" % (k, P[k]["title"])); o.append(HOW[k].strip() + "\n")
    o.append("Assumptions: " + "; ".join(d["assumptions"]) + ".  \nOutside: " + d["outside"] + ".\n")
    h = {}
    for r in d["runs"]: h.setdefault(r["harness"], []).append(r)
    for n, rs in h.items():
        q = ["%s (%s)" % (r["name"], r.get("bounds", "")) for r in rs if not r.get("thorough_only")]; t = ["%s (%s)" % (r["name"], r.get("bounds", "")) for r in rs if r.get("thorough_only")]
        if q: o.append("* `%s`: " % n + "; ".join(q))
        if t: o.append("* `%s`, thorough only: " % n + "; ".join(t))
    o.append("")
o.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(o))
