#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/props.py and properties.jsonl."""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/harness")
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []; na = []
for i in ids:
    P = props.PROPS.get(i)
    if P:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": P.get("technique", "symbolic execution of the real code's LLVM IR (symx) with z3 deciding every branch and assertion"),
            "level": "model_checking",
            "level_note": "Holds for every value of the symbolic inputs within the stated bounds: " + "; ".join(sorted({r["bounds"] for r in P["runs"] if r.get("bounds")})) + ". Outside: " + P.get("outside", "") + ". Assumes: " + "; ".join(P.get("assumptions", []))})
    else: na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses compile /repo's sources unchanged (clang -fno-access-control, model headers for MPI/PETSc/METIS/ifstream)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks,", len(na), "not claimed")
