#!/usr/bin/env python3
"""Writes MANIFEST.json: what is claimed, and why the rest is not."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = "a function of the text alone: no scheduling, time, I/O, storage, peer or fault enters it, so deterministic simulation has nothing to vary; deciding it means comparing trees with an independent grammar, which is another technique. "
NA = {
 "C12": PURE + "(The simulated sessions of C03, C04 and C10 use many of these forms, but do not decide precedence or tree shape.)",
 "C13": PURE + "(Literal values are only compared between executions of the same parser.)",
 "C14": PURE + "(String contents are only compared between executions of the same parser.)",
 "C15": PURE + "(Only positions of names, in C10, and of errors, in C01 and C02, are judged.)",
 "C16": PURE + "(Incomplete texts, which depend on where a delivery stops, are C03.)",
}
TECH = "deterministic simulation with fault injection"
C = json.load(open(os.path.join(root, "tools/claims.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    if i in C:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH + ": " + C[i][0],
                       "level": C[i][1], "level_note": C[i][2]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na,
     "notes": "One simulator (sim/) and one simulated operating system seam (shim/simos.c) serve all checks. No hooks were needed in /repo: the parser's seams are its arguments, the context trait, the allocator, the C library and compiler-inserted edge callbacks. ./check --replay FILE replays a violation."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
