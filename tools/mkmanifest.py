#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties, the checks that exist and the reasons for what is not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(100000)
from sa.specs.index import CHECKS, TECH, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
VN = "abstract interpretation of the MIR (gated value numbering, loop recurrences solved), summary compared with the specification by normal form and random interpretation"
NOTE = ("Decided from the type-checked MIR of /repo's current tree on every run. Trusted: the compiler's MIR, the models of library calls (arkworks, std, "
        "rayon, rand, network primitives), and that differing terms are told apart by the random interpretations used; run-time sizes are covered by symbolic "
        "summaries, which the specification inspects at the instances named in the evidence. Constructs the analysis cannot interpret are reported as undecided in the evidence, not as violations.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = TECH.get(i, (VN, NOTE))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "other", "level_note": note or NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash tools/dump.sh || true; bash tools/dump.sh full || true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the machinery reads /repo's source through the compiler and needs no change to it. The fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
