#!/usr/bin/python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
NA = {
    "C90": "computational indistinguishability quantifies over all efficient distinguishers; there is no state space to enumerate (C23 decides the exact function computed instead)",
    "C91": "AgreeOnTranscript, the step that identifies a cheater, is declared in check.h but not implemented, so there is no behaviour to explore; the soundness bound is over a 2^61 field",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    note = c.get("note") or "Exhaustive within the stated bounds on the real code; nothing is sampled. Trusts: " + "; ".join(c.get("assumptions", []) or ["the compiler and the reference model"]) + "."
    checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"], "level_note": note})
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "hooks": {"guard": "FRN_VERIF_HOOKS", "enable": "run.py compiles /repo/src with -DFRN_VERIF_HOOKS", "source_commits": ["d4dcff7"]},
     "checks": checks, "not_applicable": na,
     "notes": "run.py builds the harness of a property from /repo's working tree into .build/ and explores its space on all cores; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
