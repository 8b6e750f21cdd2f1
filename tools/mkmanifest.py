#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import props
import trusted
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in P:
    i = p["id"]
    pr = bool(props.PROPS[i]["units"])
    c = dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough")
    if pr:
        c["technique"] = "contract-based deductive verification: the functions are extracted from the current source with their contracts and every obligation is discharged by Verus/Z3; failing inputs are searched by running the real crate"
        c["level"] = "proof"
        c["level_note"] = trusted.NOTE.get(i, "") + " Assumes: " + "; ".join(trusted.base(i) + trusted.assumptions(i)) + ". If the extraction does not reach changed code, the run falls back to bounded checking of the real crate and says so in the evidence (level exploration)."
    else:
        c["technique"] = "bounded check against executable reference contracts on the real crate (stand-in, not counted as proved)"
        c["level"] = "exploration"
        c["level_note"] = "Bounded stand-in for functions not under a discharged contract: pseudo-random and structured inputs on the real crate against reference mathematics."
    checks.append(c)
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[],
         notes="No hooks in /repo are needed: private functions are read from the source text by the extraction. known_findings.txt lists the repaired defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
