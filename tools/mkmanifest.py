#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools")
from props import PROPS
NA = {
}
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append(dict(
            property=i,
            quick_cmd="python3 tools/check.py " + i,
            thorough_cmd="python3 tools/check.py " + i + " thorough",
            technique="symbolic execution of the compiled LLVM IR with z3, counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every input within the bounds: " + PROPS[i]["bounds"] + ". Nothing outside the bounds is claimed. Trusts rustc/LLVM, the executor in engine/ and z3; every explored path is replayed in the natively compiled code and has to agree."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness uses the public API only. Known and fixed findings: known_findings.txt. Design: DESIGN.md.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
