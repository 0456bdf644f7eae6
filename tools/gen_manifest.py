#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.dirname(__file__) + "/../properties.jsonl")]
na = dict(NOT_APPLICABLE)
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[
    dict(property=i, quick_cmd="python3 run.py check " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py check " + i,
         evidence_file="evidence/%s.json" % i, technique="symbolic execution of the real code (LLVM IR) with SMT-decided assertions (z3)",
         level="model_checking",
         level_note=CHECKS[i].get("note", "Every path of the harness within its bounds is explored by solver-decided branching, and each assertion is decided by the solver for all values on the path; the bounds, and which harnesses exhausted them in the tier run, are in the evidence. Nothing is claimed outside the bounds."))
    for i in ids if i in CHECKS],
    not_applicable=[dict(property=i, reason=na.get(i, "no check yet")) for i in ids if i not in CHECKS])
json.dump(m, open(os.path.dirname(__file__) + "/../MANIFEST.json", "w"), indent=1)
