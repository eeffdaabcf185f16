#!/usr/bin/env python3
"""Writes MANIFEST.json from vt/checks.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vt.checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NOTE_PROOF = "contracts on the real functions, every obligation discharged for all inputs; see DESIGN.md for what is assumed"
NOTE_EXP = "no contract within reach yet; concrete cases against an independent reference, bounded, not counted as proved"
NOTE_MIX = "the functions named in the evidence are under contract and proved for all inputs; the whole property is decided by concrete cases against an independent reference, bounded, not counted as proved"
checks = []
for p in props:
    if p not in CHECKS: continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
        technique=c.get("technique", "contract-based deductive verification (C++ translated to WhyML, Why3 with z3 and cvc5)" if c.get("units") else "bounded stand-in: generated cases against a reference, labelled bounded"),
        level=c["level"], level_note=c.get("note", NOTE_PROOF if c["level"] == "proof" else NOTE_MIX if c.get("units") else NOTE_EXP)))
m = dict(version=1, setup_cmd="python3 -c 'import vt.checks'", hooks=dict(guard="none", enable="no hooks: the checks read /repo/src as it is", source_commits=[]),
    checks=checks, not_applicable=[dict(property=p, reason="no check yet") for p in props if p not in CHECKS],
    notes="python3 check.py <property> <quick|thorough>; specs/ holds the contracts, vt/ the translator and the driver, harness/ the concrete references")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
