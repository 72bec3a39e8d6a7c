#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SIMNOTE = ("TLC runs the TLA+ model MC (Author writes a program tag by tag, Render executes it step by step), checking the model's own "
           "invariants on every state; every complete behaviour (program, data, expected output, faults and evaluations) is replayed into the "
           "real derive macro and run time, built from /repo's working tree, and must agree. Sampled behaviours (seeded), so not exhaustive; "
           "trusts that the specification says what the documentation means, the Rust compiler, and the harness crate.")
TECH = "TLA+ specification run by TLC; every behaviour replayed into the real code"
CHECKS = {}
for k in range(1, 15):
    CHECKS["C%02d" % k] = ("model_checking", TECH, SIMNOTE)
NOT_APPLICABLE = []


def main():
    extra = {}
    try:
        from manifest_extra import EXTRA, NA
        CHECKS.update(EXTRA)
        NOT_APPLICABLE.extend(NA)
    except ImportError:
        pass
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    na = [{"property": p, "reason": r} for p, r in NOT_APPLICABLE]
    for i in ids:
        if i not in CHECKS and i not in [n["property"] for n in na]:
            na.append({"property": i, "reason": "no check has been built yet"})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "checks": [{"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                     "evidence_file": "evidence/%s.json" % i, "technique": CHECKS[i][1], "level": CHECKS[i][0], "level_note": CHECKS[i][2]}
                    for i in ids if i in CHECKS],
         "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
