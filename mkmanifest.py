#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run after changing which properties are claimed)."""
import json, os
from checks import CHECKS, NOT_APPLICABLE
R = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 check.py %s --tier quick" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": CHECKS[p].get("technique", "bounded symbolic execution of the crate's LLVM IR, assertions decided by Z3, counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": "For every value within these bounds: " + CHECKS[p]["bounds"] + ". Outside: " + CHECKS[p]["outside"] + ". Trusted: rustc's LLVM IR, the irsym interpreter (cross-checked on native runs in every check), Z3.",
        }
        for p in ids
        if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet: its harness is still being built")} for p in ids if p not in CHECKS],
    "notes": "No hooks in /repo: the harness crate reaches everything through the public API. See DESIGN.md.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
