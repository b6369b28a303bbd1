#!/usr/bin/env python3
"""writes MANIFEST.json from bounds.py and the list of properties"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bounds import BOUNDS, OUTSIDE, NOTE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in BOUNDS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check " + i,
        "thorough_cmd": "./check " + i + " --thorough",
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled LLVM IR of the real code, decided by Z3",
        "level": "model_checking",
        "level_note": ("Bounded: " + BOUNDS[i] + ". Outside: " + OUTSIDE[i] + ". " + NOTE.get(i, "")
                       + " Trusts rustc's IR as the meaning of the source, the symx executor with its term normaliser, and Z3; sampled paths and every counterexample are re-run natively.").replace(". . ", ". "),
    })
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in BOUNDS]
m = {
    "version": 1,
    "setup_cmd": "./check --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check builds the engine (symx), compiles /repo with the harness crate to LLVM IR and decides all entries named after its property. No hooks in /repo are needed: the harness uses the public API only.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
