#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        c = registry.CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick", "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
            "technique": "symbolic execution of the real Python source with z3 (all paths within bounds), counterexamples replayed on the un-instrumented code",
            "level": "model_checking",
            "level_note": "Exhaustive over all values within the stated bounds: " + (c["bounds"]["quick"] if isinstance(c["bounds"], dict) else c["bounds"]) + ". Outside: " + (c["outside"] or "-") + ". Trusts: " + "; ".join(c["assumptions"] or ["the symx engine and z3"])})
    else:
        na.append({"property": p, "reason": registry.NOT_APPLICABLE.get(p, "No check has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks instrument the source at import time", "source_commits": []}, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
