#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects (fix: commits of /repo) and the recorded ones."""
import json, os, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = ["C06","C05","C07","C02","C08","C03","C03","C09","C06","C04","C10","C10","C15","C15","C15","C19","C19","C13","C13","C17","C22","C22","C20","C20","C21","C21","C23","C23","C08","C25","C24",
         "C32","C12","C11","C03","C29","C28","C27","C27","C28","C31","C31","C27","C27","C31"]
KNOWN = []      # {"status": "known", "property", "job": regex, "label": regex, "detail": regex, "what"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "4451ad5..HEAD"], capture_output=True, text=True, check=True).stdout.splitlines()
fixes = [l.split(" fix: ", 1) for l in log if " fix: " in l]
assert len(fixes) == len(PROPS), (len(fixes), len(PROPS))
out = [{"status": "fixed", "property": p, "commit": h, "entry": f"fixed: property={p} {h} {t}"} for p, (h, t) in zip(PROPS, fixes)]
with open(os.path.join(H, "known_findings.json"), "w") as f:
    json.dump(KNOWN + out, f, indent=1); f.write("\n")
