#!/opt/veriftools/pyvenv/bin/python3
"""Replays a counterexample file on the real (un-instrumented) code in /repo:  replay.py FILE.json
Exit status 1 when the property is violated, 0 when it is not."""
import json, os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner
runner.setup_paths(instrumented=False)
def main():
    if sys.argv[1] == "--batch":
        cases = json.load(open(sys.argv[2]))
        json.dump([runner.replay_one(c) for c in cases], open(sys.argv[3], "w"))
        return 0
    case = json.load(open(sys.argv[1]))
    r = runner.replay_one(case)
    print(json.dumps({"property": case["prop"], "job": case["job"], "inputs": case["inputs"], "outcome": r}, indent=1))
    return 1 if r["label"] else 0
if __name__ == "__main__":
    sys.exit(main())
