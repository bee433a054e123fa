#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--job REGEX]
Decides one property of /repo's current working tree by symbolic execution.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer (error)."""
import importlib, json, os, re, sys, time
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from symx import runner
import registry

def load_findings():
    f = os.path.join(HERE, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    a = sys.argv[2:]
    while a:
        k = a.pop(0)
        if k == "--tier": tier = a.pop(0)
        elif k == "--job": only = a.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    budget = registry.BUDGET[tier]
    deadline = t0 + budget
    modname = registry.CHECKS[prop]["module"]
    runner.setup_paths(instrumented=True)
    mod = importlib.import_module(modname)
    jobs = mod.jobs(prop, tier)
    if only:
        jobs = [j for j in jobs if re.search(only, j["name"])]
    n_wit = max(1, registry.WITNESSES[tier] // max(1, len(jobs)))
    results = runner.run_jobs(modname, jobs, prop, tier, seed, deadline, n_wit)
    byname = {j["name"]: j for j in jobs}
    def case(r, inputs):
        j = byname[r["job"]]
        return {"module": modname, "fn": j["fn"], "params": j.get("params", {}), "prop": prop, "tier": tier, "job": r["job"], "inputs": inputs}
    errors = [f"{r['job']}: {r['inconclusive']}" for r in results if r["inconclusive"]]
    # replay counterexamples and sampled path witnesses on the un-instrumented code
    viol = [(r, v) for r in results for v in r["violations"]]
    wit = [(r, w) for r in results for w in r["witnesses"]]
    cases = [case(r, v["inputs"]) for r, v in viol] + [case(r, w["inputs"]) for r, w in wit]
    confirmed, validated, samples = [], 0, []
    if cases:
        try:
            outs = runner.replay_cases(cases, timeout=max(60, 860 - (time.time() - t0)) if tier == "quick" else 3600)
        except Exception as e:
            errors.append(f"replay: {e}")
            outs = []
        for (r, v), c, o in zip(viol, cases, outs):
            if o["label"] and mod_wants(o["label"], prop):
                confirmed.append((r, v, c, o))
            else:
                errors.append(f"counterexample of {r['job']} ({v['label']}: {v['detail'][:300]}) does not reproduce on the real code: {o['error'] or 'no violation'}; inputs {json.dumps(v['inputs'])[:500]}")
        for (r, w), c, o in zip(wit, cases[len(viol):], outs[len(viol):]):
            if o["label"]:
                # the symbolic run did not see it: a real violation all the same, but the engine is unsound here
                confirmed.append((r, {"label": o["label"], "inputs": c["inputs"], "detail": o["detail"]}, c, o))
                continue
            if o["error"] or o["obs"] != w["obs"]:
                errors.append(f"path witness of {r['job']} behaves differently on the real code: {o['error'] or ''} symbolic {json.dumps(w['obs'])[:400]} real {json.dumps(o['obs'])[:400]} inputs {json.dumps(c['inputs'])[:300]}")
                continue
            validated += 1
            if len(samples) < 4:
                samples.append({"job": r["job"], "inputs": c["inputs"], "observed": o["obs"][:12]})
    # report
    known, new = [], []
    findings = [f for f in load_findings() if f.get("status") == "known" and f["property"] == prop]
    for t in confirmed:
        r, v, c, o = t
        hit = next((f for f in findings if re.search(f["job"], r["job"]) and re.search(f["label"], o["label"]) and re.search(f.get("detail", ""), o["detail"])), None)
        (known if hit else new).append((t, hit))
    for f in findings:
        if any(h is f for _, h in known):
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, old))
    for i, ((r, v, c, o), _) in enumerate(new):
        path = os.path.join(rdir, f"{prop}-{i}.json")
        json.dump(dict(c, label=o["label"], detail=o["detail"]), open(path, "w"), indent=1)
        if i < 5:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  job {r['job']}: {o['label']}: {o['detail'][:600]}")
            print(f"  inputs: {json.dumps(v['inputs'])[:600]}")
    tot = lambda k: sum(r[k] for r in results)
    conc = {}
    labels = {}
    for r in results:
        for k, n in r["concretisations"].items():
            conc[k] = conc.get(k, 0) + n
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
    spec = registry.CHECKS[prop]
    vac = [l for l in getattr(mod, "EXPECT", {}).get(prop, []) if not labels.get(l)]
    if vac and not only and not new:
        errors.append(f"assertions never reached (vacuous): {vac}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "coverage": {
              "states": tot("paths"), "transitions": tot("transitions"), "traces_validated_against_impl": validated, "samples": samples,
              "exhaustive": all(r["exhausted"] for r in results) and not conc and not tot("unwound"),
              "technique": "symbolic execution of the current source of /repo with z3 (every path within the bounds; assertions discharged by the solver)",
              "jobs": [{"job": r["job"], "paths": r["paths"], "queries": r["queries"], "solver_s": round(r["solver_time"], 2), "wall_s": round(r["wall"], 2), "exhausted": r["exhausted"]} for r in results],
              "paths_infeasible": tot("aborted") - tot("unwound"), "paths_cut_at_unwinding_bound": tot("unwound"), "queries": tot("queries"), "queries_sat": tot("q_sat"), "queries_unsat": tot("q_unsat"), "queries_unknown": tot("q_unknown"),
              "solver_time_s": round(tot("solver_time"), 2), "assertions_discharged_by_solver": tot("asserted"), "assertions_decided_on_path": tot("trivial"),
              "assertion_labels": labels, "concretised": conc,
              "functions_encoded": sorted({f"{f}:{q}" for r in results for f, q in r["functions"] if "<lambda>" not in q and "<module>" not in q}),
              "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
              "outside_bounds": spec.get("outside", ""), "known_findings": [f["what"] for f in findings]},
          "assumptions": spec.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: jobs={len(results)} paths={tot('paths')} queries={tot('queries')} solver={tot('solver_time'):.1f}s wall={time.time()-t0:.1f}s validated={validated} labels={len(labels)} cut={tot('unwound')} violations={len(new)} concretised={conc}")
    for e in errors[:8]:
        print("ERROR:", e[:1500])
    if new:
        return 1
    return 2 if errors else 0

def mod_wants(label, prop):
    from symx.ctx import BaseCtx
    c = BaseCtx(); c.prop = prop
    return c.wants(label)

if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2        # no answer
    sys.exit(code)
