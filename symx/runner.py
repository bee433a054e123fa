"""Runs the jobs of a check: symbolic exploration in parallel worker processes, then replay of
counterexamples and of sampled path witnesses on the un-instrumented code, then the evidence file."""

import gc
import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = os.path.join(REPO, "src")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"

def setup_paths(instrumented):
    """Make fora importable from /repo's working tree, instrumented or plain."""
    sys.dont_write_bytecode = True
    for p in (VERIF, SRC):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    if instrumented:
        from . import instr
        instr.install({"fora": SRC, "model": VERIF, "harness": VERIF, "difflib": os.path.dirname(os.__file__)})

# ---------------------------------------------------------------- functions executed

class FunctionTrace:
    """Records which functions of /repo were executed (cheap: one event per code object)."""
    def __init__(self):
        self.seen = set()
    def start(self):
        m = sys.monitoring
        self.tool = 3
        try:
            m.use_tool_id(self.tool, "symx")
        except ValueError:
            return
        def on_start(code, off):
            if code.co_filename.startswith(SRC):
                self.seen.add((os.path.relpath(code.co_filename, SRC), code.co_qualname))
            return m.DISABLE
        m.register_callback(self.tool, m.events.PY_START, on_start)
        m.set_events(self.tool, m.events.PY_START)

# ---------------------------------------------------------------- one symbolic job

def _classify(exc):
    """Where does an unexpected exception come from: the code under test or our own machinery?"""
    tb = exc.__traceback__
    last = None
    frames = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(SRC):
            last = "fora"
        elif fn.startswith(VERIF):
            if "/symx/" in fn:
                pass            # engine frames act on behalf of the caller
            else:
                last = "harness"
        frames.append(f"{fn}:{tb.tb_lineno}")
        tb = tb.tb_next
    return last, frames[-4:]

def run_job(modname, job, prop, tier, seed, deadline, witnesses):
    from . import core
    from .core import Engine, CheckFailed, PathAbort, BudgetExceeded, Nondeterminism
    from .ctx import SymCtx, HarnessError, plain
    from . import values as V
    trace = FunctionTrace()
    trace.start()
    t0 = time.time()
    res = {"job": job["name"], "violations": [], "witnesses": [], "labels": {}, "inconclusive": None, "exhausted": False}
    rnd = random.Random(f"{seed}:{job['name']}")
    E = Engine(deadline=deadline)
    core.E = E
    try:
        mod = importlib.import_module(modname)
        fn = getattr(mod, job["fn"])
        reservoir = []
        done = 0
        seen_viol = set()
        while True:
            E.reset_path()
            if (E.paths + E.aborted) % 250 == 249:
                gc.collect()
            ctx = SymCtx(E, prop, tier)
            failed = None
            try:
                try:
                    fn(ctx, **job.get("params", {}))
                finally:
                    if E.failed is not None:
                        raise E.failed
                E._get_model()
                E.paths += 1
                done += 1
                if witnesses:
                    # reservoir sampling of finished paths
                    slot = len(reservoir) if len(reservoir) < witnesses else rnd.randrange(done)
                    if slot < witnesses:
                        m = ctx.small_model()
                        w = {"inputs": ctx.dump_inputs(m), "obs": [[n, plain(V.evaluate(v, m))] for n, v in ctx.obs], "labels": dict(ctx.labels)}
                        if slot == len(reservoir):
                            reservoir.append(w)
                        else:
                            reservoir[slot] = w
            except PathAbort:
                E.aborted += 1
            except CheckFailed as e:
                failed = (e.label, str(e.detail))
            except BudgetExceeded as e:
                res["inconclusive"] = f"bound exceeded: {e.args[0]}"
            except Nondeterminism as e:
                res["inconclusive"] = f"nondeterministic re-execution: {str(e.args[0])[:300]}"
            except HarnessError as e:
                res["inconclusive"] = f"harness: {e}"
            except Exception as e:          # escaped from the code under test or from our machinery
                where, frames = _classify(e)
                text = f"{type(e).__name__}: {str(e)[:300]} at {' < '.join(reversed(frames))}"
                if where == "fora":
                    failed = ("unexpected-exception", text)
                else:
                    res["inconclusive"] = f"harness error: {text}"
            if failed is not None:
                E.paths += 1
                if failed[0] not in seen_viol:
                    seen_viol.add(failed[0])
                    try:
                        m = ctx.small_model()
                        res["violations"].append({"label": failed[0], "detail": failed[1], "inputs": ctx.dump_inputs(m)})
                    except BaseException as e:
                        res["inconclusive"] = f"counterexample extraction: {type(e).__name__} {e}"
            if E.fail_pushed:
                E.solver.pop()
                E.fail_pushed = False
            for k, n in ctx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + n
            if res["inconclusive"] or len(res["violations"]) >= 3:
                break
            if res["violations"] and time.time() > t0 + 60:
                break
            if not E.backtrack():
                res["exhausted"] = True
                break
        res["witnesses"] = reservoir
    except Exception as e:
        res["inconclusive"] = f"job failed: {type(e).__name__}: {e}: {traceback.format_exc()[-600:]}"
    core.E = None
    res.update(paths=E.paths, aborted=E.aborted, unwound=E.unwound, transitions=E.transitions, queries=E.queries, q_sat=E.q_sat, q_unsat=E.q_unsat, q_unknown=E.q_unknown,
               solver_time=E.solver_time, wall=time.time() - t0, asserted=E.asserted, trivial=E.trivial, concretisations=E.concretisations,
               functions=sorted(list(f) for f in trace.seen))
    return res

def _worker(conn, *args):
    gc.disable()
    gc.freeze()
    try:
        r = run_job(*args)
    except BaseException as e:
        r = {"job": args[1]["name"], "violations": [], "witnesses": [], "labels": {}, "inconclusive": f"worker: {type(e).__name__}: {e}", "exhausted": False,
             "paths": 0, "aborted": 0, "unwound": 0, "transitions": 0, "queries": 0, "q_sat": 0, "q_unsat": 0, "q_unknown": 0, "solver_time": 0, "wall": 0, "asserted": 0,
             "trivial": 0, "concretisations": {}, "functions": []}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)

def run_jobs(modname, jobs, prop, tier, seed, deadline, witnesses, procs=8):
    """Explore all jobs, each in its own forked process."""
    mp = multiprocessing.get_context("fork")
    pending = list(jobs)
    running, results = [], []
    sys.stdout.flush(); sys.stderr.flush()
    stop = False
    while pending or running:
        while pending and len(running) < procs and not stop:
            job = pending.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=_worker, args=(w, modname, job, prop, tier, seed, deadline, witnesses))
            p.start()
            w.close()
            running.append((p, r, job))
        if stop:
            pending = []
        import multiprocessing.connection as mc
        ready = mc.wait([r for _, r, _ in running], timeout=1.0)
        for t in list(running):
            p, r, job = t
            if r in ready:
                try:
                    res = r.recv()
                except EOFError:
                    res = {"job": job["name"], "violations": [], "witnesses": [], "labels": {}, "inconclusive": "worker died", "exhausted": False, "paths": 0,
                           "aborted": 0, "unwound": 0, "transitions": 0, "queries": 0, "q_sat": 0, "q_unsat": 0, "q_unknown": 0, "solver_time": 0, "wall": 0, "asserted": 0,
                           "trivial": 0, "concretisations": {}, "functions": []}
                p.join()
                running.remove(t)
                results.append(res)
                if os.environ.get("SYMX_VERBOSE") and (res["wall"] > 2 or res["violations"] or res["inconclusive"] or os.environ["SYMX_VERBOSE"] == "2"):
                    print(f"  {res['job']}: paths={res['paths']} queries={res['queries']} wall={res['wall']:.1f}s solver={res['solver_time']:.1f}s"
                          f"{' VIOL ' + res['violations'][0]['label'] + ' ' + res['violations'][0]['detail'][:300] if res['violations'] else ''}"
                          f"{' INCONCLUSIVE ' + res['inconclusive'] if res['inconclusive'] else ''} {res['concretisations'] or ''}", flush=True)
                if sum(1 for x in results if x["violations"]) >= 4:
                    stop = True
    results.sort(key=lambda r: r["job"])
    return results

# ---------------------------------------------------------------- replay

def replay_cases(cases, timeout=300):
    """Run cases on the un-instrumented code in a fresh interpreter."""
    import tempfile
    with tempfile.TemporaryDirectory(prefix="symx-replay-") as d:
        fin, fout = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(fin, "w") as f:
            json.dump(cases, f)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), "--batch", fin, fout], env=env, cwd=d, timeout=timeout,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or not os.path.exists(fout):
            raise RuntimeError(f"replay process failed ({p.returncode}): {p.stdout.decode(errors='replace')[-1500:]}")
        with open(fout) as f:
            return json.load(f)

def replay_one(case):
    """Executed in the replay interpreter. Returns the outcome of one case."""
    from .core import CheckFailed, PathAbort
    from .ctx import ConcreteCtx, HarnessError, plain
    mod = importlib.import_module(case["module"])
    ctx = ConcreteCtx(case["inputs"], case["prop"], case["tier"])
    out = {"label": None, "detail": "", "error": None}
    try:
        getattr(mod, case["fn"])(ctx, **case.get("params", {}))
    except CheckFailed as e:
        out["label"], out["detail"] = e.label, str(e.detail)
    except PathAbort:
        out["error"] = "assumption does not hold on replay"
    except HarnessError as e:
        out["error"] = f"harness: {e}"
    except Exception as e:
        where, frames = _classify(e)
        text = f"{type(e).__name__}: {str(e)[:300]} at {' < '.join(reversed(frames))}"
        if where == "fora":
            out["label"], out["detail"] = "unexpected-exception", text
        else:
            out["error"] = f"harness error: {text}"
    out["obs"] = [[n, plain(v)] for n, v in ctx.obs]
    out["labels"] = dict(ctx.labels)
    return out
