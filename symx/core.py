"""Path exploration: re-execution with a decision trail on top of one incremental z3 solver."""

import time
import z3

class Steering(BaseException):
    """Base of the exceptions that steer exploration; code under test must not handle them."""

class PathAbort(Steering):
    """The current path is infeasible (an assumption does not hold)."""

class CheckFailed(Steering):
    """A property assertion is violated on the current path."""
    def __init__(self, label, detail=""):
        super().__init__(label, detail)
        self.label, self.detail = label, detail

class BudgetExceeded(Steering):
    """A bound of the exploration (time, paths, decisions) was hit: the run is inconclusive."""

class Nondeterminism(Steering):
    """Re-execution diverged from the recorded trail: an engine error."""

E = None            # the engine of the current exploration (None: concrete mode)

def engine():
    return E

class Decision:
    __slots__ = ("kind", "val", "alt", "pushed", "alt_model", "expr", "key", "big")
    def __init__(self, kind, val, alt, pushed, alt_model, expr, key):
        self.kind, self.val, self.alt, self.pushed = kind, val, alt, pushed
        self.alt_model, self.expr, self.key = alt_model, expr, key
        self.big = False

def mentions(e, names):
    """Does the term contain one of the named variables?"""
    todo, seen = [e], set()
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names: return True
        else:
            todo.extend(t.children())
    return False

UNWIND = 12     # loops over content of unbounded size: at most this many forks on its length per path

_Z_TRUE = z3.BoolVal(True)

class Engine:
    def __init__(self, deadline=None, max_decisions=6000, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.trail = []
        self.pos = 0
        self.model = None
        self.deadline = deadline
        self.max_decisions = max_decisions
        # statistics
        self.queries = self.q_sat = self.q_unsat = self.q_unknown = 0
        self.solver_time = 0.0
        self.paths = self.aborted = 0
        self.big_vars = set()   # lengths of opaque contents
        self.unwound = 0        # paths cut at the unwinding bound
        self.transitions = 0
        self.concretisations = {}
        self.trivial = self.asserted = 0
        self.fail_pushed = False
        self.failed = None      # pending steering exception (if code under test swallowed it)
        self.reset_path()

    # -- per path state ---------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.fresh_n = 0
        self.cache = {}
        self.failed = None
        self.path_id = getattr(self, "path_id", 0) + 1

    def check_pending(self):
        if self.failed is not None:
            raise self.failed

    def steer(self, exc):
        if self.failed is None:
            self.failed = exc
        raise exc

    # -- solver -----------------------------------------------------------
    def _query(self, *assumption):
        t = time.perf_counter()
        r = self.solver.check(*assumption)
        self.solver_time += time.perf_counter() - t
        self.queries += 1
        if r == z3.sat:
            self.q_sat += 1
        elif r == z3.unsat:
            self.q_unsat += 1
        else:
            self.q_unknown += 1
        return r

    def _get_model(self):
        if self.model is None:
            r = self._query()
            if r == z3.unsat:
                self.steer(PathAbort())
            if r != z3.sat:
                self.steer(BudgetExceeded("solver returned unknown"))
            self.model = self.solver.model()
        return self.model

    def _tick(self):
        self.check_pending()
        if self.deadline is not None and time.time() > self.deadline:
            self.steer(BudgetExceeded("deadline"))
        if len(self.trail) > self.max_decisions:
            self.steer(BudgetExceeded("too many decisions on one path"))

    def branch(self, e):
        """Decide the boolean term e on this path, forking when both values are feasible."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.check_pending()
        key = e.hash()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "b" or d.key != key:
                self.steer(Nondeterminism(f"expected {d.kind} {d.expr}, got branch {e}"))
            self.pos += 1
            return d.val
        self._tick()
        self.transitions += 1
        m = self._get_model()
        v = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if v else e
        self.solver.push()
        self.solver.add(other)
        r = self._query()
        alt, alt_model = False, None
        if r == z3.sat:
            alt, alt_model = True, self.solver.model()
        elif r != z3.unsat:
            self.solver.pop()
            self.steer(BudgetExceeded("solver returned unknown"))
        self.solver.pop()
        big = alt and bool(self.big_vars) and mentions(e, self.big_vars)
        if big and sum(1 for d in self.trail if d.big) >= UNWIND:
            self.unwound += 1
            self.steer(PathAbort())
        pushed = alt
        if pushed:
            self.solver.push()
            self.solver.add(e if v else z3.Not(e))
        self.trail.append(Decision("b", v, alt, pushed, alt_model, e, key))
        self.trail[-1].big = big
        self.pos += 1
        return v

    def assume(self, e):
        """Constrain the path with e; the path is dropped when e cannot hold."""
        if z3.is_true(e):
            return
        self.check_pending()
        key = e.hash()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "a" or d.key != key:
                self.steer(Nondeterminism(f"expected {d.kind} {d.expr}, got assume {e}"))
            self.pos += 1
            if d.val is False:
                self.steer(PathAbort())
            return
        self._tick()
        self.solver.push()
        self.solver.add(e)
        val = True
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            r = self._query()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                val = False
            else:
                self.steer(BudgetExceeded("solver returned unknown"))
        self.trail.append(Decision("a", val, False, True, None, e, key))
        self.pos += 1
        if not val:
            self.steer(PathAbort())

    def define(self, e):
        """Add a definitional constraint on fresh variables (always satisfiable by construction)."""
        self.assume(e)

    def fresh(self, prefix):
        self.fresh_n += 1
        return z3.Int(f"{prefix}!{self.fresh_n}")

    def feasible(self, e):
        """Is e satisfiable on this path? (no fork)"""
        self.check_pending()
        self.solver.push()
        self.solver.add(e)
        r = self._query()
        self.solver.pop()
        return r == z3.sat

    def pick(self, e, why):
        """Incomplete concretisation of the integer term e (recorded in the evidence)."""
        v = self._get_model_for_pick(e)
        if self.pos >= len(self.trail):
            self.concretisations[why] = self.concretisations.get(why, 0) + 1
        self.assume(e == v)
        return v

    def _get_model_for_pick(self, e):
        # On replay the value is recovered from the recorded assume entry.
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind == "a" and d.expr is not None and z3.is_eq(d.expr):
                return d.expr.arg(1).as_long()
            self.steer(Nondeterminism("pick"))
        return self._get_model().eval(e, model_completion=True).as_long()

    def enum(self, e, limit, why):
        """Complete concretisation: fork over every feasible value of e (up to limit, then pick)."""
        n = 0
        while True:
            self.check_pending()
            if n >= limit:
                return self.pick(e, why)
            if self.pos < len(self.trail):
                d = self.trail[self.pos]
                if d.kind != "b" or not z3.is_eq(d.expr):
                    self.steer(Nondeterminism("enum"))
                v = d.expr.arg(1).as_long()
            else:
                v = self._get_model().eval(e, model_completion=True).as_long()
            if self.branch(e == v):
                return v
            n += 1

    # -- exploration ------------------------------------------------------
    def backtrack(self):
        """Move to the next unexplored path. Returns False when the tree is exhausted."""
        while self.trail:
            d = self.trail.pop()
            if d.pushed:
                self.solver.pop()
            if d.kind == "b" and d.alt:
                nv = not d.val
                self.solver.push()
                self.solver.add(d.expr if nv else z3.Not(d.expr))
                self.trail.append(Decision("b", nv, False, True, None, d.expr, d.key))
                self.trail[-1].big = d.big
                self.model = d.alt_model
                return True
        return False
