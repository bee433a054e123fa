"""The interface between harnesses and the two ways of running them: symbolically (every input is a
solver variable) and concretely (inputs come from a counterexample or a path witness)."""

import z3
from . import core, values as V
from .core import CheckFailed, PathAbort
from .values import SymBool, SymInt, SymStr, SymBytes, Blob, mkbool, mkint, mkstr, mkbytes, conj, disj, raw

UNICODE = [(0, 0x10ffff)]
SCALAR = [(0, 0xd7ff), (0xe000, 0x10ffff)]

class HarnessError(BaseException):
    """The harness or a model does not support what happened: inconclusive, not a violation."""

def _term(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, z3.ExprRef):
        return c
    return bool(c)

class BaseCtx:
    prop = None
    def wants(self, label):
        """Is the assertion part of the property being decided?"""
        head = label.split(".", 1)[0]
        return not (len(head) in (3, 4) and head[0] == "C" and head[1:].isdigit()) or self.prop is None or head == self.prop
    # boolean combinators that do not fork
    def all(self, *cs):
        return mkbool(conj([_term(c) for c in cs])) if self.symbolic else all(bool(c) for c in cs)
    def any(self, *cs):
        return mkbool(disj([_term(c) for c in cs])) if self.symbolic else any(bool(c) for c in cs)
    def no(self, c):
        if isinstance(c, SymBool):
            return mkbool(z3.Not(c.e))
        return not c
    def implies(self, a, b):
        return self.any(self.no(a), b)
    def iff(self, a, b):
        if self.symbolic:
            a, b = _term(a), _term(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            a = z3.BoolVal(a) if isinstance(a, bool) else a
            b = z3.BoolVal(b) if isinstance(b, bool) else b
            return mkbool(a == b)
        return bool(a) == bool(b)
    def same(self, a, b):
        """Value equality incl. None and containers, as a term where possible."""
        if a is None or b is None:
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all(*[self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, bool) != isinstance(b, bool) and not isinstance(a, SymBool) and not isinstance(b, SymBool):
            return False
        return a == b
    def fail(self, label, detail=""):
        self.check(label, False, detail)

class SymCtx(BaseCtx):
    symbolic = True
    def __init__(self, engine, prop, tier):
        self.E, self.prop, self.tier = engine, prop, tier
        self.inputs, self.obs, self.labels = {}, [], {}
    def _new(self, name, kind, value):
        if name in self.inputs:
            raise HarnessError(f"input {name} declared twice")
        self.inputs[name] = (kind, value)
        return value
    def bool(self, name):
        return self._new(name, "bool", SymBool(z3.Bool(name)))
    def int(self, name, lo, hi):
        v = z3.Int(name)
        self._new(name, "int", SymInt(v))
        if lo == hi:
            self.E.assume(v == lo)
            return lo
        self.E.assume(z3.And(v >= lo, v <= hi))
        return SymInt(v)
    def _len(self, name, lo, hi):
        if lo == hi:
            return lo
        n = z3.Int(name + ".len")
        self.E.assume(z3.And(n >= lo, n <= hi))
        return self.E.enum(n, hi - lo + 2, "length")
    def str(self, name, maxlen, minlen=0, chars=UNICODE):
        n = self._len(name, minlen, maxlen)
        cs = [z3.Int(f"{name}[{i}]") for i in range(n)]
        for c in cs:
            self.E.assume(V.in_ranges(c, chars))
        return self._new(name, "str", mkstr(cs))
    def bytes(self, name, maxlen, minlen=0):
        n = self._len(name, minlen, maxlen)
        cs = [z3.Int(f"{name}[{i}]") for i in range(n)]
        for c in cs:
            self.E.assume(z3.And(c >= 0, c <= 255))
        return self._new(name, "bytes", mkbytes(cs))
    def blob(self, name, maxlen=1 << 32, minlen=0):
        """Opaque content of symbolic length (unknown, aperiodic bytes, distinct from other blobs)."""
        n = z3.Int(name + ".len")
        self.E.big_vars.add(name + ".len")
        self.E.assume(z3.And(n >= minlen, n <= maxlen))
        v = SymBytes([Blob(name, 0, n)])
        return self._new(name, "blob", v)
    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            i = 0
        else:
            v = z3.Int(name)
            self.E.assume(z3.And(v >= 0, v < len(options)))
            i = self.E.enum(v, len(options) + 1, "choice")
        self._new(name, "int", i)
        return options[i]
    def decide(self, cond):
        """Fork on a condition."""
        return bool(cond) if not isinstance(cond, z3.ExprRef) else self.E.branch(cond)
    def assume(self, cond):
        t = _term(cond)
        if t is False:
            self.E.steer(PathAbort())
        if t is not True:
            self.E.assume(t)
    def check(self, label, cond, detail=""):
        if not self.wants(label):
            return
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.E.pos < len(self.E.trail):
            return              # discharged earlier with the same path prefix
        t = _term(cond)
        if t is True:
            self.E.trivial += 1
            return
        if t is False:
            self.E._get_model()
            self.E.steer(CheckFailed(label, detail() if callable(detail) else detail))
        self.E.asserted += 1
        self.E.solver.push()
        self.E.solver.add(z3.Not(t))
        r = self.E._query()
        if r == z3.sat:
            self.E.model = self.E.solver.model()     # pops with the path
            self.E.fail_pushed = True
            self.E.steer(CheckFailed(label, detail() if callable(detail) else detail))
        self.E.solver.pop()
        if r != z3.unsat:
            self.E.steer(core.BudgetExceeded("solver returned unknown"))
    def reach(self, label):
        self.labels["reach." + label] = self.labels.get("reach." + label, 0) + 1
    def observe(self, name, value):
        self.obs.append((name, value))

    # -- evaluation of the path
    def small_model(self):
        """A model of the path with short blobs."""
        lens = [v.c[0].length for k, v in self.inputs.values() if k == "blob" and isinstance(v, SymBytes) and v.c and not isinstance(v.c[0].length, int)]
        E = self.E
        if not lens:
            return E._get_model()
        for cap in (16, 300, 70000, 1 << 24):
            E.solver.push()
            E.solver.add(z3.And(*[n <= cap for n in lens]))
            r = E._query()
            m = E.solver.model() if r == z3.sat else None
            E.solver.pop()
            if m is not None:
                return m
        raise HarnessError("no small model of the path")
    def dump_inputs(self, m):
        out = {}
        for name, (kind, v) in self.inputs.items():
            if kind == "blob":
                ln = V.model_int(m, v.c[0].length) if isinstance(v, SymBytes) and v.c else 0
                out[name] = {"blob": ln}
            else:
                x = V.evaluate(v, m)
                out[name] = {"hex": x.hex()} if isinstance(x, bytes) else {"str": [ord(c) for c in x]} if isinstance(x, str) else x
        return out

def plain(v):
    """JSON form of an observation."""
    if isinstance(v, (bytes, bytearray)):
        return {"hex": bytes(v).hex()} if len(v) <= 200 else {"hex": bytes(v[:100]).hex(), "len": len(v)}
    if isinstance(v, str):
        return v.encode("unicode_escape", "backslashreplace").decode("ascii")
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x) for x in v), key=repr)
    if isinstance(v, dict):
        return {str(plain(k)): plain(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float)):
        return v
    return f"<{type(v).__name__}>"

class ConcreteCtx(BaseCtx):
    symbolic = False
    def __init__(self, inputs, prop, tier):
        self.raw, self.prop, self.tier = inputs, prop, tier
        self.obs, self.labels = [], {}
    def _get(self, name, default):
        if name not in self.raw:
            return default
        v = self.raw[name]
        if isinstance(v, dict):
            if "hex" in v: return bytes.fromhex(v["hex"])
            if "str" in v: return "".join(map(chr, v["str"]))
            if "blob" in v: return V.blob_bytes(name, 0, v["blob"])
        return v
    def bool(self, name): return bool(self._get(name, False))
    def int(self, name, lo, hi): return self._get(name, lo)
    def str(self, name, maxlen, minlen=0, chars=UNICODE): return self._get(name, chr(chars[0][0]) * minlen)
    def bytes(self, name, maxlen, minlen=0): return self._get(name, b"\0" * minlen)
    def blob(self, name, maxlen=1 << 32, minlen=0): return self._get(name, V.blob_bytes(name, 0, minlen))
    def choice(self, name, options): return list(options)[self._get(name, 0)]
    def decide(self, cond): return bool(cond)
    def assume(self, cond):
        if not cond:
            raise PathAbort()
    def check(self, label, cond, detail=""):
        if not self.wants(label):
            return
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            raise CheckFailed(label, detail() if callable(detail) else detail)
    def reach(self, label): pass
    def observe(self, name, value): self.obs.append((name, value))
