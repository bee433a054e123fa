"""Backtracking regular expression matcher over symbolic strings, on top of the stdlib's pattern parser."""

import re
import re._constants as C
import re._parser as P
from . import core, values as V
from .values import SymStr, mkstr, fork, eq, disj, conj, between, in_ranges, is_z, has_sym, concretize

class Unsupported(Exception):
    pass

class SxMatch:
    def __init__(self, s, start, end, groups):
        self.string, self._s, self._e, self._g = s, start, end, groups
    def group(self, *n):
        if not n: n = (0,)
        r = [self._get(x) for x in n]
        return r[0] if len(r) == 1 else tuple(r)
    def _get(self, n):
        if n == 0: return self.string[self._s:self._e]
        sp = self._g.get(n)
        return None if sp is None else self.string[sp[0]:sp[1]]
    __getitem__ = group
    def groups(self, default=None):
        n = max(self._g, default=0)
        return tuple(self._get(i) for i in range(1, n + 1))
    def start(self, n=0): return self._s if n == 0 else self._g[n][0]
    def end(self, n=0): return self._e if n == 0 else self._g[n][1]
    def span(self, n=0): return (self.start(n), self.end(n))
    def __bool__(self): return True

def _cat(av, e):
    if av == C.CATEGORY_DIGIT: return between(48, e, 57)        # ASCII approximation below 128
    if av == C.CATEGORY_NOT_DIGIT: return _neg(between(48, e, 57))
    if av == C.CATEGORY_SPACE: return in_ranges(e, V._SPACE_S_R)
    if av == C.CATEGORY_NOT_SPACE: return _neg(in_ranges(e, V._SPACE_S_R))
    w = disj([between(48, e, 57), between(65, e, 90), between(97, e, 122), eq(e, 95)])
    if av == C.CATEGORY_WORD: return w
    if av == C.CATEGORY_NOT_WORD: return _neg(w)
    raise Unsupported(str(av))

def _neg(t):
    import z3
    return (not t) if isinstance(t, bool) else z3.Not(t)

def _set(items, e):
    neg, parts = False, []
    for op, av in items:
        if op == C.NEGATE: neg = True
        elif op == C.LITERAL: parts.append(eq(e, av))
        elif op == C.RANGE: parts.append(between(av[0], e, av[1]))
        elif op == C.CATEGORY: parts.append(_cat(av, e))
        else: raise Unsupported(str(op))
    t = disj(parts)
    return _neg(t) if neg else t

class Matcher:
    def __init__(self, pattern, flags=0):
        self.tree = P.parse(pattern, flags)
        self.flags = self.tree.state.flags
        if self.flags & re.IGNORECASE: raise Unsupported("IGNORECASE")

    def m(self, items, s, i, g, k):
        """Match the item list at i, then continue with k(i, g); yields a truthy result or None."""
        if not items:
            return k(i, g)
        op, av = items[0]
        rest = items[1:]
        cont = lambda j, g2: self.m(rest, s, j, g2, k)
        n = len(s)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= n: return None
            e = s[i]
            if op == C.LITERAL: t = eq(e, av)
            elif op == C.NOT_LITERAL: t = _neg(eq(e, av))
            elif op == C.ANY: t = True if self.flags & re.DOTALL else _neg(eq(e, 10))
            else: t = _set(av, e)
            return cont(i + 1, g) if fork(t) else None
        if op == C.AT:
            ml = self.flags & re.MULTILINE
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (av == C.AT_BEGINNING and ml and fork(eq(s[i-1], 10)))
            elif av == C.AT_END:
                ok = i == n or (ml and fork(eq(s[i], 10))) or (i == n - 1 and fork(eq(s[i], 10)))
            elif av == C.AT_END_STRING:
                ok = i == n
            else: raise Unsupported(str(av))
            return cont(i, g) if ok else None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            def rep(count, j, g2):
                if op == C.MIN_REPEAT and count >= lo:
                    r = cont(j, g2)
                    if r is not None: return r
                if count < hi:
                    r = self.m(sub, s, j, g2, lambda j2, g3: rep(count + 1, j2, g3) if j2 > j or count < lo else None)
                    if r is not None: return r
                if op == C.MAX_REPEAT and count >= lo:
                    return cont(j, g2)
                return None
            return rep(0, i, g)
        if op == C.SUBPATTERN:
            gid, _, _, sub = av
            def after(j, g2):
                if gid is not None:
                    g2 = dict(g2); g2[gid] = (i, j)
                return cont(j, g2)
            return self.m(list(sub), s, i, g, after)
        if op == C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), s, i, g, cont)
                if r is not None: return r
            return None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0: raise Unsupported("lookbehind")
            r = self.m(list(sub), s, i, g, lambda j, g2: (j, g2))
            if (r is None) == (op == C.ASSERT): return None
            return cont(i, g)
        raise Unsupported(str(op))

    def at(self, s, i, full=False):
        r = self.m(list(self.tree), s, i, {}, lambda j, g: (j, g) if not full or j == len(s) else None)
        return r

def _str_pattern(p):
    if isinstance(p, re.Pattern): return p.pattern, p.flags & ~re.UNICODE
    if isinstance(p, SxPattern): return p.pattern, p.flags
    return p, 0

def run(name, pattern, string, flags=0):
    pat, f0 = _str_pattern(pattern)
    if isinstance(pat, SymStr): pat = concretize(pat, "symbolic regex")
    try:
        mt = Matcher(pat, int(flags) | f0)
        s = V.s_elems(string)
        if name == "match": return _one(mt, string, s, 0)
        if name == "fullmatch": return _one(mt, string, s, 0, True)
        if name == "search":
            for i in range(len(s) + 1):
                r = _one(mt, string, s, i)
                if r is not None: return r
            return None
        if name in ("finditer", "findall"):
            out, i = [], 0
            while i <= len(s):
                r = _one(mt, string, s, i)
                if r is None: i += 1; continue
                out.append(r)
                i = r.end() + (1 if r.end() == r.start() else 0)
            if name == "finditer": return iter(out)
            return [(x.group(1) if len(x._g) == 1 else x.groups()) if x._g else x.group() for x in out]
    except Unsupported:
        pass
    return getattr(re, name)(pat, concretize(string, "regex " + name), flags)

def _one(mt, string, s, i, full=False):
    r = mt.at(s, i, full)
    return None if r is None else SxMatch(string, i, r[0], r[1])

def sub(pattern, repl, string, count=0, flags=0):
    out, pos, n = [], 0, 0
    if isinstance(string, SymStr):
        for m in run("finditer", pattern, string, flags):
            if count and n >= count: break
            out += V.s_elems(string[pos:m.start()])
            r = repl(m) if callable(repl) else repl
            out += V.s_elems(r)
            pos = m.end(); n += 1
        out += V.s_elems(string[pos:])
        return mkstr(out)
    return re.sub(pattern, repl, string, count, flags)

class SxPattern:
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, int(flags)
        self._n = re.compile(pattern, flags)
        self.groups = self._n.groups
    def _go(self, name, string):
        return run(name, self, string) if isinstance(string, SymStr) else getattr(self._n, name)(string)
    def search(self, s): return self._go("search", s)
    def match(self, s): return self._go("match", s)
    def fullmatch(self, s): return self._go("fullmatch", s)
    def findall(self, s): return self._go("findall", s)
    def finditer(self, s): return self._go("finditer", s)
    def sub(self, r, s, count=0): return sub(self, r, s, count) if isinstance(s, SymStr) else self._n.sub(r, s, count)
    def split(self, s, maxsplit=0): return _split(self, s) if isinstance(s, SymStr) else self._n.split(s, maxsplit)

def _split(p, s):
    out, pos = [], 0
    for m in run("finditer", p, s):
        out.append(s[pos:m.start()]); pos = m.end()
    out.append(s[pos:])
    return out

def special(name):
    native = getattr(re, name)
    if name == "compile":
        def comp(p, flags=0):
            if isinstance(p, SymStr): p = concretize(p, "symbolic regex")
            return SxPattern(p, flags) if isinstance(p, str) and core.E is not None else native(p, flags)
        return comp
    if name == "escape":
        return lambda p: native(concretize(p, "re.escape")) if isinstance(p, SymStr) else native(p)
    if name == "sub":
        return lambda p, r, s, count=0, flags=0: sub(p, r, s, count, flags) if isinstance(s, SymStr) else native(p if not isinstance(p, SxPattern) else p._n, r, s, count, flags)
    if name == "split":
        return lambda p, s, maxsplit=0, flags=0: _split(p, s) if isinstance(s, SymStr) else native(p if not isinstance(p, SxPattern) else p._n, s, maxsplit, flags)
    if name == "subn":
        return lambda p, r, s, **k: native(p, r, concretize(s, "re.subn"), **k)
    def f(p, s, flags=0):
        if isinstance(s, SymStr) or isinstance(p, SymStr):
            return run(name, p, s, flags)
        return native(p._n if isinstance(p, SxPattern) else p, s, flags)
    return f
