"""Symbolic values: integers, booleans, strings, byte ropes, digests, sets."""

import codecs
import hashlib as _real_hashlib
import sys
import unicodedata
import z3
from . import core
from .core import PathAbort

def _E():
    return core.E

ENUM_LIMIT = 64

# ---------------------------------------------------------------- helpers

def is_z(e):
    return isinstance(e, z3.ExprRef)

_simp_cache = {}

def norm(e):
    """Normalise an element: z3 numerals become Python ints."""
    if isinstance(e, z3.IntNumRef):
        return e.as_long()
    return e

def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)

def mkint(e):
    if isinstance(e, int):
        return e
    if isinstance(e, z3.IntNumRef):
        return e.as_long()
    return SymInt(e)

def raw(v):
    """Python int/bool or SymInt -> int or z3 term."""
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    return v

def ite(c, a, b):
    """if-then-else over integers without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    x, y = raw(a), raw(b)
    if isinstance(x, int): x = z3.IntVal(x)
    if isinstance(y, int): y = z3.IntVal(y)
    return mkint(z3.If(c.e, x, y))

def eq(a, b):
    """Equality of two elements (ints or z3 ints) as bool or z3 Bool."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b or (is_z(a) and is_z(b) and a.eq(b)):
        return True
    return a == b if is_z(a) else b == a

def conj(parts):
    out = []
    for p in parts:
        if p is False:
            return False
        if p is True:
            continue
        out.append(p)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)

def disj(parts):
    out = []
    for p in parts:
        if p is True:
            return True
        if p is False:
            continue
        out.append(p)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def between(lo, e, hi):
    if isinstance(e, int):
        return lo <= e <= hi
    return z3.And(e >= lo, e <= hi)

def fork(p):
    """Decide a bool or z3 Bool on this path."""
    if p is True or p is False:
        return p
    return _E().branch(p)

def boolterm(v):
    """bool/SymBool/other -> bool or z3 Bool (other values are forced by truth)."""
    if isinstance(v, SymBool):
        return v.e
    return bool(v)

# ---------------------------------------------------------------- booleans

class Sym:
    """Marker base class of all symbolic values."""
    __slots__ = ()

class SymBool(Sym):
    __slots__ = ("e",)
    def __init__(self, e):
        self.e = e
    def __bool__(self):
        return _E().branch(self.e)
    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool) or (isinstance(o, int) and o in (0, 1)):
            return mkbool(self.e if o else z3.Not(self.e))
        if isinstance(o, SymInt):
            return mkbool(raw(self) == o.e)
        return False
    def __ne__(self, o):
        return _not(self.__eq__(o))
    def __hash__(self):
        return 11
    def __and__(self, o):
        if isinstance(o, SymBool): return mkbool(z3.And(self.e, o.e))
        if isinstance(o, bool): return self if o else False
        return NotImplemented
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, SymBool): return mkbool(z3.Or(self.e, o.e))
        if isinstance(o, bool): return True if o else self
        return NotImplemented
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, SymBool): return mkbool(z3.Xor(self.e, o.e))
        if isinstance(o, bool): return _not(self) if o else self
        return NotImplemented
    __rxor__ = __xor__
    def __invert__(self):
        return -mkint(raw(self)) - 1
    def __int__(self):
        return 1 if self else 0
    __index__ = __int__
    def __add__(self, o): return mkint(raw(self)) + o
    __radd__ = __add__
    def __repr__(self):
        return str(bool(self))
    __str__ = __repr__
    def __format__(self, spec):
        return format(bool(self), spec)

def _not(v):
    if isinstance(v, SymBool):
        return mkbool(z3.Not(v.e))
    if v is NotImplemented:
        return v
    return not v

# ---------------------------------------------------------------- integers

class SymInt(Sym):
    __slots__ = ("e",)
    def __init__(self, e):
        self.e = e
    def _coerce(self, o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, SymBool):
            return raw(o)
        if isinstance(o, int):
            return int(o)
        return None
    def _bin(self, o, f):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return mkint(f(self.e, o))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymStr, SymBytes)):
            return o * int(self)
        if isinstance(o, SymInt):
            o = o.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return -self if self < 0 else self
    def __floordiv__(self, o):
        o = o.__index__() if isinstance(o, SymInt) else o
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        # z3's div is Euclidean: equals floor for positive divisors
        return mkint(self.e / o) if o > 0 else mkint((-self.e) / (-o))
    def __mod__(self, o):
        o = o.__index__() if isinstance(o, SymInt) else o
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(self.e % o) if o > 0 else -mkint((-self.e) % (-o))
    def __divmod__(self, o): return self // o, self % o
    def __rfloordiv__(self, o): return o // self.__index__()
    def __rmod__(self, o): return o % self.__index__()
    def __pow__(self, o): return self.__index__() ** int(o)
    def __lshift__(self, o): return self * (1 << int(o))
    def __rshift__(self, o): return self // (1 << int(o))
    def __rlshift__(self, o): return o << self.__index__()
    def __rrshift__(self, o): return o >> self.__index__()
    def __and__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if isinstance(o, SymBool):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            return self - (self & (~o))
        res, bit = 0, 0
        total = 0
        # decompose the mask in runs of ones
        while (o >> bit):
            if (o >> bit) & 1:
                hi = bit
                while (o >> hi) & 1:
                    hi += 1
                total = (self % (1 << hi)) - (self % (1 << bit)) + total
                bit = hi
            else:
                bit += 1
        return total
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, SymInt): o = o.__index__()
        if not isinstance(o, int): return NotImplemented
        return self + o - (self & o)
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, SymInt): o = o.__index__()
        if not isinstance(o, int): return NotImplemented
        return self + o - 2 * (self & o)
    __rxor__ = __xor__
    def __invert__(self): return -self - 1
    def _cmp(self, o, f):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        return mkbool(f(self.e, o))
    def __eq__(self, o):
        c = self._coerce(o)
        if c is None:
            if isinstance(o, float) and o.is_integer():
                c = int(o)
            else:
                return False if not isinstance(o, Sym) else NotImplemented
        return mkbool(eq(self.e, c))
    def __ne__(self, o): return _not(self.__eq__(o))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __bool__(self): return _E().branch(self.e != 0)
    def __hash__(self): return 13
    def __index__(self): return _E().enum(self.e, ENUM_LIMIT, "int->index")
    __int__ = __index__
    def __float__(self): return float(self.__index__())
    def __truediv__(self, o): return self.__index__() / o
    def __rtruediv__(self, o): return o / self.__index__()
    def bit_length(self): return self.__index__().bit_length()
    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return pack_int(self, length, signed, byteorder, OverflowError)
    def __repr__(self): return SYM_MARK
    __str__ = __repr__
    def __format__(self, spec): return SYM_MARK

SYM_MARK = "\ue000sym\ue001"     # text rendering of a symbolic value inside messages

def pack_int(v, n, signed, byteorder="big", exc=OverflowError):
    """Big/little endian byte encoding of a symbolic integer (forks on the range check)."""
    e = raw(v)
    lo, hi = (-(1 << (8*n-1)), (1 << (8*n-1)) - 1) if signed else (0, (1 << (8*n)) - 1)
    if not fork(between(lo, e, hi)):
        raise exc("integer out of range")
    E = _E()
    bs = [E.fresh("pk") for _ in range(n)]
    tot = 0
    for b in bs:
        tot = tot * 256 + b if not isinstance(tot, int) or tot else b
    tot = z3.Sum([b * (1 << (8*(n-1-i))) for i, b in enumerate(bs)])
    cons = [between(0, b, 255) for b in bs]
    if signed:
        cons.append(tot == z3.If(e < 0, e + (1 << (8*n)), e))
    else:
        cons.append(tot == e)
    E.define(z3.And(*cons))
    E.cache[("int", signed, tuple(b.get_id() for b in bs))] = (e, bs)
    if byteorder == "little":
        bs = bs[::-1]
    return SymBytes(bs)

def unpack_int(elems, signed):
    """Value of big endian bytes (elements may be symbolic)."""
    n = len(elems)
    if all(isinstance(b, int) for b in elems):
        return int.from_bytes(bytes(elems), "big", signed=signed)
    E = _E()
    if all(is_z(b) for b in elems):
        hit = E.cache.get(("int", signed, tuple(b.get_id() for b in elems)))
        if hit:
            return mkint(hit[0])
    tot = z3.Sum([b * (1 << (8*(n-1-i))) if is_z(b) else z3.IntVal(b << (8*(n-1-i))) for i, b in enumerate(elems)])
    if signed:
        top = elems[0]
        if fork(top >= 128 if is_z(top) else top >= 128):
            return mkint(tot - (1 << (8*n)))
    return mkint(tot)

# ---------------------------------------------------------------- strings

_PTREE = None
def is_printable(e):
    """str.isprintable of one code point, as a balanced decision tree over the interval limits."""
    global _PTREE
    if isinstance(e, int):
        return chr(e).isprintable()
    if _PTREE is None:
        x = z3.Int("printable!x")
        lim, last = [], None
        for c in range(0x110000):
            p = chr(c).isprintable()
            if p != last:
                lim.append((c, p))
                last = p
        def tree(lo, hi):
            if hi - lo == 1:
                return z3.BoolVal(lim[lo][1])
            m = (lo + hi) // 2
            return z3.If(x < lim[m][0], tree(lo, m), tree(m, hi))
        _PTREE = (x, tree(0, len(lim)))
    return z3.substitute(_PTREE[1], (_PTREE[0], e))

_PRINT = None
def _printable_ranges():
    global _PRINT
    if _PRINT is None:
        r, start = [], None
        for c in range(0x110000):
            p = chr(c).isprintable()
            if p and start is None:
                start = c
            elif not p and start is not None:
                r.append((start, c-1)); start = None
        if start is not None:
            r.append((start, 0x10ffff))
        _PRINT = r
    return _PRINT

_SPACE_S = [c for c in range(0x3001) if chr(c).isspace()]
_SPACE_B = [9, 10, 11, 12, 13, 32]
_LINE_S = [10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029]
_DIGIT_ASCII = list(range(48, 58))

def ranges_of(codes):
    out = []
    for c in sorted(codes):
        if out and c == out[-1][1] + 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(x) for x in out]

_SPACE_S_R, _SPACE_B_R, _LINE_S_R = ranges_of(_SPACE_S), ranges_of(_SPACE_B), ranges_of(_LINE_S)

def in_ranges(e, rs):
    if isinstance(e, int):
        return any(a <= e <= b for a, b in rs)
    return disj([(e == a) if a == b else z3.And(e >= a, e <= b) for a, b in rs])

def mkstr(elems):
    elems = [norm(e) for e in elems]
    if all(isinstance(e, int) for e in elems):
        return "".join(map(chr, elems))
    return SymStr(elems)

def s_elems(v):
    """Elements of a str or SymStr."""
    if isinstance(v, str):
        return [ord(c) for c in v]
    return list(v.c)

def b_elems(v):
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    return list(v.c)

class _SeqOps(Sym):
    """Operations shared by symbolic strings and byte ropes (sequence of elements self.c)."""
    __slots__ = ()

    # subclasses: _mk, _el, _native
    def _coerce(self, o):
        if isinstance(o, self._native) or isinstance(o, self._symtype()):
            return self._el(o)
        return None
    def __len__(self):
        return len(self.c)
    def __bool__(self):
        return len(self.c) > 0
    def __hash__(self):
        return 17
    def __add__(self, o):
        x = self._coerce(o)
        return NotImplemented if x is None else self._mk(list(self.c) + x)
    def __radd__(self, o):
        x = self._coerce(o)
        return NotImplemented if x is None else self._mk(x + list(self.c))
    def __mul__(self, n):
        return self._mk(list(self.c) * int(n))
    __rmul__ = __mul__
    def _eqterm(self, o):
        x = self._coerce(o)
        if x is None:
            return None
        if len(x) != len(self.c):
            return False
        return conj([eq(a, b) for a, b in zip(self.c, x)])
    def __eq__(self, o):
        if o is self:
            return True
        t = self._eqterm(o)
        return False if t is None else mkbool(t)
    def __ne__(self, o):
        return _not(self.__eq__(o))
    def _lt(self, x, y, strict):
        # lexicographic order of element lists
        if not x:
            return len(y) > 0 if strict else True
        if not y:
            return False
        rest = self._lt(x[1:], y[1:], strict)
        a, b = x[0], y[0]
        lt = a < b
        e = eq(a, b)
        return disj([lt, conj([e, rest])])
    def _order(self, o, f):
        x = self._coerce(o)
        if x is None:
            return NotImplemented
        return mkbool(f(list(self.c), x))
    def __lt__(self, o): return self._order(o, lambda a, b: self._lt(a, b, True))
    def __le__(self, o): return self._order(o, lambda a, b: self._lt(a, b, False))
    def __gt__(self, o): return self._order(o, lambda a, b: self._lt(b, a, True))
    def __ge__(self, o): return self._order(o, lambda a, b: self._lt(b, a, False))
    def _match_at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.c):
            return False
        return conj([eq(a, b) for a, b in zip(self.c[i:i+len(sub)], sub)])
    def _need(self, o, what):
        x = self._coerce(o)
        if x is None:
            raise TypeError(f"{what}: unexpected argument type {type(o).__name__}")
        return x
    def __contains__(self, o):
        if isinstance(o, int) and self._native is bytes:
            return fork(disj([eq(a, o) for a in self.c]))
        x = self._need(o, "in")
        return fork(disj([self._match_at(x, i) for i in range(len(self.c) - len(x) + 1)]))
    def _fix(self, start, end):
        n = len(self.c)
        start = 0 if start is None else int(start)
        end = n if end is None else int(end)
        if start < 0: start = max(0, n + start)
        if end < 0: end = max(0, n + end)
        return start, min(end, n)
    def startswith(self, p, start=None, end=None):
        s, e = self._fix(start, end)
        me = self.c[s:e]
        if isinstance(p, tuple):
            return mkbool(disj([boolterm(self._mk(me).startswith(q)) for q in p]))
        x = self._need(p, "startswith")
        if len(x) > len(me): return False
        return mkbool(conj([eq(a, b) for a, b in zip(me, x)]))
    def endswith(self, p, start=None, end=None):
        s, e = self._fix(start, end)
        me = self.c[s:e]
        if isinstance(p, tuple):
            return mkbool(disj([boolterm(self._mk(me).endswith(q)) for q in p]))
        x = self._need(p, "endswith")
        if len(x) > len(me): return False
        return mkbool(conj([eq(a, b) for a, b in zip(me[len(me)-len(x):], x)]))
    def find(self, sub, start=None, end=None):
        if isinstance(sub, int): sub = bytes([sub])
        x = self._need(sub, "find")
        s, e = self._fix(start, end)
        for i in range(s, e - len(x) + 1):
            if fork(self._match_at(x, i)):
                return i
        return -1
    def rfind(self, sub, start=None, end=None):
        if isinstance(sub, int): sub = bytes([sub])
        x = self._need(sub, "rfind")
        s, e = self._fix(start, end)
        for i in range(e - len(x), s - 1, -1):
            if fork(self._match_at(x, i)):
                return i
        return -1
    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0: raise ValueError("substring not found")
        return r
    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0: raise ValueError("substring not found")
        return r
    def count(self, sub, start=None, end=None):
        x = self._need(sub, "count")
        s, e = self._fix(start, end)
        n = 0
        if not x: return e - s + 1
        while s + len(x) <= e:
            if fork(self._match_at(x, s)):
                n += 1; s += len(x)
            else:
                s += 1
        return n
    def _isspace_el(self, e):
        return in_ranges(e, self._space)
    def lstrip(self, chars=None):
        c = list(self.c)
        while c and fork(self._strip_pred(c[0], chars)):
            c.pop(0)
        return self._mk(c)
    def rstrip(self, chars=None):
        c = list(self.c)
        while c and fork(self._strip_pred(c[-1], chars)):
            c.pop()
        return self._mk(c)
    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)
    def _strip_pred(self, e, chars):
        if chars is None:
            return self._isspace_el(e)
        return disj([eq(e, x) for x in self._need(chars, "strip")])
    def split(self, sep=None, maxsplit=-1):
        out, maxsplit = [], int(maxsplit)
        c = list(self.c)
        if sep is None:
            cur, i, n = [], 0, len(c)
            while True:
                while i < n and fork(self._isspace_el(c[i])):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    rest = self._mk(c[i:])
                    out.append(rest.rstrip())
                    break
                cur = []
                while i < n and not fork(self._isspace_el(c[i])):
                    cur.append(c[i]); i += 1
                out.append(self._mk(cur))
            return out
        x = self._need(sep, "split")
        if not x: raise ValueError("empty separator")
        i, cur = 0, []
        while i < len(c):
            if (maxsplit < 0 or len(out) < maxsplit) and fork(self._match_at(x, i)):
                out.append(self._mk(cur)); cur = []; i += len(x)
            else:
                cur.append(c[i]); i += 1
        out.append(self._mk(cur))
        return out
    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise TypeError("symbolic rsplit(None, n) unsupported")
        x = self._need(sep, "rsplit")
        out, c, end = [], list(self.c), len(self.c)
        i = end - len(x)
        while i >= 0 and len(out) < maxsplit:
            if fork(self._match_at(x, i)):
                out.append(self._mk(c[i+len(x):end])); end = i; i -= len(x)
            else:
                i -= 1
        out.append(self._mk(c[:end]))
        return out[::-1]
    def partition(self, sep):
        i = self.find(sep)
        n = len(self._need(sep, "partition"))
        if i < 0:
            return (self, self._native(), self._native())
        return (self._mk(self.c[:i]), sep, self._mk(self.c[i+n:]))
    def rpartition(self, sep):
        i = self.rfind(sep)
        n = len(self._need(sep, "rpartition"))
        if i < 0:
            return (self._native(), self._native(), self)
        return (self._mk(self.c[:i]), sep, self._mk(self.c[i+n:]))
    def replace(self, old, new, count=-1):
        x, y = self._need(old, "replace"), self._need(new, "replace")
        out, i, c, n = [], 0, list(self.c), 0
        if not x: raise TypeError("symbolic replace of empty string unsupported")
        while i < len(c):
            if (count < 0 or n < count) and fork(self._match_at(x, i)):
                out += y; i += len(x); n += 1
            else:
                out.append(c[i]); i += 1
        return self._mk(out)
    def removeprefix(self, p):
        return self._mk(self.c[len(self._need(p, "removeprefix")):]) if self.startswith(p) else self
    def removesuffix(self, p):
        n = len(self._need(p, "removesuffix"))
        return self._mk(self.c[:len(self.c)-n]) if n and self.endswith(p) else self
    def join(self, it):
        out, first = [], True
        for v in it:
            if not first:
                out += list(self.c)
            out += self._need(v, "join")
            first = False
        return self._mk(out)
    def _line_end(self, c, i):
        """0 if no line boundary at i, else its length."""
        raise NotImplementedError
    def splitlines(self, keepends=False):
        out, cur, i, c = [], [], 0, list(self.c)
        while i < len(c):
            n = self._line_end(c, i)
            if n:
                out.append(self._mk(cur + (c[i:i+n] if keepends else [])))
                cur = []; i += n
            else:
                cur.append(c[i]); i += 1
        if cur:
            out.append(self._mk(cur))
        return out
    def isspace(self):
        return mkbool(conj([self._isspace_el(e) for e in self.c])) if self.c else False
    def _isascii_digit(self):
        return mkbool(conj([between(48, e, 57) for e in self.c])) if self.c else False
    def zfill(self, n):
        x = list(self.c)
        k = max(0, int(n) - len(x))
        if k and x and fork(disj([eq(x[0], 43), eq(x[0], 45)])):
            return self._mk([x[0]] + [48]*k + x[1:])
        return self._mk([48]*k + x)
    def _fill(self, f):
        return self._need(f, "fill")[0]
    def ljust(self, n, f=None):
        f = 32 if f is None else self._fill(f)
        return self._mk(list(self.c) + [f]*max(0, int(n)-len(self.c)))
    def rjust(self, n, f=None):
        f = 32 if f is None else self._fill(f)
        return self._mk([f]*max(0, int(n)-len(self.c)) + list(self.c))
    def lower(self):
        return self._mk([z3.If(z3.And(e >= 65, e <= 90), e + 32, e) if is_z(e) else self._ascii_only(e, str.lower) for e in self._ascii()])
    def upper(self):
        return self._mk([z3.If(z3.And(e >= 97, e <= 122), e - 32, e) if is_z(e) else self._ascii_only(e, str.upper) for e in self._ascii()])
    def casefold(self):
        return self.lower()
    def _ascii(self):
        # case mapping is only modelled for ASCII: other characters are picked concretely
        out = []
        for e in self.c:
            if is_z(e) and not fork(e < 128):
                e = _E().pick(e, "non-ascii case mapping")
            out.append(e)
        return out
    def _ascii_only(self, e, f):
        r = f(chr(e))
        return ord(r) if len(r) == 1 else e
    def __getitem__(self, i):
        if isinstance(i, slice):
            st, sp, step = i.start, i.stop, i.step
            return self._mk(list(self.c)[slice(_idx(st), _idx(sp), _idx(step))])
        i = _idx(i)
        return self._item(self.c[i])
    def __iter__(self):
        for e in self.c:
            yield self._item(e)

def _idx(i):
    if i is None or isinstance(i, int):
        return i
    return i.__index__()

class SymStr(_SeqOps):
    __slots__ = ("c",)
    _native = str
    _space = _SPACE_S_R
    def __init__(self, elems):
        self.c = tuple(elems)
    def _symtype(self): return SymStr
    def _mk(self, elems): return mkstr(elems)
    def _el(self, o): return s_elems(o)
    def _item(self, e): return mkstr([e])
    def _line_end(self, c, i):
        if not fork(in_ranges(c[i], _LINE_S_R)):
            return 0
        if i + 1 < len(c) and fork(conj([eq(c[i], 13), eq(c[i+1], 10)])):
            return 2
        return 1
    def isdigit(self): return self._isascii_digit()
    def isdecimal(self): return self._isascii_digit()
    def isnumeric(self): return self._isascii_digit()
    def isascii(self): return mkbool(conj([between(0, e, 127) for e in self.c]))
    def isprintable(self): return mkbool(conj([is_printable(e) for e in self.c]))
    def isalpha(self):
        return mkbool(conj([disj([between(65, e, 90), between(97, e, 122)]) for e in self._ascii()])) if self.c else False
    def isalnum(self):
        return mkbool(conj([disj([between(48, e, 57), between(65, e, 90), between(97, e, 122)]) for e in self._ascii()])) if self.c else False
    def isupper(self): return concretize(self, "str.isupper").isupper()
    def islower(self): return concretize(self, "str.islower").islower()
    def isidentifier(self): return concretize(self, "str.isidentifier").isidentifier()
    def title(self): return concretize(self, "str.title").title()
    def capitalize(self): return concretize(self, "str.capitalize").capitalize()
    def swapcase(self): return concretize(self, "str.swapcase").swapcase()
    def expandtabs(self, n=8): return concretize(self, "str.expandtabs").expandtabs(n)
    def translate(self, t):
        out = []
        for e in self.c:
            if is_z(e):
                hit = None
                for k in t:
                    if fork(eq(e, k)):
                        hit = (t[k],); break
                if hit is None: out.append(e); continue
                r = hit[0]
            else:
                if e not in t: out.append(e); continue
                r = t[e]
            if r is None: continue
            out += [r] if isinstance(r, int) else s_elems(r)
        return mkstr(out)
    def format(self, *a, **k): return concretize(self, "str.format").format(*a, **k)
    def encode(self, encoding="utf-8", errors="strict"):
        return encode_str(self, encoding, errors)
    def __mod__(self, o): return concretize(self, "str%") % o
    def __str__(self): return SYM_MARK
    def __repr__(self): return SYM_MARK
    def __format__(self, spec): return SYM_MARK
    def __fspath__(self): return concretize(self, "fspath")

class NumStr(SymStr):
    """The canonical rendering of a symbolic integer in some base; its digits exist only on demand."""
    __slots__ = ("num", "base", "_c")
    def __init__(self, num, base):
        self.num, self.base, self._c = num, base, None
    @property
    def c(self):
        if self._c is None:
            self._c = tuple(render_int(self.num, self.base))
        return self._c
    def __bool__(self):
        return True
    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, NumStr) and o.base == self.base:
            return mkbool(eq(self.num, o.num))
        if isinstance(o, str):
            try:
                v = int(o, self.base)
            except ValueError:
                return False
            if num_render(v, self.base) != o:
                return False
            return mkbool(eq(self.num, v))
        return SymStr.__eq__(self, o)
    __hash__ = SymStr.__hash__

def num_render(v, base):
    if base == 10: return str(v)
    if base == 8: return ("-" if v < 0 else "") + oct(abs(v))[2:]
    if base == 16: return ("-" if v < 0 else "") + hex(abs(v))[2:]
    if base == 2: return ("-" if v < 0 else "") + bin(abs(v))[2:]
    raise ValueError(base)

def numstr(v, base=10):
    e = raw(v)
    if isinstance(e, int):
        return num_render(e, base)
    return NumStr(e, base)

MAX_DIGITS = 24

def render_int(e, base):
    """Digits of a symbolic integer: forks on sign and number of digits."""
    E = _E()
    key = ("digits", e.get_id(), base)
    hit = E.cache.get(key)
    if hit is not None:
        return hit[0]
    out = []
    x = e
    if fork(e < 0):
        out.append(45)
        x = -e
    n = 1
    while not fork(x < base ** n):
        n += 1
        if n > MAX_DIGITS:
            x = z3.IntVal(E.pick(x, "huge integer rendering"))
    ds = [E.fresh("dg") for _ in range(n)]
    E.define(z3.And(*[between(0, d, base - 1) for d in ds], z3.Sum([d * base ** (n-1-i) for i, d in enumerate(ds)]) == x))
    for d in ds:
        out.append(z3.If(d < 10, d + 48, d + 87) if base > 10 else d + 48)
    E.cache[key] = (out, e)
    return out

def parse_int(s, base=10):
    """int(s, base) for a symbolic string: forks on the character classes, ValueError on malformed input."""
    if isinstance(s, NumStr) and s.base == base:
        return mkint(s.num)
    c = list(s.c)
    bad = lambda: ValueError(f"invalid literal for int() with base {base}: {s!r}")
    # strip whitespace
    while c and fork(in_ranges(c[0], _SPACE_S_R)): c.pop(0)
    while c and fork(in_ranges(c[-1], _SPACE_S_R)): c.pop()
    sign = 1
    if c and fork(eq(c[0], 45)):
        sign = -1; c.pop(0)
    elif c and fork(eq(c[0], 43)):
        c.pop(0)
    if base in (8, 16, 2) and len(c) >= 2:
        letters = {8: (111, 79), 16: (120, 88), 2: (98, 66)}[base]
        if fork(conj([eq(c[0], 48), disj([eq(c[1], letters[0]), eq(c[1], letters[1])])])):
            c = c[2:]
            if c and fork(eq(c[0], 95)): c.pop(0)
    if not c:
        raise bad()
    if all(not is_z(e) for e in c):
        return sign * int("".join(map(chr, c)), base)
    digits, prev_us = [], True
    for i, e in enumerate(c):
        if fork(eq(e, 95)):
            if prev_us or i == len(c) - 1: raise bad()
            prev_us = True
            continue
        prev_us = False
        top = min(base, 10) - 1
        if fork(between(48, e, 48 + top)):
            digits.append(e - 48)
        elif base > 10 and fork(between(97, e, 96 + base - 10)):
            digits.append(e - 87)
        elif base > 10 and fork(between(65, e, 64 + base - 10)):
            digits.append(e - 55)
        else:
            if is_z(e) and not fork(e < 128):
                # other Unicode decimal digits are outside the model: decided on one concrete value
                v = _E().pick(e, "non-ascii digit")
                d = unicodedata.decimal(chr(v), None)
                if d is not None and d < base:
                    digits.append(d); continue
            raise bad()
    n = len(digits)
    tot = 0
    for d in digits:
        tot = tot * base + d
    return mkint(z3.simplify(tot) * sign if is_z(tot) else tot * sign) if sign == -1 else mkint(z3.simplify(tot) if is_z(tot) else tot)

# ---------------------------------------------------------------- text codecs

def encode_str(s, encoding="utf-8", errors="strict"):
    enc = codecs.lookup(concretize(encoding, "codec name")).name
    errors = "strict" if errors is None else errors
    out = []
    E = _E()
    for i, e in enumerate(s.c):
        if isinstance(e, int):
            out += list(chr(e).encode(enc, errors))
            continue
        if enc in ("ascii", "iso8859-1"):
            if fork(e < (128 if enc == "ascii" else 256)):
                out.append(e)
            elif errors == "surrogateescape" and fork(between(0xdc80, e, 0xdcff)):
                out.append(e - 0xdc00)
            else:
                out += _enc_error(e, enc, errors, i)
            continue
        if enc != "utf-8":
            return concretize(s, "codec " + enc).encode(enc, errors)
        if fork(e < 0x80):
            out.append(e)
        elif fork(e < 0x800):
            out += _split_utf8(e, 2)
        elif fork(between(0xd800, e, 0xdfff)):
            if errors == "surrogatepass":
                out += _split_utf8(e, 3)
            elif errors == "surrogateescape" and fork(between(0xdc80, e, 0xdcff)):
                out.append(e - 0xdc00)
            else:
                out += _enc_error(e, enc, errors, i)
        elif fork(e < 0x10000):
            out += _split_utf8(e, 3)
        else:
            out += _split_utf8(e, 4)
    return mkbytes(out)

def _enc_error(e, enc, errors, i):
    if errors == "ignore": return []
    if errors == "replace": return [63]
    v = "?" * i + "\ud800"
    if errors in ("strict", "surrogateescape", "surrogatepass"):
        raise UnicodeEncodeError(enc, v, i, i + 1, "surrogates not allowed" if enc == "utf-8" else "ordinal not in range")
    v = _E().pick(e, "encode error handler " + errors)
    return list(chr(v).encode(enc, errors))

def _split_utf8(e, n):
    E = _E()
    key = ("u8", e.get_id(), n)
    hit = E.cache.get(key)
    if hit: return hit[0]
    parts = [E.fresh("u8") for _ in range(n)]
    tot = z3.Sum([p * 64 ** (n-1-i) for i, p in enumerate(parts)])
    lead_max = {2: 31, 3: 15, 4: 7}[n]
    E.define(z3.And(tot == e, between(0, parts[0], lead_max), *[between(0, p, 63) for p in parts[1:]]))
    lead = {2: 0xc0, 3: 0xe0, 4: 0xf0}[n]
    out = [parts[0] + lead] + [p + 0x80 for p in parts[1:]]
    E.cache[key] = (out, e)
    E.cache[("u8d",) + tuple(o.get_id() for o in out)] = (e, out)
    return out

def decode_bytes(b, encoding="utf-8", errors="strict"):
    enc = codecs.lookup(concretize(encoding, "codec name")).name
    errors = "strict" if errors is None else errors
    if b.has_blob():
        return concretize(b, "decode of opaque blob").decode(enc, errors)
    c = b_elems(b)
    if enc in ("ascii", "iso8859-1"):
        out = []
        for i, e in enumerate(c):
            if enc == "iso8859-1" or fork(e < 128 if is_z(e) else e < 128):
                out.append(e)
            else:
                out += _dec_error(c, i, 1, enc, errors)
        return mkstr(out)
    if enc != "utf-8":
        return concretize(b, "codec " + enc).decode(enc, errors)
    E = _E()
    out, i, n = [], 0, len(c)
    while i < n:
        e = c[i]
        # exact inverse of a previous encoding
        done = False
        for k in (2, 3, 4):
            if i + k <= n and all(is_z(x) for x in c[i:i+k]):
                hit = E.cache.get(("u8d",) + tuple(x.get_id() for x in c[i:i+k]))
                if hit and not (k == 3 and errors != "surrogatepass" and fork(between(0xd800, hit[0], 0xdfff))):
                    out.append(hit[0]); i += k; done = True
                    break
        if done: continue
        if fork(e < 0x80):
            out.append(e); i += 1; continue
        # length and legal range of the second byte (Unicode table 3-7)
        table = [(0xc2, 0xdf, 2, 0x80, 0xbf), (0xe0, 0xe0, 3, 0xa0, 0xbf), (0xe1, 0xec, 3, 0x80, 0xbf),
                 (0xed, 0xed, 3, 0x80, 0xbf if errors == "surrogatepass" else 0x9f), (0xee, 0xef, 3, 0x80, 0xbf), (0xf0, 0xf0, 4, 0x90, 0xbf),
                 (0xf1, 0xf3, 4, 0x80, 0xbf), (0xf4, 0xf4, 4, 0x80, 0x8f)]
        row = None
        for t in table:
            if fork(between(t[0], e, t[1])):
                row = t; break
        if row is None:
            out += _dec_error(c, i, 1, enc, errors); i += 1; continue
        _, _, k, lo2, hi2 = row
        # number of valid continuation bytes
        good = 1
        while good < k and i + good < n:
            x = c[i+good]
            lo, hi = (lo2, hi2) if good == 1 else (0x80, 0xbf)
            if not fork(between(lo, x, hi)):
                break
            good += 1
        if good < k:
            out += _dec_error(c, i, good, enc, errors); i += good; continue
        v = e - {2: 0xc0, 3: 0xe0, 4: 0xf0}[k]
        for x in c[i+1:i+k]:
            v = v * 64 + (x - 0x80)
        out.append(v if isinstance(v, int) else z3.simplify(v)); i += k
    return mkstr(out)

def _dec_error(c, i, n, enc, errors):
    if errors == "ignore": return []
    if errors == "replace": return [0xfffd]
    if errors in ("surrogateescape",):
        return [x + 0xdc00 for x in c[i:i+n]]
    if errors == "backslashreplace":
        out = []
        for x in c[i:i+n]:
            if isinstance(x, int):
                out += s_elems("\\x%02x" % x)
            else:
                E = _E()
                h, l = E.fresh("hx"), E.fresh("hx")
                E.define(z3.And(between(0, h, 15), between(0, l, 15), h * 16 + l == x))
                out += [92, 120] + [z3.If(d < 10, d + 48, d + 87) for d in (h, l)]
        return out
    raise UnicodeDecodeError(enc, b"?" * len(c), i, i + n, "invalid start byte")

# ---------------------------------------------------------------- bytes

class Blob:
    """An opaque byte run: bytes [start, start+length) of the named payload; length may be symbolic."""
    __slots__ = ("name", "start", "length")
    def __init__(self, name, start, length):
        self.name, self.start, self.length = name, start, length

def mkbytes(elems):
    elems = [norm(e) for e in elems]
    if all(isinstance(e, int) for e in elems):
        return bytes(elems)
    return SymBytes(elems)

class SymBytes(_SeqOps):
    __slots__ = ("c",)
    _native = bytes
    _space = _SPACE_B_R
    def __init__(self, elems):
        self.c = tuple(elems)
    def _symtype(self): return SymBytes
    def _mk(self, elems): return mkbytes(elems)
    def _el(self, o): return b_elems(o)
    def _coerce(self, o):
        if isinstance(o, (bytes, bytearray, memoryview)):
            return list(bytes(o))
        if isinstance(o, SymBytes):
            return list(o.c)
        return None
    def _item(self, e): return mkint(e)
    def has_blob(self): return any(isinstance(e, Blob) for e in self.c)
    def symlen(self):
        n = 0
        for e in self.c:
            n = n + (e.length if isinstance(e, Blob) else 1)
        return mkint(z3.simplify(n) if is_z(n) else n)
    def __len__(self):
        if self.has_blob():
            return _flat(self, "len of opaque blob").__len__()
        return len(self.c)
    def __bool__(self):
        if any(not isinstance(e, Blob) for e in self.c): return True
        return bool(self.symlen() > 0)
    def _eqterm(self, o):
        x = self._coerce(o)
        if x is None: return None
        d = digest_of_elems(self.c) or digest_of_elems(x)
        if d is not None:
            t = digest_eq(d, mkbytes(x) if digest_of_elems(self.c) is d else self)
            return t.e if isinstance(t, SymBool) else t
        if self.has_blob() or any(isinstance(e, Blob) for e in x):
            return rope_eq(list(self.c), x)
        return _SeqOps._eqterm(self, o)
    def _match_at(self, sub, i):
        if self.has_blob() or any(isinstance(e, Blob) for e in sub):
            raise_blob(self)
        return _SeqOps._match_at(self, sub, i)
    def __getitem__(self, i):
        if not self.has_blob() and not _symidx(i):
            return _SeqOps.__getitem__(self, i)
        if isinstance(i, slice) and i.step in (None, 1):
            return rope_slice(self, i.start, i.stop)
        return _flat(self, "index into blob")[i]
    def __iter__(self):
        if self.has_blob():
            return iter(_flat(self, "iteration over blob"))
        return _SeqOps.__iter__(self)
    def _line_end(self, c, i):
        if fork(eq(c[i], 10)): return 1
        if not fork(eq(c[i], 13)): return 0
        return 2 if i + 1 < len(c) and fork(eq(c[i+1], 10)) else 1
    def splitlines(self, keepends=False):
        if self.has_blob(): return _flat(self, "splitlines of blob").splitlines(keepends)
        return _SeqOps.splitlines(self, keepends)
    def decode(self, encoding="utf-8", errors="strict"):
        return decode_bytes(self, encoding, errors)
    def isdigit(self): return self._isascii_digit()
    def hex(self, *a):
        return SYM_MARK
    def tobytes(self): return self
    def __bytes__(self): return concretize(self, "bytes()")
    def __str__(self): return SYM_MARK
    __repr__ = __str__
    def __format__(self, spec): return SYM_MARK

def _symidx(i):
    if isinstance(i, slice):
        return isinstance(i.start, SymInt) or isinstance(i.stop, SymInt)
    return isinstance(i, SymInt)

def _flat(b, why):
    return concretize(b, why)

def raise_blob(b):
    raise TypeError("search inside an opaque blob is unsupported")

def rope_slice(b, start, stop):
    if start is None: start = 0
    if isinstance(start, int) and not isinstance(start, bool) and start == 0 and stop is None:
        return b
    total = None
    def lt(a, c):
        return fork(a < c) if is_z(a) or is_z(c) else bool(a < c)
    def sz(v):
        return norm(z3.simplify(v)) if is_z(v) else v
    def fix(v):
        nonlocal total
        v = raw(v)
        if lt(v, 0):
            if total is None: total = raw(b.symlen())
            v = total + v
            if lt(v, 0): v = 0
        return v
    s = fix(start)
    e = None if stop is None else fix(stop)
    out, pos = [], 0
    started = isinstance(s, int) and s == 0
    if started and isinstance(e, int):
        # common case: a prefix of known length
        pass
    for el in b.c:
        blob = isinstance(el, Blob)
        ln = el.length if blob else 1
        nxt = sz(pos + ln)
        if e is not None and not lt(pos, e):
            break
        if not started and not lt(s, nxt):
            pos = nxt
            continue
        if not blob:
            out.append(el)
        else:
            lo = 0
            if not started and lt(pos, s):
                lo = sz(s - pos)
            cut = e is not None and lt(e, nxt)
            if isinstance(lo, int) and lo == 0 and not cut:
                out.append(el)
            else:
                hi = sz(e - pos) if cut else ln
                ln2 = sz(hi - lo)
                if lt(0, ln2):
                    out.append(Blob(el.name, sz(el.start + lo), ln2) if not isinstance(el, DigestBlob) else DigestBlob(el.digest, sz(el.start + lo), ln2))
                if cut:
                    break
        started = True
        pos = nxt
    return mkbytes(out)

def rope_merge(elems):
    """Merge adjacent runs of the same blob; drop empty runs (forks on emptiness)."""
    out = []
    for e in elems:
        if isinstance(e, Blob):
            if isinstance(e.length, int) and e.length == 0: continue
            if out and isinstance(out[-1], Blob) and out[-1].name == e.name and fork(eq(out[-1].start + out[-1].length, e.start)):
                p = out.pop()
                out.append(Blob(p.name, p.start, norm(z3.simplify(p.length + e.length)) if is_z(p.length) or is_z(e.length) else p.length + e.length))
                continue
        out.append(e)
    return [e for e in out if not isinstance(e, Blob) or not is_z(e.length) or fork(e.length > 0)]

def rope_eq(x, y):
    """Structural equality of ropes. Blobs have pairwise distinct, aperiodic, unknown contents."""
    x, y = rope_merge(x), rope_merge(y)
    if len(x) != len(y):
        return False
    parts = []
    for a, b in zip(x, y):
        if isinstance(a, Blob) != isinstance(b, Blob):
            return False
        if isinstance(a, Blob):
            if a.name != b.name: return False
            parts += [eq(a.start, b.start), eq(a.length, b.length)]
        else:
            parts.append(eq(a, b))
    return conj(parts)

def blob_bytes(name, start, length):
    """The concrete bytes of a blob (aperiodic, derived from its name)."""
    out = bytearray()
    k = 0
    need = start + length
    while len(out) < need:
        out += _real_hashlib.sha256(f"{name}:{k}".encode()).digest()
        k += 1
    return bytes(out[start:need])

class SymHash:
    """hashlib object over symbolic input: an injective uninterpreted function of the content."""
    def __init__(self, algo, data=b""):
        self.algo, self.acc = algo, []
        self.digest_size = _real_hashlib.new(algo).digest_size
        self.update(data)
    def update(self, data):
        if isinstance(data, (bytes, bytearray, memoryview)): self.acc += list(bytes(data))
        else: self.acc += list(data.c)
    def copy(self):
        h = SymHash(self.algo); h.acc = list(self.acc); return h
    def digest(self):
        data = mkbytes(self.acc)
        if isinstance(data, bytes):
            d = _real_hashlib.new(self.algo, data).digest()
            _E().cache[("digest", self.algo, d)] = list(data)
            return d
        return SymDigest(self.algo, list(data.c), self.digest_size)
    def hexdigest(self):
        d = self.digest()
        return d.hex() if isinstance(d, bytes) else SymDigestHex(d)

class SymDigest(SymBytes):
    """A digest of symbolic content. Equal to another digest exactly when the contents are equal."""
    __slots__ = ("algo", "data", "size", "c")
    def __init__(self, algo, data, size):
        self.algo, self.data, self.size = algo, data, size
        self.c = (DigestBlob(self),)
    def __len__(self): return self.size
    def symlen(self): return self.size
    def has_blob(self): return True
    def __bool__(self): return True
    def __eq__(self, o):
        return digest_eq(self, o)
    def __ne__(self, o): return _not(self.__eq__(o))
    __hash__ = SymBytes.__hash__
    def hex(self, *a): return SymDigestHex(self)

class SymDigestHex:
    def __init__(self, d): self.d = d
    def __eq__(self, o):
        return digest_eq(self.d, o.d) if isinstance(o, SymDigestHex) else digest_eq(self.d, bytes.fromhex(o)) if isinstance(o, str) else False
    def __ne__(self, o): return _not(self.__eq__(o))
    def __hash__(self): return 19
    def __str__(self): return SYM_MARK
    __repr__ = __str__
    def __len__(self): return 2 * self.d.size

class DigestBlob(Blob):
    __slots__ = ("digest",)
    def __init__(self, d, start=0, length=None):
        super().__init__(("digest", id(d)), start, d.size if length is None else length)
        self.digest = d

def digest_of_elems(c):
    if len(c) == 1 and isinstance(c[0], DigestBlob) and c[0].start == 0 and c[0].length == c[0].digest.size:
        return c[0].digest
    return None

def digest_eq(a, o):
    if isinstance(o, SymBytes):
        d = digest_of_elems(list(o.c))
        if d is None: return False
        if d.algo != a.algo: return False
        return mkbool(_content_eq(a.data, d.data))
    if isinstance(o, (bytes, bytearray)):
        known = _E().cache.get(("digest", a.algo, bytes(o)))
        if known is None: return False
        return mkbool(_content_eq(a.data, known))
    return False

def _content_eq(x, y):
    if any(isinstance(e, Blob) for e in x) or any(isinstance(e, Blob) for e in y):
        return rope_eq(x, y)
    if len(x) != len(y): return False
    return conj([eq(a, b) for a, b in zip(x, y)])

# ---------------------------------------------------------------- sets

def is_sym(v):
    return isinstance(v, (Sym, SymDigestHex)) or (isinstance(v, tuple) and any(is_sym(x) for x in v))

class SxSet:
    """A set in insertion order whose membership test compares symbolic elements."""
    def __init__(self, it=()):
        self._l, self._d, self._has_sym = [], {}, False
        for x in it:
            self.add(x)
    def _find(self, x):
        if not is_sym(x):
            if x in self._d: return True
            if not self._has_sym: return False
            return any(is_sym(e) and bool(e == x) for e in self._l)
        return any(bool(e == x) for e in self._l)
    def add(self, x):
        if self._find(x): return
        if is_sym(x): self._has_sym = True
        else: self._d[x] = None
        self._l.append(x)
    def __contains__(self, x): return self._find(x)
    def __iter__(self): return iter(list(self._l))
    def __len__(self): return len(self._l)
    def __bool__(self): return bool(self._l)
    def remove(self, x):
        for i, e in enumerate(self._l):
            if e == x:
                del self._l[i]; self._d.pop(e, None) if not is_sym(e) else None
                return
        raise KeyError(x)
    def discard(self, x):
        try: self.remove(x)
        except KeyError: pass
    def pop(self):
        if not self._l: raise KeyError("pop from an empty set")
        e = self._l[0]; self.remove(e); return e
    def clear(self): self.__init__()
    def copy(self): return SxSet(self._l)
    __copy__ = copy
    def update(self, *its):
        for it in its:
            for x in it: self.add(x)
    def union(self, *its):
        r = self.copy(); r.update(*its); return r
    def intersection(self, *its):
        r = self
        for it in its:
            s = it if isinstance(it, SxSet) else SxSet(it)
            r = SxSet(x for x in r if x in s)
        return r if r is not self else self.copy()
    def difference(self, *its):
        r = self
        for it in its:
            s = it if isinstance(it, SxSet) else SxSet(it)
            r = SxSet(x for x in r if x not in s)
        return r if r is not self else self.copy()
    def symmetric_difference(self, it):
        s = SxSet(it)
        return SxSet(list(self.difference(s)) + list(s.difference(self)))
    def difference_update(self, *its): 
        r = self.difference(*its); self.__init__(r)
    def intersection_update(self, *its):
        r = self.intersection(*its); self.__init__(r)
    def issubset(self, o):
        s = SxSet(o); return all(x in s for x in self)
    def issuperset(self, o): return all(x in self for x in o)
    def isdisjoint(self, o): return not any(x in self for x in o)
    def _setlike(self, o): return isinstance(o, (SxSet, set, frozenset, type({}.keys())))
    def __or__(self, o): return self.union(o) if self._setlike(o) else NotImplemented
    def __ror__(self, o): return SxSet(o).union(self) if self._setlike(o) else NotImplemented
    def __and__(self, o): return self.intersection(o) if self._setlike(o) else NotImplemented
    def __rand__(self, o): return SxSet(o).intersection(self) if self._setlike(o) else NotImplemented
    def __sub__(self, o): return self.difference(o) if self._setlike(o) else NotImplemented
    def __rsub__(self, o): return SxSet(o).difference(self) if self._setlike(o) else NotImplemented
    def __xor__(self, o): return self.symmetric_difference(o) if self._setlike(o) else NotImplemented
    def __ior__(self, o): self.update(o); return self
    def __isub__(self, o): self.difference_update(o); return self
    def __iand__(self, o): self.intersection_update(o); return self
    def __eq__(self, o):
        if not self._setlike(o): return False
        s = o if isinstance(o, SxSet) else SxSet(o)
        return len(s) == len(self) and all(x in s for x in self)
    def __ne__(self, o): return not self.__eq__(o)
    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)
    __hash__ = None
    def __repr__(self): return "{" + ", ".join(map(repr, self._l)) + "}" if self._l else "set()"

# ---------------------------------------------------------------- concretisation and evaluation

def concretize(v, why):
    """Replace symbolic parts by one feasible value each (recorded: the exploration is then incomplete)."""
    E = _E()
    if isinstance(v, SymBool):
        return bool(v)
    if isinstance(v, SymInt):
        return E.pick(v.e, why)
    if isinstance(v, SymDigest):
        return _real_hashlib.new(v.algo, concretize(SymBytes(v.data), why)).digest()
    if isinstance(v, SymStr):
        return "".join(chr(e if isinstance(e, int) else E.pick(e, why)) for e in v.c)
    if isinstance(v, SymBytes):
        out = b""
        for e in v.c:
            if isinstance(e, DigestBlob):
                out += concretize(e.digest, why)[e.start:e.start+e.length]
            elif isinstance(e, Blob):
                st = e.start if isinstance(e.start, int) else E.pick(e.start, why)
                ln = e.length if isinstance(e.length, int) else E.pick(e.length, why)
                out += blob_bytes(e.name, st, ln)
            else:
                out += bytes([e if isinstance(e, int) else E.pick(e, why)])
        return out
    if isinstance(v, SymDigestHex):
        return concretize(v.d, why).hex()
    if type(v) is list: return [concretize(x, why) for x in v]
    if type(v) is tuple: return tuple(concretize(x, why) for x in v)
    if type(v) is dict: return {concretize(k, why): concretize(x, why) for k, x in v.items()}
    if isinstance(v, SxSet): return set(concretize(x, why) for x in v)
    return v

def has_sym(v, depth=3):
    if isinstance(v, (Sym, SymDigestHex)): return True
    if depth:
        if type(v) in (list, tuple): return any(has_sym(x, depth-1) for x in v)
        if type(v) is dict: return any(has_sym(k, 0) or has_sym(x, depth-1) for k, x in v.items())
        if isinstance(v, SxSet): return True
    return False

def model_int(m, e):
    return e if isinstance(e, int) else m.eval(e, model_completion=True).as_long()

def evaluate(v, m):
    """Value of v under the model m (plain Python data; bytes with blobs are expanded)."""
    if isinstance(v, SymBool): return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymInt): return model_int(m, v.e)
    if isinstance(v, NumStr) : return num_render(model_int(m, v.num), v.base)
    if isinstance(v, SymStr): return "".join(chr(model_int(m, e)) for e in v.c)
    if isinstance(v, SymDigest): return _real_hashlib.new(v.algo, evaluate(SymBytes(v.data), m)).digest()
    if isinstance(v, SymDigestHex): return evaluate(v.d, m).hex()
    if isinstance(v, SymBytes):
        out = b""
        for e in v.c:
            if isinstance(e, DigestBlob): out += evaluate(e.digest, m)[e.start:e.start+e.length]
            elif isinstance(e, Blob): out += blob_bytes(e.name, model_int(m, e.start), model_int(m, e.length))
            else: out += bytes([model_int(m, e)])
        return out
    if isinstance(v, SxSet): return [evaluate(x, m) for x in v]
    if isinstance(v, (set, frozenset)): return sorted((evaluate(x, m) for x in v), key=repr)
    if type(v) in (list, tuple): return [evaluate(x, m) for x in v]
    if type(v) is dict: return {evaluate(k, m): evaluate(x, m) for k, x in v.items()}
    return v

# ---------------------------------------------------------------- everything not covered above: one feasible value (recorded)

def _fallback(cls, native, *names):
    for n in names:
        if n in vars(cls): continue
        def f(self, *a, _n=n, **k):
            why = f"{native.__name__}.{_n}"
            return getattr(concretize(self, why), _n)(*[concretize(x, why) for x in a], **{i: concretize(x, why) for i, x in k.items()})
        setattr(cls, n, f)

_fallback(SymStr, str, "center", "format_map", "istitle")
_fallback(SymBytes, bytes, "__mod__", "capitalize", "center", "expandtabs", "isalnum", "isalpha", "isascii", "islower", "istitle", "isupper", "swapcase", "title", "translate")
_fallback(SymInt, int, "__ceil__", "__floor__", "__round__", "__trunc__", "as_integer_ratio", "bit_count", "conjugate", "is_integer")
SymStr.maketrans = staticmethod(str.maketrans)
SymBytes.maketrans = staticmethod(bytes.maketrans)
SymBytes.fromhex = staticmethod(bytes.fromhex)
