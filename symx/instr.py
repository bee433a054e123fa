"""Source instrumentation: the code under test is compiled from its current source with calls,
subscripts, membership tests, f-strings and set displays routed through helpers that understand
symbolic values. Semantics for ordinary values are unchanged."""

import ast
import builtins
import functools
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import operator
import os
import posixpath
import re
import stat as _stat_mod
import struct
import sys
import types
import z3
from . import core, values as V
from .values import (Sym, SymBool, SymInt, SymStr, SymBytes, SymHash, SymDigest, SymDigestHex, NumStr, SxSet,
                     mkstr, mkint, mkbool, mkbytes, concretize, has_sym, is_sym, raw, fork, eq, conj, disj)

MARK = "__sx_instr__"

# ---------------------------------------------------------------- transformer

_LEAVE = {"super", "locals", "globals", "vars", "dir", "exec", "eval", "__import__", "property", "staticmethod", "classmethod"}

class Instrumenter(ast.NodeTransformer):
    def _h(self, name, args, node):
        return ast.copy_location(ast.Call(func=ast.Name(id="__sx_" + name + "__", ctx=ast.Load()), args=args, keywords=[]), node)

    # annotations stay as they are
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node
    def visit_arg(self, node):
        return node
    def _func(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [None if d is None else self.visit(d) for d in node.args.kw_defaults]
        node.body = [self.visit(s) for s in node.body] if isinstance(node.body, list) else self.visit(node.body)
        node.body = _flatten(node.body)
        return node
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return self._func(node)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.visit(node.body)
        return node

    def visit_Call(self, node):
        f = node.func
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        if isinstance(f, ast.Name):
            if f.id in _LEAVE:
                return node
            node.func = self._h("res", [f], f)
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ("inspect", "sys", "typing", "importlib"):
                return node
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return node
            if f.attr.startswith("__") and not f.attr.endswith("__"):
                f.value = self.visit(f.value)      # private name mangling: leave the attribute access alone
                return node
            node.func = self._h("meth", [self.visit(f.value), ast.copy_location(ast.Constant(f.attr), f)], f)
        else:
            node.func = self._h("res", [self.visit(f)], f)
        return node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            return self._h("getitem", [node.value, _slice_expr(node.slice)], node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # evaluation order: value, container, key
            call = self._h("setitem", [self.visit(node.value), self.visit(t.value), _slice_expr(self.visit(t.slice))], node)
            return ast.copy_location(ast.Expr(call), node)
        return self.generic_visit(node)

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                call = self._h("delitem", [self.visit(t.value), _slice_expr(self.visit(t.slice))], node)
                out.append(ast.copy_location(ast.Expr(call), node))
            else:
                out.append(ast.copy_location(ast.Delete([self.visit(t)]), node))
        return out

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            op, right = node.ops[0], node.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self._h("in", [node.left, right], node)
                return ast.copy_location(ast.UnaryOp(ast.Not(), c), node) if isinstance(op, ast.NotIn) else c
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(right, ast.Constant) and isinstance(right.value, bool):
                c = self._h("isbool", [node.left, right], node)
                return ast.copy_location(ast.UnaryOp(ast.Not(), c), node) if isinstance(op, ast.IsNot) else c
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._h("mod", [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit_JoinedStr(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.fix_missing_locations(self._h("fstr", parts, node))

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return self._h("mkset", [ast.copy_location(ast.List(node.elts, ast.Load()), node)], node)
    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        g = ast.copy_location(ast.GeneratorExp(node.elt, node.generators), node)
        return self._h("mkset", [g], node)
    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        g = ast.copy_location(ast.GeneratorExp(ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node), node.generators), node)
        return self._h("mkdict", [g], node)

def _slice_expr(s):
    if isinstance(s, ast.Slice):
        none = lambda x: x if x is not None else ast.Constant(None)
        return ast.copy_location(ast.Call(ast.Name("__sx_slice__", ast.Load()), [none(s.lower), none(s.upper), none(s.step)], []), s)
    if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
        return ast.copy_location(ast.Tuple([_slice_expr(e) for e in s.elts], ast.Load()), s)
    return s

def _flatten(body):
    if not isinstance(body, list):
        return body
    out = []
    for b in body:
        out.extend(b) if isinstance(b, list) else out.append(b)
    return out

def compile_instrumented(source, filename):
    tree = ast.parse(source, filename)
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" for n in tree.body)
    tree = Instrumenter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)

# ---------------------------------------------------------------- helpers (run time)

SPECIAL = {}        # callable -> replacement
SAFE = set()        # native callables that may receive symbolic values unchanged
_instr_cache = {}

def special(*targets):
    def deco(f):
        for t in targets:
            SPECIAL[t] = f
        return f
    return deco

def _hashable_get(d, k):
    try:
        return d.get(k)
    except TypeError:
        return None

def _is_instrumented_globals(g):
    return MARK in g

def native_wrapper(f):
    """Call a native function, concretising symbolic arguments it could not understand."""
    name = getattr(f, "__qualname__", None) or getattr(f, "__name__", repr(f))
    def call(*a, **k):
        if core.E is not None and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            a = [concretize(x, f"call {name}") if has_sym(x) else x for x in a]
            k = {n: concretize(x, f"call {name}") if has_sym(x) else x for n, x in k.items()}
        return f(*a, **k)
    return call

_FN = types.FunctionType
_BM = types.MethodType
_BF = types.BuiltinFunctionType
_MD = type(str.strip)               # method_descriptor
_MW = type("".__add__)              # method-wrapper
_WD = type(str.__add__)             # wrapper_descriptor
_CM = type(dict.__dict__["fromkeys"])

def res(f):
    t = type(f)
    if t is _FN:
        s = SPECIAL.get(f)
        if s is not None:
            return s
        g = f.__globals__
        if MARK in g or f in SAFE:
            return f
        if g.get("__name__", "").startswith(("symx", "model", "harness", "functools", "dataclasses", "contextlib", "typing", "copy", "logging", "inspect")):
            return f
        if f.__code__.co_filename.startswith("<"):      # generated (dataclass __init__ etc.)
            return f
        return native_wrapper(f)
    if t is _BM:
        fn = f.__func__
        if type(fn) is _FN:
            g = fn.__globals__
            if MARK in g or fn in SAFE or fn.__code__.co_filename.startswith("<"):
                return f
            n = g.get("__name__", "")
            if n.startswith(("symx", "model", "harness", "contextlib", "functools", "enum", "collections", "typing", "inspect")):
                return f
            s = SPECIAL.get(fn)
            if s is not None:
                return functools.partial(s, f.__self__)
            return native_wrapper(f)
        return f
    if t is _BF or t is _MW:
        s = _hashable_get(SPECIAL, f)
        if s is not None:
            return s
        slf = getattr(f, "__self__", None)
        if slf is not None and not isinstance(slf, types.ModuleType):
            if isinstance(slf, (str, bytes, dict)) and t is _BF:
                return meth(slf, f.__name__)
            return f            # methods of other containers and objects do not inspect elements natively
        if _hashable_get_safe(f):
            return f
        return native_wrapper(f)
    if t is _MD or t is _WD:
        own = f.__objclass__
        if own in (str, bytes, dict):
            name = f.__name__
            return lambda slf, *a, **k: meth(slf, name)(*a, **k)
        return f
    if isinstance(f, type):
        s = SPECIAL.get(f)
        if s is not None:
            return s
        if issubclass(f, BaseException) or f in SAFE:
            return f
        mod = sys.modules.get(getattr(f, "__module__", None))
        if mod is not None and MARK in vars(mod):
            return f
        if f.__module__ in ("builtins", "io", "datetime", "pathlib", "decimal", "fractions", "ipaddress", "shlex", "string", "uuid"):
            return native_wrapper(f)
        return f
    if t is functools.partial:
        inner = res(f.func)
        if inner is f.func:
            return f
        return functools.partial(inner, *f.args, **f.keywords)
    return f

def _hashable_get_safe(f):
    try:
        return f in SAFE
    except TypeError:
        return False

def _lift_s(x):
    return SymStr([ord(c) for c in x]) if isinstance(x, str) else x
def _lift_b(x):
    return SymBytes(list(x)) if isinstance(x, (bytes, bytearray)) else x

def meth(obj, name):
    t = type(obj)
    if t is str:
        if name == "join":
            def join(it):
                it = list(it)
                if any(isinstance(x, SymStr) for x in it):
                    return _lift_s(obj).join(it)
                return obj.join(it)
            return join
        if name == "format":
            return lambda *a, **k: str_format(obj, a, k)
        nat = getattr(obj, name)
        def call(*a, **k):
            if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
                return getattr(_lift_s(obj), name)(*a, **k)
            return nat(*a, **k)
        return call
    if t is bytes:
        if name == "join":
            def bjoin(it):
                it = list(it)
                if any(isinstance(x, SymBytes) for x in it):
                    return _lift_b(obj).join(it)
                return obj.join(it)
            return bjoin
        nat = getattr(obj, name)
        def bcall(*a, **k):
            if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
                return getattr(_lift_b(obj), name)(*a, **k)
            return nat(*a, **k)
        return bcall
    if t is dict or (t is not type and isinstance(obj, dict) and t.__module__ in ("collections", "builtins")):
        f = _DICT_METHODS.get(name)
        if f is not None:
            return functools.partial(f, obj)
        return getattr(obj, name)
    if t is set or t is frozenset:
        nat = getattr(obj, name)
        def scall(*a):
            if any(has_sym(x) for x in a):
                s = SxSet(obj)
                r = getattr(s, name)(*a)
                if name in ("add", "update", "remove", "discard", "clear", "difference_update", "intersection_update", "pop"):
                    raise TypeError("symbolic element added to a native set")
                return r
            return nat(*a)
        return scall
    return res(getattr(obj, name))

# ---- dictionaries with symbolic keys

def _dkey(d, k):
    """The key of d equal to the (symbolic) key k on this path, or None if there is none."""
    for x in list(d):
        if type(x) is type(k) or is_sym(x) or isinstance(x, (str, bytes, int, tuple)):
            if bool(x == k):
                return (x,)
    return None

def _any_symkey(d):
    return any(is_sym(x) for x in d)

def _need_scan(d, k):
    return is_sym(k) or (d and isinstance(k, (str, bytes, int, tuple)) and _any_symkey(d))

def d_get(d, k, default=None):
    if _need_scan(d, k):
        h = _dkey(d, k)
        return default if h is None else d[h[0]]
    return d.get(k, default)
_MISSING = object()
def d_pop(d, k, default=_MISSING):
    if _need_scan(d, k):
        h = _dkey(d, k)
        if h is None:
            if default is _MISSING: raise KeyError(k)
            return default
        return d.pop(h[0])
    return d.pop(k) if default is _MISSING else d.pop(k, default)
def d_setdefault(d, k, default=None):
    if _need_scan(d, k):
        h = _dkey(d, k)
        if h is None:
            d[k] = default
            return default
        return d[h[0]]
    return d.setdefault(k, default)
def d_contains(d, k):
    return _dkey(d, k) is not None if _need_scan(d, k) else d.__contains__(k)
def d_getitem(d, k):
    if _need_scan(d, k):
        h = _dkey(d, k)
        if h is None:
            miss = getattr(type(d), "__missing__", None)
            if miss is not None: return miss(d, k)
            raise KeyError(k)
        return d[h[0]]
    return d[k]
def d_update(d, *a, **k):
    for o in a:
        items = o.items() if hasattr(o, "keys") else o
        for x, v in list(items):
            setitem(v, d, x)
    for x, v in k.items():
        setitem(v, d, x)
_DICT_METHODS = {"get": d_get, "pop": d_pop, "setdefault": d_setdefault, "__contains__": d_contains, "__getitem__": d_getitem, "update": d_update}

_KV = (type({}.keys()),)

def getitem(o, k):
    t = type(o)
    if t is dict or (t is not type and isinstance(o, dict)):
        if _need_scan(o, k):
            return d_getitem(o, k)
        return o[k]
    if t is str and isinstance(k, (SymInt, slice)):
        return o[_fix_index(k)]
    if t is bytes and isinstance(k, slice) and (isinstance(k.start, SymInt) or isinstance(k.stop, SymInt)):
        return V.rope_slice(_lift_b(o), k.start, k.stop)
    if isinstance(k, (SymInt, slice)) and t in (list, tuple, bytes):
        return o[_fix_index(k)]
    return o[k]

def _fix_index(k):
    if isinstance(k, slice):
        f = lambda x: x.__index__() if isinstance(x, SymInt) else x
        return slice(f(k.start), f(k.stop), f(k.step))
    return k.__index__()

def setitem(v, o, k):
    if isinstance(o, dict) and _need_scan(o, k):
        h = _dkey(o, k)
        if h is not None:
            o[h[0]] = v
            return
        dict.__setitem__(o, k, v)
        return
    if isinstance(k, SymInt):
        k = k.__index__()
    o[k] = v

def delitem(o, k):
    if isinstance(o, dict) and _need_scan(o, k):
        h = _dkey(o, k)
        if h is None: raise KeyError(k)
        del o[h[0]]
        return
    del o[k]

def contains(x, c):
    t = type(c)
    if isinstance(c, dict) or t is type({}.keys()):
        d = c if isinstance(c, dict) else c.mapping
        if _need_scan(d, x):
            return _dkey(d, x) is not None
        return x in c
    if t is str and isinstance(x, SymStr):
        return _lift_s(c).__contains__(x)
    if t is bytes and isinstance(x, (SymBytes, SymInt)):
        return _lift_b(c).__contains__(x)
    if t in (set, frozenset) and is_sym(x):
        return any(bool(e == x) for e in c)
    if t is range and isinstance(x, SymInt):
        if c.step == 1:
            return bool(x >= c.start) and bool(x < c.stop)
    return x in c

def isbool(x, b):
    if isinstance(x, SymBool):
        return bool(x) == b
    return x is b

def mkset(it):
    return SxSet(it)

def mkdict(it):
    d = {}
    for k, v in it:
        setitem(v, d, k)
    return d

def fmt_value(v, conv, spec):
    if conv == ord("r") or conv == ord("a"):
        if isinstance(v, SymStr):
            v = "'" + v + "'"
        elif not isinstance(v, Sym):
            v = repr(v)
    elif conv == ord("s"):
        v = to_str(v)
    if isinstance(spec, SymStr):
        spec = concretize(spec, "format spec")
    if isinstance(v, (SymInt, SymStr, SymBytes, SymBool, SymDigestHex)):
        if isinstance(v, SymBool):
            v = bool(v)
            return format(v, spec)
        if not spec:
            return to_str(v)
        return fmt_spec(v, spec)
    if isinstance(v, BaseException) and not spec:
        return to_str(v)
    return format(v, spec)

def fmt_spec(v, spec):
    m = re.fullmatch(r"(?:(.)?([<>^]))?(0)?(\d+)?([sdoxX]?)", spec)
    if m is None:
        return format(concretize(v, "format spec " + spec), spec)
    fill, align, zero, width, ty = m.groups()
    if isinstance(v, SymInt):
        base = {"": 10, "d": 10, "o": 8, "x": 16}.get(ty)
        if base is None:
            return format(concretize(v, "format spec " + spec), spec)
        s = V.numstr(v, base)
        align = align or ">"
        fill = fill or ("0" if zero else " ")
    else:
        s = to_str(v)
        align = align or "<"
        fill = fill or " "
    if not width:
        return s
    w = int(width)
    if isinstance(s, NumStr) and len(s.c) >= w:
        return s
    s = _lift_s(s)
    return s.ljust(w, fill) if align == "<" else s.rjust(w, fill)

def fstr(*parts):
    out = []
    sym = False
    vals = []
    for p in parts:
        if type(p) is tuple:
            p = fmt_value(*p)
        if isinstance(p, SymStr):
            sym = True
        vals.append(p)
    if not sym:
        return "".join(vals)
    vals = [v for v in vals if not (isinstance(v, str) and v == "")]
    if len(vals) == 1:
        return vals[0]
    for v in vals:
        out += V.s_elems(v)
    return mkstr(out)

def str_format(s, a, k):
    if not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
        return s.format(*a, **k)
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]; auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            return s.format(*concretize(list(a), "str.format"), **concretize(k, "str.format"))
        out.append((v, ord(conv) if conv else -1, spec or ""))
    return fstr(*out)

def mod(l, r):
    if isinstance(l, str):
        if not has_sym(r):
            return l % r
        args = list(r) if isinstance(r, tuple) else [r]
        out, i = [], 0
        for piece in re.split(r"(%[sdorx%])", l):
            if re.fullmatch(r"%[sdorx]", piece):
                v = args[i]; i += 1
                ty = piece[1]
                if ty == "r": out.append((v, ord("r"), ""))
                elif ty == "s": out.append((v, -1, ""))
                else: out.append((v, -1, ty))
            elif piece == "%%": out.append("%")
            elif "%" in piece:
                return l % concretize(r, "% formatting")
            else: out.append(piece)
        return fstr(*out)
    return l % r

def to_str(v):
    if isinstance(v, SymStr): return v
    if isinstance(v, SymInt): return V.numstr(v)
    if isinstance(v, SymBool): return str(bool(v))
    if isinstance(v, BaseException) and type(v).__str__ in (BaseException.__str__, Exception.__str__) and len(v.args) == 1 and isinstance(v.args[0], SymStr):
        return v.args[0]
    if type(v) in (list, tuple, dict, set) and _has_sym(v):
        return sx_repr(v)
    return str(v)

def _has_sym(v, depth=4):
    if isinstance(v, (SymStr, SymInt, SymBool, SymBytes)): return True
    if depth == 0: return False
    if type(v) in (list, tuple, set): return any(_has_sym(x, depth - 1) for x in v)
    if type(v) is dict: return any(_has_sym(x, depth - 1) or _has_sym(k, depth - 1) for k, x in v.items())
    return False

def _repr_text(v):
    """repr of symbolic text or bytes, forking on what each element needs."""
    isb = isinstance(v, SymBytes)
    if isb and any(isinstance(c, V.Blob) for c in v.c):
        return V.SYM_MARK
    def has(ch): return V.fork(V.disj([V.eq(c, ord(ch)) for c in v.c]))
    q = '"' if has("'") and not has('"') else "'"
    out = [] if not isb else [ord("b")]
    out.append(ord(q))
    def hexa(c, n):
        return [ord(x) if isinstance(x, str) and len(x) == 1 else x for x in _lift_s(fmt_spec(V.mkint(c), f"0{n}x")).c]
    for c in v.c:
        for ch, r in (("\\", "\\\\"), ("\n", "\\n"), ("\r", "\\r"), ("\t", "\\t"), (q, "\\" + q)):
            if V.fork(V.eq(c, ord(ch))):
                out += [ord(x) for x in r]
                break
        else:
            ok = V.fork(V.is_printable(c)) if not isb else V.fork(V.between(0x20, c, 0x7e))
            if ok:
                out.append(c)
            elif isb or V.fork(c <= 0xff):
                out += [ord("\\"), ord("x")] + hexa(c, 2)
            elif V.fork(c <= 0xffff):
                out += [ord("\\"), ord("u")] + hexa(c, 4)
            else:
                out += [ord("\\"), ord("U")] + hexa(c, 8)
    out.append(ord(q))
    return V.mkstr(out)

# ---- builtins

_TYPEMAP = ((SymBool, bool), (SymInt, int), (SymStr, str), (SymBytes, bytes), (SymDigestHex, str), (SxSet, set))

def sx_type_of(v):
    for s, t in _TYPEMAP:
        if isinstance(v, s):
            return t
    return type(v)

@special(isinstance)
def sx_isinstance(v, cls):
    t = None
    for s, ty in _TYPEMAP:
        if isinstance(v, s):
            t = ty
            break
    if t is None:
        return isinstance(v, cls)
    if isinstance(v, cls):
        return True
    try:
        return issubclass(t, cls)
    except TypeError:
        return isinstance(t(), cls)

@special(type)
def sx_type(*a, **k):
    if len(a) == 1 and not k:
        return sx_type_of(a[0])
    return type(*a, **k)

@special(str)
def sx_str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    if a and isinstance(a[0], SymBytes):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)

@special(repr)
def sx_repr(v):
    if isinstance(v, (SymStr, SymBytes)) and type(v) in (SymStr, SymBytes): return _repr_text(v)
    if isinstance(v, SymStr): return "'" + v + "'"
    if isinstance(v, SymInt): return V.numstr(v)
    if type(v) in (list, tuple, dict, set) and _has_sym(v):
        def join(parts):
            t = ""
            for i, p in enumerate(parts):
                t = t + (", " if i else "") + p
            return t
        if type(v) is dict: return "{" + join([sx_repr(k) + ": " + sx_repr(x) for k, x in v.items()]) + "}"
        body = join([sx_repr(x) for x in v])
        if type(v) is list: return "[" + body + "]"
        if type(v) is set: return "{" + body + "}"
        return "(" + body + ("," if len(v) == 1 else "") + ")"
    return repr(v)

@special(int)
def sx_int(*a, **k):
    if not a: return int(*a, **k)
    v = a[0]
    base = a[1] if len(a) > 1 else k.get("base", 10)
    if isinstance(v, SymInt): return v
    if isinstance(v, SymBool): return mkint(raw(v))
    if isinstance(v, SymStr): return V.parse_int(v, base)
    if isinstance(v, SymBytes): return V.parse_int(SymStr(v.c), base)
    return int(*a, **k)
sx_int.from_bytes = int.from_bytes

@special(int.from_bytes)
def sx_from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, SymBytes):
        c = list(b.c)
        return V.unpack_int(c if byteorder == "big" else c[::-1], signed)
    return int.from_bytes(b, byteorder, signed=signed)

@special(bool)
def sx_bool(v=False):
    if isinstance(v, SymBool): return v
    if isinstance(v, SymInt): return mkbool(v.e != 0)
    return bool(v)

@special(len)
def sx_len(v):
    if isinstance(v, SymBytes) and not isinstance(v, SymDigest) and v.has_blob():
        return v.symlen()
    return len(v)

def _basefn(base, prefix, native):
    def f(v):
        if isinstance(v, SymInt):
            if bool(v < 0):
                return "-" + prefix + V.numstr(-v, base)
            return prefix + V.numstr(v, base) if not isinstance(v, int) else native(v)
        return native(v)
    return f

class PrefNum(SymStr):
    """'0o' + digits (or 0x, 0b) of a symbolic non-negative integer, kept lazy so that [2:] stays lazy."""
    __slots__ = ("num", "base", "prefix", "_c")
    def __init__(self, num, base, prefix):
        self.num, self.base, self.prefix, self._c = num, base, prefix, None
    @property
    def c(self):
        if self._c is None:
            self._c = tuple([ord(x) for x in self.prefix] + V.render_int(self.num, self.base))
        return self._c
    def __bool__(self): return True
    def __getitem__(self, i):
        if isinstance(i, slice) and i.start == 2 and i.stop is None and i.step is None:
            return NumStr(self.num, self.base)
        return SymStr.__getitem__(self, i)
    def removeprefix(self, p):
        if isinstance(p, str) and p == self.prefix:
            return NumStr(self.num, self.base)
        return SymStr.removeprefix(self, p)
    def lstrip(self, chars=None):
        if chars == self.prefix and self.base == 8 and bool(mkbool(self.num > 0)):
            return NumStr(self.num, self.base)
        return SymStr.lstrip(self, chars)

def _mkbase(base, prefix, native):
    def f(v):
        if isinstance(v, SymInt):
            if bool(v < 0):
                return mkstr([45] + [ord(c) for c in prefix] + V.render_int(raw(-v), base))
            return PrefNum(v.e, base, prefix)
        return native(v)
    return f
SPECIAL[oct] = _mkbase(8, "0o", oct)
SPECIAL[hex] = _mkbase(16, "0x", hex)
SPECIAL[bin] = _mkbase(2, "0b", bin)

@special(chr)
def sx_chr(v):
    if isinstance(v, SymInt):
        if not bool(mkbool(V.between(0, v.e, 0x10ffff))):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([v.e])
    return chr(v)

@special(ord)
def sx_ord(v):
    if isinstance(v, (SymStr, SymBytes)):
        if len(v) != 1: raise TypeError("ord() expected a character")
        return mkint(list(v.c)[0])
    return ord(v)

@special(bytes)
def sx_bytes(*a, **k):
    if a and isinstance(a[0], SymBytes): return a[0]
    if a and isinstance(a[0], SymStr): return a[0].encode(*a[1:], **k)
    if len(a) == 1 and not isinstance(a[0], (int, str, bytes, bytearray, memoryview)) and not hasattr(a[0], "__bytes__"):
        if isinstance(a[0], SymInt): return bytes(a[0].__index__())
        it = list(a[0])
        if any(is_sym(x) for x in it): return mkbytes([raw(x) for x in it])
        return bytes(it)
    return bytes(*a, **k)

@special(bytearray)
def sx_bytearray(*a, **k):
    if a and isinstance(a[0], Sym):
        return SxByteArray(sx_bytes(*a, **k))
    return SxByteArray(bytes(*a, **k))

class SxByteArray(SymBytes):
    """bytearray replacement for instrumented code."""
    __slots__ = ("c",)
    def __init__(self, init=b""):
        self.c = tuple(V.b_elems(init))
    def extend(self, b): self.c = self.c + tuple(V.b_elems(b) if not isinstance(b, (list, tuple)) else [raw(x) for x in b])
    def append(self, x): self.c = self.c + (raw(x),)
    def __iadd__(self, b): self.extend(b); return self
    def clear(self): self.c = ()
    def pop(self, i=-1):
        l = list(self.c); x = l.pop(i); self.c = tuple(l); return mkint(x)
    def __len__(self):
        return SymBytes.__len__(self)
    def __bool__(self):
        return bool(self.c) and SymBytes.__bool__(self)

@special(memoryview)
def sx_memoryview(v):
    return v if isinstance(v, Sym) else memoryview(v)

@special(set, frozenset)
def sx_set(it=()):
    return SxSet(it)

@special(dict)
def sx_dict(*a, **k):
    d = {}
    if a:
        src = a[0]
        if isinstance(src, dict): d.update(src)
        elif hasattr(src, "keys"): d.update(dict(src))
        else:
            for x, v in src: setitem(v, d, x)
    d.update(k)
    return d

@special(range)
def sx_range(*a):
    return range(*[x.__index__() if isinstance(x, SymInt) else x for x in a])

@special(map)
def sx_map(f, *its):
    return map(res(f), *its)
@special(filter)
def sx_filter(f, it):
    return filter(None if f is None else res(f), it)
@special(sorted)
def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=None if key is None else res(key), reverse=reverse)
@special(min)
def sx_min(*a, **k):
    if k.get("key") is not None: k["key"] = res(k["key"])
    return min(*a, **k)
@special(max)
def sx_max(*a, **k):
    if k.get("key") is not None: k["key"] = res(k["key"])
    return max(*a, **k)
@special(functools.reduce)
def sx_reduce(f, *a):
    return functools.reduce(res(f), *a)
@special(functools.partial)
def sx_partial(f, *a, **k):
    return functools.partial(f, *a, **k)

@special(print)
def sx_print(*a, **k):
    f = k.get("file")
    if f is None:
        f = sys.stdout
    if getattr(f, "records", False):
        # a recorder of the harness takes symbolic text as well
        sep, end = k.get("sep"), k.get("end")
        text = ""
        for i, x in enumerate(a):
            if i: text = text + (" " if sep is None else sep)
            text = text + to_str(x)
        f.write(text + ("\n" if end is None else end))
    elif core.E is None:
        print(*a, **k)

@special(hash)
def sx_hash(v):
    return hash(v)

@special(getattr)
def sx_getattr(o, n, *d):
    if isinstance(n, SymStr):
        for cand in list(getattr(o, "_fields", ())) + [x for x in dir(o) if not x.startswith("__")]:
            if bool(n == cand): return getattr(o, cand)
        n = concretize(n, "getattr name")
    return getattr(o, n, *d)
@special(hasattr)
def sx_hasattr(o, n):
    if isinstance(n, SymStr):
        n = concretize(n, "hasattr name")
    return hasattr(o, n)
@special(setattr)
def sx_setattr(o, n, v):
    setattr(o, concretize(n, "setattr name") if isinstance(n, SymStr) else n, v)

for _f in (list, tuple, zip, enumerate, reversed, iter, next, any, all, sum, id, callable, object, slice, abs, divmod, round, pow,
           issubclass, delattr, Exception, types.SimpleNamespace, operator.itemgetter, operator.attrgetter, super):
    SAFE.add(_f)
for _m in (operator,):
    for _n in dir(_m):
        _x = getattr(_m, _n)
        if callable(_x) and not isinstance(_x, type):
            try: SAFE.add(_x)
            except TypeError: pass

# ---- struct

_FMT = {"?": (1, None), "b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False), "c": (1, "c")}

def _parse_fmt(fmt):
    order = ">"
    f = fmt
    if f and f[0] in "<>=!@":
        order, f = f[0], f[1:]
    codes = []
    for n, c in re.findall(r"(\d*)([a-zA-Z?])", f):
        if c == "s": codes.append(("s", int(n or 1)))
        else: codes += [(c, 1)] * int(n or 1)
    return order, codes

@special(struct.pack)
def sx_pack(fmt, *a):
    if not any(is_sym(x) for x in a):
        return struct.pack(fmt, *a)
    order, codes = _parse_fmt(fmt)
    if order not in "<>!" or any(c not in _FMT and c != "s" for c, _ in codes) or len(codes) != len(a):
        return struct.pack(fmt, *concretize(list(a), "struct.pack"))
    out = []
    for (c, n), v in zip(codes, a):
        if c == "s":
            b = V.b_elems(v)[:n]; out += b + [0] * (n - len(b)); continue
        if not is_sym(v):
            out += list(struct.pack(order + c, v)); continue
        if c == "?":
            t = v.e if isinstance(v, SymBool) else (v.e != 0 if isinstance(v, SymInt) else bool(v))
            out.append(z3.If(t, z3.IntVal(1), z3.IntVal(0)) if V.is_z(t) else int(t)); continue
        if not isinstance(v, (SymInt, SymBool)):
            raise struct.error("required argument is not an integer")
        size, signed = _FMT[c]
        out += V.b_elems(V.pack_int(mkint(raw(v)), size, signed, "big" if order != "<" else "little", struct.error))
    return mkbytes(out)

@special(struct.unpack)
def sx_unpack(fmt, b):
    if not isinstance(b, SymBytes):
        return struct.unpack(fmt, b)
    order, codes = _parse_fmt(fmt)
    if order not in "<>!" or any(c not in _FMT and c != "s" for c, _ in codes):
        return struct.unpack(fmt, concretize(b, "struct.unpack"))
    need = struct.calcsize(fmt)
    ln = b.symlen()
    if bool(ln != need):
        raise struct.error(f"unpack requires a buffer of {need} bytes")
    if b.has_blob():
        return struct.unpack(fmt, concretize(b, "struct.unpack of blob"))
    c, out, i = V.b_elems(b), [], 0
    for k, n in codes:
        if k == "s":
            out.append(mkbytes(c[i:i+n])); i += n; continue
        size, signed = _FMT[k]
        part = c[i:i+size]; i += size
        if order == "<": part = part[::-1]
        if k == "?": out.append(mkbool(part[0] != 0) if V.is_z(part[0]) else part[0] != 0)
        elif k == "c": out.append(mkbytes(part))
        else: out.append(V.unpack_int(part, signed))
    return tuple(out)

class SxStruct:
    def __init__(self, fmt):
        self.format, self.size = fmt, struct.calcsize(fmt)
    def pack(self, *a): return sx_pack(self.format, *a)
    def unpack(self, b): return sx_unpack(self.format, b)
SPECIAL[struct.Struct] = SxStruct
SAFE.add(struct.calcsize)

# ---- in-memory files

class SymBytesIO:
    """io.BytesIO / io.StringIO over symbolic content."""
    empty = b""
    def __init__(self, initial=None, **k):
        self.buf = self.empty if initial is None else initial
        self.pos = 0
        self.at_end = initial is None
        self.closed = False
    def write(self, data):
        n = sx_len(data)
        if isinstance(data, str) != isinstance(self.empty, str) and not isinstance(data, SymStr):
            raise TypeError(f"a bytes-like object is required, not '{type(data).__name__}'")
        if isinstance(data, (SymStr, str)) and self.empty == b"":
            raise TypeError("a bytes-like object is required, not 'str'")
        if self.at_end or self.pos == sx_len(self.buf):
            self.buf = self.buf + data
        else:
            self.buf = getitem(self.buf, slice(None, self.pos)) + data + getitem(self.buf, slice(self.pos + n, None))
        self.pos = self.pos + n
        return n
    def writelines(self, it):
        for x in it: self.write(x)
    def getvalue(self): return self.buf
    getbuffer = getvalue
    def read(self, n=-1):
        if n is None or n == -1:
            r = getitem(self.buf, slice(self.pos, None))
        else:
            r = getitem(self.buf, slice(self.pos, self.pos + n))
        self.pos = self.pos + sx_len(r)
        return r
    def seek(self, pos, whence=0):
        self.at_end = False
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else sx_len(self.buf) + pos
        return self.pos
    def tell(self): return self.pos
    def truncate(self, n=None): self.buf = getitem(self.buf, slice(None, self.pos if n is None else n))
    def flush(self): pass
    def close(self): self.closed = True
    def readable(self): return True
    def writable(self): return True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __iter__(self): return iter(self.read().splitlines(True))

class SymStringIO(SymBytesIO):
    empty = ""

SPECIAL[io.BytesIO] = lambda *a, **k: SymBytesIO(*a, **k) if core.E is not None else io.BytesIO(*a, **k)
SPECIAL[io.StringIO] = lambda *a, **k: SymStringIO(*a, **k) if core.E is not None else io.StringIO(*a, **k)

# ---- hashing, stat, paths

def _mkhash(algo, native):
    def f(data=b"", **k):
        return SymHash(algo, data) if core.E is not None else native(data, **k)
    return f
for _n in ("sha512", "sha256", "sha1", "md5", "sha384", "sha224"):
    SPECIAL[getattr(hashlib, _n)] = _mkhash(_n, getattr(hashlib, _n))
SPECIAL[hashlib.new] = lambda name, data=b"", **k: SymHash(name, data) if core.E is not None else hashlib.new(name, data, **k)

def sx_file_digest(f, algo, **k):
    h = SymHash(algo if isinstance(algo, str) else algo().name if not callable(algo) else _algo_name(algo))
    h.update(f.read())
    return h
def _algo_name(a):
    for n in ("sha512", "sha256", "sha1", "md5", "sha384", "sha224"):
        if a is getattr(hashlib, n): return n
    return "sha512"
if hasattr(hashlib, "file_digest"):
    SPECIAL[hashlib.file_digest] = lambda f, a, **k: sx_file_digest(f, a) if core.E is not None else hashlib.file_digest(f, a, **k)

def _stat_special(name):
    native = getattr(_stat_mod, name)
    if name == "S_IMODE":
        return lambda m: m % 0o10000 if isinstance(m, SymInt) else native(m)
    if name == "S_IFMT":
        return lambda m: m & 0o170000 if isinstance(m, SymInt) else native(m)
    const = getattr(_stat_mod, {"S_ISDIR": "S_IFDIR", "S_ISCHR": "S_IFCHR", "S_ISBLK": "S_IFBLK", "S_ISREG": "S_IFREG", "S_ISFIFO": "S_IFIFO", "S_ISLNK": "S_IFLNK", "S_ISSOCK": "S_IFSOCK"}[name])
    return lambda m: mkbool(V.between(const, m.e, const + 0o7777)) if isinstance(m, SymInt) else native(m)
for _n in ("S_IMODE", "S_IFMT", "S_ISDIR", "S_ISCHR", "S_ISBLK", "S_ISREG", "S_ISFIFO", "S_ISLNK", "S_ISSOCK"):
    SPECIAL[getattr(_stat_mod, _n)] = _stat_special(_n)

SPECIAL[os.fspath] = lambda p: p if isinstance(p, (SymStr, SymBytes)) else os.fspath(p)
SPECIAL[os.fsencode] = lambda p: p.encode("utf-8", "surrogateescape") if isinstance(p, SymStr) else os.fsencode(p)
SPECIAL[os.fsdecode] = lambda p: p.decode("utf-8", "surrogateescape") if isinstance(p, SymBytes) else os.fsdecode(p)

def sx_normpath(path):
    if not isinstance(path, SymStr):
        return posixpath.normpath(path)
    lead = 0
    if path.startswith("/"):
        lead = 2 if bool(path.startswith("//")) and not bool(path.startswith("///")) else 1
    comps = []
    for comp in path.split("/"):
        if not comp or comp == ".":
            continue
        if not (comp == "..") or (not lead and not comps) or (comps and bool(comps[-1] == "..")):
            comps.append(comp)
        elif comps:
            comps.pop()
    r = "/" * lead + _lift_s("/").join(comps) if comps else "/" * lead
    return r if len(r) else "."

_posix_instr = {}
def _posix(name):
    def f(*a, **k):
        if not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            return getattr(posixpath, name)(*a, **k)
        if not _posix_instr:
            ns = load_instrumented_namespace(posixpath.__file__, "sx_posixpath")
            ns["normpath"] = sx_normpath
            _posix_instr.update(ns)
        return _posix_instr[name](*a, **k)
    return f
for _n in ("join", "split", "basename", "dirname", "splitext", "isabs", "relpath", "commonpath", "commonprefix", "abspath"):
    SPECIAL[getattr(posixpath, _n)] = _posix(_n)
SPECIAL[posixpath.normpath] = sx_normpath

import copy as _copy
def sx_copy(v):
    return v if isinstance(v, Sym) else _copy.copy(v)
SPECIAL[_copy.copy] = sx_copy
SPECIAL[_copy.deepcopy] = lambda v, memo=None: deepcopy_sym(v)
def deepcopy_sym(v):
    return _copy.deepcopy(v)
for _c in (SymBool, SymInt, SymStr, SymBytes, NumStr, SymDigest, PrefNum):
    _c.__copy__ = lambda self: self
    _c.__deepcopy__ = lambda self, memo: self

# ---- regular expressions over symbolic strings (subset), by matching over the parsed pattern

from . import rematch
for _n in ("search", "match", "fullmatch", "sub", "split", "findall", "finditer", "compile", "escape", "subn"):
    SPECIAL[getattr(re, _n)] = rematch.special(_n)

# ---------------------------------------------------------------- import hook

HELPERS = {"__sx_res__": res, "__sx_meth__": meth, "__sx_getitem__": getitem, "__sx_setitem__": setitem, "__sx_delitem__": delitem, "__sx_in__": contains,
           "__sx_isbool__": isbool, "__sx_fstr__": fstr, "__sx_mkset__": mkset, "__sx_mkdict__": mkdict, "__sx_mod__": mod, "__sx_slice__": slice, MARK: True}

def load_instrumented_namespace(file, name):
    with open(file, encoding="utf-8") as f:
        src = f.read()
    ns = {"__name__": name, "__file__": file, "__builtins__": builtins}
    ns.update(HELPERS)
    exec(compile_instrumented(src, file), ns)
    return ns

class SxLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        FILES.add(path)
        return compile_instrumented(self.get_data(path).decode("utf-8"), path)
    def exec_module(self, module):
        module.__dict__.update(HELPERS)
        exec(self.get_code(module.__name__), module.__dict__)

FILES = set()

class SxFinder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots          # package name prefix -> search directory
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=SxLoader(name, f), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=SxLoader(name, base + ".py"))
        return None

def install(roots):
    sys.meta_path.insert(0, SxFinder(roots))
