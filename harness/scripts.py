"""C11, C12, C30, C32: settings scopes, scripts and deploys."""
import argparse
import os
from types import SimpleNamespace
import fora
from fora import loader, logger
from fora.connection import Connection
from fora.inventory_wrapper import InventoryWrapper
from fora.operations import files, local
from fora.remote_settings import RemoteSettings
from fora.types import ScriptWrapper
from model import osmodel
from model.server import Hang
from harness import rt, opsenv
from harness.opsenv import Env, Node, world, octal_value

FIELDS = ["as_user", "as_group", "owner", "group", "file_mode", "dir_mode", "umask", "cwd"]
USERS = {"u": 7, "7": 7, "root": 0, "0": 0}
GROUPS = {"g": 8, "8": 8, "root": 0, "0": 0}
DIRS = {"/td": "/td", "/w": "/w", "/ltd": "/td"}
MODES = [(0x30, 0x39)]

def kind_of(field):
    return {"as_user": "user", "owner": "user", "as_group": "group", "group": "group", "cwd": "cwd"}.get(field, "mode")

def a_value(ctx, name, field):
    """(the text, what it stands for or None if it is invalid)"""
    k = kind_of(field)
    if k == "user":
        v = ctx.choice(name, ["u", "7", "0", "nouser", "1234x", ""])
        return v, USERS.get(v)
    if k == "group":
        v = ctx.choice(name, ["g", "8", "0", "nogroup", ""])
        return v, GROUPS.get(v)
    if k == "cwd":
        v = ctx.choice(name, ["/td", "/ltd", "/w", "/t", "/none", "/dangling", "/fifo"])
        return v, DIRS.get(v)
    if ctx.choice(name + ".empty", [False, True]):
        return "", None
    v = ctx.str(name, 4 if ctx.tier == "thorough" and field == "umask" else 3, 2, MODES)
    ok = ctx.decide(ctx.all(*[c <= "7" for c in v]))
    n = octal_value(v)
    return v, (n if ok else None)

def base_inventory(base):
    inv = InventoryWrapper()
    inv.wrap(SimpleNamespace(base_remote_settings=lambda: RemoteSettings(**base)))
    inv.load()
    return inv

def the_world():
    w = world()
    w.nodes["/ltd"] = Node("link", 0o777, target="/td")
    w.nodes["/fifo"] = Node("fifo", 0o600)
    w.nodes["/dangling"] = Node("link", 0o777, target="/none")
    return w

def effects(ctx, w, env, n, explicit=None, user=0):
    """Use every setting once: run a command, create a directory and a file. Returns (error, used values).
    Only root can give directories to other accounts: left out when commands are run by somebody else."""
    e = explicit or {}
    out = {}
    def file_args(mode): return {k: v for k, v in (("mode", e.get(mode)), ("owner", e.get("owner")), ("group", e.get("group"))) if v is not None}
    def go():
        count = len(w.executed)
        a = {k: e.get(f) for k, f in (("user", "as_user"), ("group", "as_group"), ("umask", "umask"), ("cwd", "cwd")) if e.get(f) is not None}
        fora.host.connection.run(["true"], **a)
        if len(w.executed) != count + 1:
            raise RuntimeError("the command was not run")
        p = w.executed[-1].proc
        out.update(as_user=p.uid, as_group=p.gid, umask=p.umask, cwd=p.cwd)
        r = files.directory(path=f"/w/d{n}", **file_args("dir_mode")) if user == 0 else None
        r2 = files.upload_content(content=b"x", dest=f"/w/f{n}", **file_args("file_mode"))
        if r is not None and not r.success or not r2.success:
            raise RuntimeError("operation failed")
        f = w.nodes[f"/w/f{n}"]
        out.update(owner=f.uid, group=f.gid, file_mode=f.perm)
        if r is not None:
            d = w.nodes[f"/w/d{n}"]
            out.update(dir_mode=d.perm, owner_d=d.uid, group_d=d.gid)
    exc, _ = env.run(go)
    return exc, out

def compare(ctx, label, out, want):
    partial = "dir_mode" not in out and "file_mode" in out       # no directory could be created, see effects()
    full = dict(want)
    full["owner_d"], full["group_d"] = want["owner"], want["group"]
    for k, v in full.items():
        if k not in out and k in ("dir_mode", "owner_d", "group_d") and partial:
            continue
        ctx.check(label, ctx.same(out.get(k), v), lambda: f"{k} is {out.get(k)!r} but should be {v!r}")

def start(ctx, base=None):
    b = dict(as_user="root", as_group="root", owner="root", group="root", file_mode="640", dir_mode="750", umask="027", cwd="/w")
    b.update(base or {})
    w = the_world()
    want = {"as_user": 0, "as_group": 0, "owner": 0, "group": 0, "cwd": DIRS.get(b["cwd"])}
    for k in ("file_mode", "dir_mode", "umask"):
        want[k] = octal_value(b[k])
    return w, base_inventory(b), want

def in_script(env):
    """As in a script that just started: the base settings apply."""
    fora.script.defaults().__enter__()

def settings(ctx, field, depth=2):
    """One setting given at any subset of the levels: argument, scopes, base."""
    base = {}
    if kind_of(field) == "mode":
        base[field] = ctx.str("base", 3, 3, [(0x30, 0x37)])
    w, inv, want = start(ctx, base)
    given = []
    for i in range(depth):
        given.append(a_value(ctx, f"scope{i}", field) if ctx.decide(ctx.bool(f"given{i}")) else None)
    arg = a_value(ctx, "arg", field) if ctx.decide(ctx.bool("given.arg")) else None
    with Env(ctx, w, inv=inv, prepare=in_script) as env:
        cms = []
        cur = dict(want)
        for i, g in enumerate(given):
            def enter():
                cm = fora.script.defaults(**({} if g is None else {field: g[0]}))
                cm.__enter__()
                return cm
            exc, cm = env.run(enter)
            if g is not None and g[1] is None:
                ctx.observe("refused", type(exc).__name__)
                ctx.check("C11.invalid", exc is not None, f"{field}={g[0]!r} was accepted by a scope")
                if exc is not None:
                    # a refused scope has no effect
                    exc, out = effects(ctx, w, env, "r", user=cur["as_user"])
                    ctx.check("C11.works", exc is None, lambda: f"{type(exc).__name__}: {exc}")
                    if exc is None: compare(ctx, "C11.refused", out, cur)
                return
            ctx.check("C11.accepted", exc is None, lambda: f"{field}={g and g[0]!r} in a scope raised {type(exc).__name__}: {exc}")
            if exc is not None:
                return
            cms.append(cm)
            if g is not None:
                cur[field] = g[1]
        eff = dict(cur)
        explicit = {}
        if arg is not None:
            explicit[field] = arg[0]
            eff[field] = arg[1]
        n0 = len(w.executed)
        exc, out = effects(ctx, w, env, 1, explicit, user=cur["as_user"])
        ctx.observe("out", sorted(out.items()))
        if arg is not None and arg[1] is None:
            ctx.check("C11.invalid", exc is not None, f"{field}={arg[0]!r} was accepted as an argument")
            return
        ctx.check("C11.works", exc is None, lambda: f"{type(exc).__name__}: {exc}")
        if exc is not None:
            return
        compare(ctx, "C11.innermost", out, eff)
        for i in range(len(cms) - 1, -1, -1):
            cms[i].__exit__(None, None, None)
        exc, out = effects(ctx, w, env, 2)
        ctx.check("C11.works", exc is None, lambda: f"{type(exc).__name__}: {exc}")
        if exc is None:
            compare(ctx, "C12.after", out, want)

VALUE = {"as_user": ("u", 7), "as_group": ("g", 8), "owner": ("7", 7), "group": ("8", 8), "file_mode": ("0604", 0o604), "dir_mode": ("711", 0o711), "umask": ("7", 7), "cwd": ("/ltd", "/td")}
VALUE2 = {"as_user": ("0", 0), "as_group": ("root", 0), "owner": ("root", 0), "group": ("0", 0), "file_mode": ("0", 0), "dir_mode": ("4755", 0o4755), "umask": ("0", 0), "cwd": ("/td", "/td")}

def subset(ctx, inner=None, fixed={}):
    """Any subset of the settings in one scope, all others come from below; one setting in an inner scope and another as argument."""
    w, inv, want = start(ctx)
    chosen = [f for f in FIELDS if (fixed[f] if f in fixed else ctx.decide(ctx.bool("set." + f)))]
    second = ctx.choice("second", [None] + FIELDS) if inner else None
    third = ctx.choice("third", [None] + FIELDS) if inner == "arg" else None
    with Env(ctx, w, inv=inv, prepare=in_script) as env:
        scoped = second == "as_user" and VALUE2["as_user"][1] or second != "as_user" and "as_user" in chosen and VALUE["as_user"][1] or 0
        def go():
            a = {f: VALUE[f][0] for f in chosen}
            with fora.script.defaults(**a):
                with fora.script.defaults(**({} if second is None else {second: VALUE2[second][0]})):
                    return effects(ctx, w, env, 1, {} if third is None else {third: VALUE[third][0]}, user=scoped)
        exc, r = env.run(go)
        exc = exc or r[0]
        ctx.check("C11.works", exc is None, lambda: f"{type(exc).__name__}: {exc}")
        if exc is not None:
            return
        eff = dict(want)
        for f in chosen: eff[f] = VALUE[f][1]
        if second: eff[second] = VALUE2[second][1]
        if third: eff[third] = VALUE[third][1]
        compare(ctx, "C11.innermost", r[1], eff)
        exc, out = effects(ctx, w, env, 2)
        ctx.check("C11.works", exc is None, lambda: f"{type(exc).__name__}: {exc}")
        if exc is None:
            compare(ctx, "C12.after", out, want)

def identity(ctx):
    """The base user and group are those the dispatcher runs as, and files are created for them."""
    w = the_world()
    uid, gid = ctx.choice("uid", [0, 7]), ctx.choice("gid", [0, 8])
    w.proc.ruid = w.proc.uid = w.proc.suid = uid
    w.proc.rgid = w.proc.gid = w.proc.sgid = gid
    for n in w.nodes.values():
        n.perm = 0o777 if n.kind == "dir" else n.perm
    inv = base_inventory(dict(as_user="root", as_group="root", owner="root", group="root", file_mode="640", dir_mode="750", umask="027", cwd="/w"))
    with Env(ctx, w, inv=inv) as env:
        b = fora.host.connection.base_settings
        names = (("root" if uid == 0 else "u"), ("root" if gid == 0 else "g"))
        ctx.check("C11.identity", (b.as_user, b.as_group) == names and (b.owner, b.group) == names, lambda: f"{b}")
        with fora.script.defaults():
            exc, out = effects(ctx, w, env, 1, user=uid)
        ctx.check("C11.works", exc is None, lambda: f"{type(exc).__name__}: {exc}")
        if exc is None:
            compare(ctx, "C11.innermost", out, {"as_user": uid, "as_group": gid, "owner": uid, "group": gid, "cwd": "/w", "umask": 0o027, "file_mode": 0o640, "dir_mode": 0o750})

def jobs_c11(tier):
    t = tier == "thorough"
    js = [{"name": f"settings-{f}", "fn": "settings", "params": {"field": f, "depth": 3 if t and kind_of(f) != "mode" else 2}} for f in FIELDS]
    for a in (False, True):
        for b in (False, True):
            js.append({"name": f"subset-{a}-{b}", "fn": "subset", "params": {"inner": "arg" if t else "scope", "fixed": {"umask": a, "owner": b}}})
    js.append({"name": "identity", "fn": "identity"})
    return js

# ---------------------------------------------------------------- C12

class Boom(Exception): pass
class Stop(BaseException): pass
OURS = (Exception, KeyboardInterrupt, Stop)

def state(env):
    d = fora.script.current_defaults() if fora.script is not None else None
    return {"defaults": None if d is None else [getattr(d, f) for f in FIELDS], "script": id(fora.script), "stack": [id(x[0]) for x in loader.script_stack], "cwd": env.s.client.proc.cwd, "depth": None if fora.script is None else len(fora.script._defaults_stack)}

def base_values():
    b = fora.host.connection.base_settings
    return [getattr(b, f) for f in FIELDS]

SCRIPTS = {
    "/s/a.py": "a", "/s/sub/b.py": "b", "/o/c.py": "c",
}
def script_files():
    n = {"/s": Node("dir", 0o755), "/s/sub": Node("dir", 0o755), "/o": Node("dir", 0o755), "/home": Node("dir", 0o755)}
    for p, name in SCRIPTS.items():
        n[p] = Node("file", 0o644, content=rt.source(name))
    n["/s/bad.py"] = Node("file", 0o644, content=b"x = (\n")
    n["/s/link.py"] = Node("link", 0o777, target="/o/c.py")
    n["/s/ldir"] = Node("link", 0o777, target="/o")
    n["/s/fifo"] = Node("fifo", 0o644)
    return n

# call -> (path, directory the script runs in, name) or None when it cannot be loaded
CALLS = {"/s/a.py": ("/s", "a"), "sub/b.py": None, "/s/sub/b.py": ("/s/sub", "b"), "/s/link.py": ("/o", "c"), "/s/ldir/c.py": ("/o", "c"), "/s/missing.py": None, "/nodir/x.py": None, "/s/bad.py": None, "/s": None}

class Acts:
    """A nest of scopes and scripts; at each level the solver chooses what happens."""
    def __init__(self, ctx, env, depth):
        self.ctx, self.env, self.depth = ctx, env, depth
        self.n = 0
        self.scripts = 0
    def pick(self, name, options):
        self.n += 1
        return self.ctx.choice(f"{self.n}.{name}", options)
    def act(self, level):
        ctx = self.ctx
        opts = ["nothing", "boom", "interrupt", "stop"] if level < 2 else ["nothing", "boom", "stop"]
        if level < self.depth:
            opts += ["scope", "badscope", "script"]
        what = self.first if level == 0 and self.first else self.pick("what", opts)
        if what == "two":
            self.guard(lambda: self.act(level + 1))
            what = self.pick("then", ["scope", "script"])
        if what == "nothing": return
        if what == "boom": raise Boom()
        if what == "interrupt": raise KeyboardInterrupt()
        if what == "stop": raise Stop()
        before = state(self.env)
        exc = None
        try:
            getattr(self, what)(level, before)
        except OURS as e:
            exc = e
        self.same(before, what, exc)
        if exc is not None and level > 0 and self.pick("handled", [True, False]) is False:
            raise exc
    def guard(self, fn):
        before = state(self.env)
        exc = None
        try:
            fn()
        except OURS as e:
            exc = e
        self.same(before, "block", exc)
    def same(self, before, what, exc):
        after = state(self.env)
        for k in before:
            self.ctx.check("C12.restored", self.ctx.same(before[k], after[k]), lambda: f"{k} before {what}: {before[k]!r}, after (with {type(exc).__name__}): {after[k]!r}")
    def scope(self, level, before):
        with fora.script.defaults(umask="022", owner="u", cwd="/td"):
            self.act(level + 1)
    def badscope(self, level, before):
        a = self.pick("bad", [{"owner": "nouser"}, {"cwd": "/none"}, {"umask": "9"}, {"as_group": "nogroup", "umask": "022"}][:4 if level == 0 else 1])
        with fora.script.defaults(**a):
            raise Boom()
    def script(self, level, before):
        ctx = self.ctx
        self.scripts += 1
        path = self.pick("path", self.paths)
        hook, rt.HOOK = rt.HOOK, None
        ran = []
        def run(name, g):
            ran.append(name)
            cur = fora.script
            ctx.check("C12.base", ctx.same([getattr(cur.current_defaults(), f) for f in FIELDS], base_values()), lambda: f"script starts with {cur.current_defaults()!r}, base is {base_values()!r}")
            ctx.check("C12.inner", id(cur) != before["script"] and [id(x[0]) for x in loader.script_stack] == before["stack"] + [id(cur)] and cur.module is not None and cur.module.__dict__ is g, "fora.script is not the running script")
            c = CALLS.get(path)
            if c is not None:
                ctx.check("C12.cwd", self.env.s.client.proc.cwd == c[0] and name == c[1], lambda: f"script {name} runs in {self.env.s.client.proc.cwd}")
            self.act(level + 1)
        rt.HOOK = run
        try:
            local.script(path, recursive=True)
        except FileNotFoundError:
            ctx.check("C12.loads", CALLS.get(path, 1) is None or len(ran) > 0, lambda: f"script {path} was not found")
            raise
        finally:
            rt.HOOK = hook
        if CALLS.get(path) is not None:
            ctx.check("C12.loads", len(ran) == 1, lambda: f"script {path} was run {len(ran)} times")
        else:
            ctx.check("C12.loads", path not in CALLS or (path == "sub/b.py" and ran == ["b"]), lambda: f"script {path} cannot be loaded but no error was raised")

def silent():
    """Terminal output is not part of these checks; indentation is."""
    for n in ("run_script", "print_indented"):
        if hasattr(logger, n):
            setattr(logger, n, lambda *a, **k: None)

def nest(ctx, depth, first=None, paths=None):
    silent()
    w, inv, want = start(ctx)
    with Env(ctx, w, inv=inv, local=script_files(), cwd="/home") as env:
        a = Acts(ctx, env, depth)
        a.paths = paths or list(CALLS)
        a.first = first
        del loader.script_stack[:]
        root = first is not None
        if not root:
            fora.script = None
        before = state(env)
        exc = None
        try:
            if root:
                a.act(0)
            else:
                # the deploy itself: no script is running
                a.script(0, {"script": id(None), "stack": []})
        except OURS as e:
            exc = e
        ctx.observe("exc", type(exc).__name__)
        a.same(before, "everything", exc)
        ind = logger.state.indentation_level if hasattr(logger.state, "indentation_level") else 0
        ctx.check("C12.indent", ind == 0, "logger indentation was not restored")

def enter_fault(ctx, where):
    """A fault while a script or scope is being entered or left."""
    silent()
    w, inv, want = start(ctx)
    with Env(ctx, w, inv=inv, local=script_files(), cwd="/home") as env:
        del loader.script_stack[:]
        client = env.s.client
        outer = ctx.bool("outer")
        rt.HOOK = lambda name, g: act()
        def act():
            if where == "chdir-back":
                client.nodes.pop("/home")
            elif where == "remote-dies":
                env.s.d.c2s.closed = True
            if ctx.choice("raise", [False, True]):
                raise Boom()
        def go():
            before = state(env)
            fault = where in ("getcwd", "chdir", "realpath")
            k = ctx.choice("errno", [1, 2, 4, 5, 13, 20, 28, 36, 40, 116]) if fault else None
            saved = {}
            if fault:
                def bad(*a, **kw):
                    raise OSError(k, "fault")
                for n in ([where] if where != "realpath" else ["readlink"]):
                    saved[n] = getattr(client, n, None)
                if where == "getcwd":
                    saved["getcwd"] = os.getcwd
                    os.getcwd = bad
                elif where == "chdir":
                    client.chdir = bad
                else:
                    client.readlink = bad
            if where == "identity":
                w.users[:] = [u for u in w.users if u.name != "root"]
                w.groups[:] = [g for g in w.groups if g.name != "root"]
            if where == "basecwd":
                w.nodes.pop("/w/other", None)
                w.nodes.pop("/w")
            exc = None
            try:
                local.script("/s/link.py" if where == "realpath" else "/s/a.py")
            except OURS as e:
                exc = e
            finally:
                if where == "getcwd": os.getcwd = saved["getcwd"]
                if where == "chdir": del client.chdir
                if where == "realpath": del client.readlink
            ctx.observe("exc", type(exc).__name__)
            after = state(env)
            if where in ("getcwd", "chdir", "identity", "basecwd", "chdir-back"):
                ctx.check("C12.reported", exc is not None, "the fault was not reported")
            for f in before:
                if f == "cwd" and where == "chdir-back":
                    continue            # the directory is gone
                ctx.check("C12.restored", ctx.same(before[f], after[f]), lambda: f"{f} before: {before[f]!r}, after {type(exc).__name__}: {after[f]!r}")
        if ctx.decide(outer):
            with fora.script.defaults(owner="u", umask="022"):
                go()
        else:
            go()

def jobs_c12(tier):
    t = tier == "thorough"
    few = ["/s/a.py", "/s/link.py", "/s/missing.py", "/s/bad.py"]
    js = []
    for first in ("scope", "badscope", "script", "two", None):
        js.append({"name": f"nest-paths-{first}", "fn": "nest", "params": {"depth": 1, "first": first}})
        if first != "badscope":
            js.append({"name": f"nest-deep-{first}", "fn": "nest", "params": {"depth": 3 if t and first != "two" else 2, "first": first, "paths": few[:3] if t else few}})
    for w in ("getcwd", "chdir", "realpath", "identity", "basecwd", "chdir-back"):
        js.append({"name": "fault-" + w, "fn": "enter_fault", "params": {"where": w}})
    for f in (FIELDS if t else ["owner", "cwd"]):
        js.append({"name": f"settings-{f}", "fn": "settings", "params": {"field": f, "depth": 2}})
    return js


# ---------------------------------------------------------------- C32

MISSING = object()
SPELL = {"bare": "@Params\nclass params:\n", "wrapper": "from fora import script as _s\n@_s.Params\nclass params:\n", "function": "def _f():\n @Params\n class params:\n  {}\n return params\nparams = _f()\n"}

def param_source(names, spelling, name):
    body = []
    for n, default in names:
        body.append(f"{n}: object" + (f" = _rt.DATA[{name!r}][{n!r}]" if default else ""))
    head = "from harness import rt as _rt\n"
    if spelling == "function":
        code = "def _f():\n @Params\n class params:\n" + "".join(f"  {b}\n" for b in body) + " return params\nparams = _f()\n"
    else:
        code = SPELL[spelling] + "".join(f" {b}\n" for b in body)
    return (head + code + f"_rt.call({name!r}, globals())\n").encode()

def a_param(ctx, name):
    v = ctx.choice(name + ".kind", ["str", "none", "zero", "false", "list"])
    return {"str": lambda: ctx.str(name, 2), "none": lambda: None, "zero": lambda: 0, "false": lambda: False, "list": lambda: [name]}[v]()

def params(ctx, spelling, nested):
    """Two declared parameters, each with or without default, given or not; undeclared ones given too."""
    silent()
    w, inv, want = start(ctx)
    names = [("p", ctx.decide(ctx.bool("p.default"))), ("q", ctx.decide(ctx.bool("q.default")))]
    loc = script_files()
    loc["/s/a.py"] = Node("file", 0o644, content=param_source(names, spelling, "a"))
    loc["/s/sub/b.py"] = Node("file", 0o644, content=param_source([("p", True), ("r", True)], "bare", "b"))
    rt.DATA = {"a": {"p": "default-p", "q": ["default-q"]}, "b": {"p": "inner-p", "r": "inner-r"}}
    form = ctx.choice("form", ["none", "empty", "dict"])
    given = {}
    if form == "dict":
        for n in ("p", "q", "extra"):
            if ctx.decide(ctx.bool(n + ".given")):
                given[n] = a_param(ctx, n + ".value") if n == "p" else [n]
    arg = None if form == "none" else given
    expect = {n: (given[n] if n in given else rt.DATA["a"][n] if d else MISSING) for n, d in names}
    seen = []
    def hook(name, g):
        P = g["params"]
        seen.append((name, {n: getattr(P, n, MISSING) for n in ("p", "q", "r", "extra")}))
        if name == "a" and nested:
            local.script("sub/b.py", params=nested if isinstance(nested, dict) else None)
            seen.append(("a", {n: getattr(P, n, MISSING) for n in ("p", "q", "r", "extra")}))
    rt.HOOK = hook
    with Env(ctx, w, inv=inv, local=loc, cwd="/home") as env:
        del loader.script_stack[:]
        exc, _ = env.run(lambda: local.script("/s/a.py", params=arg))
        ctx.observe("exc", type(exc).__name__)
        lacking = [n for n, v in expect.items() if v is MISSING]
        if lacking:
            ctx.check("C32.mandatory", exc is not None and not seen, lambda: f"parameter {lacking} was not given but the script ran with {seen}")
        else:
            ctx.check("C32.runs", exc is None, lambda: f"{type(exc).__name__}: {exc}")
            if exc is None:
                for name, got in seen:
                    if name == "a":
                        e = dict(expect, r=MISSING, extra=MISSING)
                    else:
                        e = {"p": "inner-p", "r": "inner-r", "q": MISSING, "extra": MISSING}
                        e.update({k: v for k, v in (nested if isinstance(nested, dict) else {}).items() if k in ("p", "r")})
                    for k in e:
                        ctx.check("C32.values", got[k] is e[k] or got[k] is not MISSING and e[k] is not MISSING and ctx.same(got[k], e[k]), lambda: f"{name}: {k} is {got[k]!r} but should be {e[k]!r}")
                ctx.check("C32.all", len(seen) == (3 if nested else 1), lambda: f"{len(seen)} observations")
        # a second run of the same script knows nothing of the first
        del seen[:]
        exc, _ = env.run(lambda: local.script("/s/a.py"))
        if all(d for n, d in names):
            ctx.check("C32.fresh", exc is None and ctx.all(*[ctx.same(seen[0][1][n], rt.DATA["a"][n]) for n, d in names]), lambda: f"run without parameters: {exc!r} {seen}")
        else:
            ctx.check("C32.fresh", exc is not None and not seen, lambda: f"a mandatory parameter was not given but the script ran with {seen}")

TARGETS = {"/s/a.py": "/s/a.py", "/s/sub/../a.py": "/s/a.py", "a.py": None, "/s/sub/b.py": "/s/sub/b.py", "/s/link.py": "/o/c.py", "/o/c.py": "/o/c.py", "/s/ldir/c.py": "/o/c.py", "./sub//b.py": None}

def recursion(ctx, depth, paths):
    """Chains of script calls, with and without permission to recurse."""
    silent()
    w, inv, want = start(ctx)
    NAMES = {"a": "/s/a.py", "b": "/s/sub/b.py", "c": "/o/c.py"}
    with Env(ctx, w, inv=inv, local=script_files(), cwd="/home") as env:
        del loader.script_stack[:]
        running = []
        n = [0]
        def step():
            if n[0] >= depth:
                return
            n[0] += 1
            i = n[0]
            path = ctx.choice(f"{i}.path", paths)
            flag = ctx.choice(f"{i}.recursive", [False, True])
            t = TARGETS[path]
            if t is None:
                t = os.path.normpath(os.path.join(env.s.client.proc.cwd, path))
            if t not in NAMES.values():
                return                          # no such file from here
            before = list(running)
            started = []
            def hook(name, g):
                started.append(name)
                running.append(NAMES[name])
                try:
                    step()
                finally:
                    running.pop()
            old, rt.HOOK = rt.HOOK, hook
            exc = None
            try:
                local.script(path, recursive=flag)
            except Exception as e:
                exc = e
            finally:
                rt.HOOK = old
            ok = flag or t not in before
            ctx.observe(f"{i}.exc", type(exc).__name__)
            if ok:
                ctx.check("C32.runs", exc is None and len(started) == 1 and NAMES[started[0]] == t, lambda: f"script {path} (recursive={flag}, running {before}) raised {exc!r}")
            else:
                ctx.check("C32.recursion", exc is not None and not started, lambda: f"script {path} was entered again while running {before}")
            step()
        step()

def jobs_c32(tier):
    t = tier == "thorough"
    js = [{"name": f"params-{s}-{n}", "fn": "params", "params": {"spelling": s, "nested": {"yes": {"p": 5}, "plain": True, "no": None}[n]}} for s in SPELL for n in ("no", "plain", "yes")]
    js.append({"name": "recursion-spellings", "fn": "recursion", "params": {"depth": 2, "paths": list(TARGETS)}})
    js.append({"name": "recursion-deep", "fn": "recursion", "params": {"depth": 4 if t else 3, "paths": ["/s/a.py", "/s/link.py", "/o/c.py"]}})
    return js

# ---------------------------------------------------------------- C30

from fora import main as fmain
from fora.connectors.connector import Connector
from harness.remote import Plain
from model.world import World
from model.server import Dispatcher, Process
from harness import common
from symx.dispatch import dispatcher_entry

class Named(Plain):
    def command(self):
        return ["dispatcher", self.url]

class Deploy:
    """A client machine with an inventory and one script, and one machine per host."""
    def __init__(self, ctx, hosts, script=True, inventory="/i/inv.py"):
        opsenv.quiet()
        silent()
        common.reset()
        self.ctx = ctx
        self.client = World()
        self.client.nodes.update({"/i": Node("dir", 0o755), "/s": Node("dir", 0o755), "/home": Node("dir", 0o755)})
        self.client.proc.cwd = "/home"
        self.client.popen = self.popen
        self.client.nodes["/i/inv.py"] = Node("file", 0o644, content=b"from harness import rt as _rt\nhosts = _rt.DATA\n")
        if script:
            self.client.nodes["/s/a.py"] = Node("file", 0o644, content=rt.source("a"))
        rt.DATA = hosts
        self.procs, self.events, self.dead = [], [], ()
        Connector.registered_connectors["test"] = Named
        del loader.script_stack[:]
    def popen(self, args, **k):
        url = args[-1]
        self.events.append(("connect", url))
        if url in self.dead:
            raise OSError(2, "no such program")
        d = Dispatcher(opsenv.world(), dispatcher_entry)
        p = Process(d, args)
        self.procs.append(p)
        return p
    def __enter__(self):
        self.saved = osmodel.set_world(self.client)
        return self
    def __exit__(self, *a):
        osmodel.set_world(self.saved)
        for p in self.procs:
            p.d.dispose()
        common.reset()

def deploy(ctx, names, size, fault=None, via="text"):
    decls = [{"name": n, "url": f"test:{n}"} for n in names]
    with Deploy(ctx, decls, script=fault != "noscript") as d:
        if via == "none":
            sel, text = list(names), None
        else:
            text = ctx.str("hosts", size, 0, [(ord("a"), ord("b")), (ord(","), ord(","))])
            sel = text.split(",")
        bad = None
        if fault == "connect":
            bad = ctx.choice("bad", names)
            d.dead = (f"test:{bad}",)
        elif fault == "script":
            bad = ctx.choice("bad", names)
        elif fault == "noscript":
            bad = names
        kind = ctx.choice("error", [Boom, Stop, KeyboardInterrupt, SystemExit]) if fault == "script" else None
        def hook(name, g):
            d.events.append(("run", fora.host.name, fora.host.url))
            if kind is not None and fora.host.name == bad:
                raise kind()
        rt.HOOK = hook
        args = argparse.Namespace(inventory="/i/inv.py", script="/s/a.py", hosts=text, debug=False, dry=False, diff=False, verbose=0, no_color=True, changes=False)
        fora.args = args
        exc = None
        try:
            fmain.main_run(args)
        except (Exception, KeyboardInterrupt, Stop, SystemExit) as e:
            exc = e
        ctx.observe("events", d.events)
        ctx.observe("exc", type(exc).__name__)
        order = []
        for n in sel:
            if n not in order: order.append(n)
        unknown = [n for n in order if n not in names]
        if unknown:
            ctx.check("C30.unknown", exc is not None and not (isinstance(exc, SystemExit) and exc.code in (None, 0)), lambda: f"unknown host {unknown} accepted")
            ctx.check("C30.nothing", d.events == [], lambda: f"unknown host {unknown} but {d.events}")
            return
        want = []
        failed = False
        for n in order:
            want.append(("connect", f"test:{n}"))
            if fault == "connect" and n == bad:
                failed = True
                break
            if fault == "noscript":
                failed = True
                break
            want.append(("run", n, f"test:{n}"))
            if kind is not None and n == bad:
                failed = True
                break
        ctx.check("C30.exactly", d.events == want, lambda: f"expected {want} but got {d.events}")
        ctx.check("C30.error", (exc is not None) == failed, lambda: f"error {exc!r}, expected failure: {failed}")

ARGV = {"none": [], "short": ["-H", "{}"], "long": ["--hosts", "{}"], "equals": ["--hosts={}"], "short-joined": ["-H{}"]}
def command_line(ctx, names):
    """The same through the command line parser."""
    decls = [{"name": n, "url": f"test:{n}"} for n in names]
    form = ctx.choice("form", list(ARGV))
    sel = ctx.choice("hosts", [["a"], ["b", "a"], ["ab"], ["b", "b", "a"], ["zz"], ["a", "zz"], ["a", ""]])
    extra = ctx.choice("extra", [[], ["--dry"], ["--diff", "-v"], ["--no-color"]])
    with Deploy(ctx, decls) as d:
        rt.HOOK = lambda name, g: d.events.append((fora.host.name, fora.args.dry, fora.args.diff))
        argv = [x.replace("{}", ",".join(sel)) for x in ARGV[form]] + extra + ["/i/inv.py", "/s/a.py"]
        exc = None
        import sys
        hook = sys.excepthook
        try:
            fmain.main(argv)
        except (Exception, SystemExit) as e:
            exc = e
        finally:
            sys.excepthook = hook
        ctx.observe("events", d.events)
        order = list(names) if form == "none" else list(dict.fromkeys(sel))
        runs = [e for e in d.events if e[0] != "connect"]
        if [n for n in order if n not in names]:
            ctx.check("C30.nothing", d.events == [] and exc is not None, lambda: f"unknown host in {sel} but {d.events}")
        else:
            ctx.check("C30.exactly", exc is None and runs == [(n, "--dry" in extra, "--diff" in extra) for n in order], lambda: f"{argv}: {exc!r} {d.events}")

def jobs_c30(tier):
    t = tier == "thorough"
    names = ["a", "b", "ab", "ba"] if t else ["b", "a", "ab"]
    js = [{"name": "select", "fn": "deploy", "params": {"names": names, "size": 6 if t else 5}},
          {"name": "all", "fn": "deploy", "params": {"names": names, "size": 0, "via": "none"}},
          {"name": "cli", "fn": "command_line", "params": {"names": names}}]
    for f in ("connect", "script", "noscript"):
        js.append({"name": "fail-" + f, "fn": "deploy", "params": {"names": names, "size": 4 if t else 3, "fault": f}})
        js.append({"name": "fail-all-" + f, "fn": "deploy", "params": {"names": names, "size": 0, "fault": f, "via": "none"}})
    return js

def jobs(prop, tier):
    return globals()["jobs_" + prop.lower()](tier)
