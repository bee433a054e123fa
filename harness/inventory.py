"""C26-C29: inventories, groups and host identities."""
import itertools
from types import ModuleType
import fora
from fora import loader, logger
from fora.connectors.connector import Connector
from fora.inventory_wrapper import InventoryWrapper, HostDeclaration, GroupDeclaration
from fora.types import ScriptWrapper
from fora.utils import FatalError
import fora.inventory_wrapper as iw
from harness import rt, common
from harness.opsenv import Node
from harness.scripts import silent
from model import osmodel
from model.world import World

SRC = b"from harness import rt as _rt\nhosts = _rt.DATA['hosts']\nif 'groups' in _rt.DATA: groups = _rt.DATA['groups']\nglobals().update(_rt.DATA.get('vars', {}))\n"

class Load:
    """The client machine with an inventory whose modules call back."""
    def __init__(self, ctx, hosts, groups=None, modules=(), variables=None, hook=None):
        common.reset()
        silent()
        for m in (iw, loader):
            for n in ("print_error",):
                if hasattr(m, n): setattr(m, n, lambda *a, **k: None)
        self.ctx = ctx
        self.client = World()
        self.client.nodes.update({"/i": Node("dir", 0o755), "/i/groups": Node("dir", 0o755), "/i/hosts": Node("dir", 0o755)})
        self.client.nodes["/i/inv.py"] = Node("file", 0o644, content=SRC)
        for m in modules:
            self.client.nodes[f"/i/{m}.py"] = Node("file", 0o644, content=rt.source(m.split("/")[-1]))
        rt.DATA = {"hosts": hosts, "vars": variables or {}}
        if groups is not None:
            rt.DATA["groups"] = groups
        self.calls = []
        def call(name, g):
            self.calls.append((name, g))
            if hook is not None: hook(name, g)
        rt.HOOK = call
    def __enter__(self):
        self.saved = osmodel.set_world(self.client)
        return self
    def __exit__(self, *a):
        osmodel.set_world(self.saved)
        common.reset()
    def load(self):
        return common.attempt(loader.load_inventory, "/i/inv.py")

# ---------------------------------------------------------------- C26

def closure(names, edges):
    """dep[a] = everything a transitively comes after"""
    dep = {n: set() for n in names}
    for a, b in edges:
        dep[a].add(b)
    for k in names:
        for a in names:
            if k in dep[a]:
                dep[a] |= dep[k]
    return dep

def spell(ctx, kind, name, after, before):
    if kind == "decl":
        return GroupDeclaration(name=name, after=list(after), before=list(before))
    if kind == "str" and not after and not before:
        return name
    return {"name": name, "after": list(after), "before": list(before)}

def graph(ctx, n, fixed=(), style="after", member=False, order=0, selfs=False, spelling="dict"):
    """Every graph of n groups."""
    names = [f"g{i}" for i in range(n)]
    pairs = [(a, b) for a in names for b in names if a != b or selfs]
    edges = []
    for i, (a, b) in enumerate(pairs):
        if (fixed[i] if i < len(fixed) else ctx.decide(ctx.bool(f"{a}>{b}"))):
            edges.append((a, b))
    after, before = {x: [] for x in names}, {x: [] for x in names}
    for i, (a, b) in enumerate(edges):
        if style == "after" or style == "mixed" and (a < b):
            after[a].append(b)
        else:
            before[b].append(a)
        if style == "both":
            after[a].append(b)
    decls = [spell(ctx, spelling, x, after[x], before[x]) for x in names]
    decls = decls[order:] + decls[:order]
    if order % 2: decls.reverse()
    if member == "choose":
        mine = [x for x in names if ctx.decide(ctx.bool("member." + x))]
    else:
        mine = list(names)
    hosts = [{"name": "h", "url": "ssh://h", "groups": mine}, {"name": "k", "url": "ssh://k", "groups": [names[0], names[-1]]}]
    dep = closure(names, edges)
    cyclic = any(x in dep[x] for x in names)
    with Load(ctx, hosts, decls, ["groups/all"] + ["groups/" + x for x in names] + ["hosts/h", "hosts/k"]) as L:
        exc, _ = L.load()
        ctx.observe("exc", type(exc).__name__)
        if cyclic:
            ctx.check("C26.refused", exc is not None and isinstance(exc, (ValueError, FatalError)), lambda: f"cyclic groups {edges} were accepted ({exc!r})")
            ctx.check("C26.early", not any(c[0] in names for c in L.calls), "groups were loaded although the graph is cyclic")
            return
        ctx.check("C26.accepted", exc is None, lambda: f"acyclic groups {edges} were refused: {exc!r}")
        if exc is not None:
            return
        seq = [c[0] for c in L.calls]
        ctx.check("C26.hosts", seq.count("h") == 1 and seq.count("k") == 1 and seq[-1] == "k", lambda: f"{seq}")
        for part, want in ((seq[:seq.index("h")], mine), (seq[seq.index("h") + 1:-1], hosts[1]["groups"])):
            ctx.check("C26.once", sorted(part) == sorted(set(want) | {"all"}), lambda: f"groups {part} loaded for a host in {want}")
            ctx.check("C26.all", part[0] == "all", lambda: f"global group not first: {part}")
            for i, a in enumerate(part):
                for b in part[:i]:
                    ctx.check("C26.order", a not in dep.get(b, ()), lambda: f"{b} was loaded before {a}, which it depends on ({edges})")

def bad_groups(ctx, what):
    """Declarations that must be refused, and close ones that must not."""
    names = ["g0", "g1"]
    bad = ctx.decide(ctx.bool("bad"))
    spelling = ctx.choice("spelling", ["dict", "decl", "str"])
    decls = {"g0": ([], []), "g1": ([], [])}
    extra = None
    hostgroups = ["g0", "g1"]
    G = lambda n: spell(ctx, spelling, n, *decls[n])
    if what == "self-after" and bad: decls["g1"] = (["g1"], [])
    if what == "self-before" and bad: decls["g1"] = ([], ["g1"])
    if what == "dup":
        extra = "g0" if bad else "g2"
    if what == "undeclared-host": hostgroups = ["g0", "gx" if bad else "g1"]
    if what == "undeclared-after": decls["g0"] = (["gx" if bad else "g1"], [])
    if what == "undeclared-before": decls["g0"] = ([], ["gx" if bad else "g1"])
    if what == "before-all": decls["g0"] = ([], ["all"] if bad else [])
    if what == "after-all": decls["g0"] = (["all"], [])
    if what == "all-after":
        decls["all"] = (["g0"] if bad else [], [])
        extra = "all"
    if what == "kind" : pass
    lst = [G("g0"), G("g1")]
    if extra is not None:
        decls.setdefault(extra, ([], []))
        at = ctx.choice("at", [0, 2])
        lst.insert(at, G(extra))
    if what == "kind" and bad:
        lst.append(ctx.choice("junk", [None, 5, ["g2"]]))
    if what == "repeated-member": hostgroups = ["g0", "g0", "all", "g1", "all"]
    if what == "repeated-dep":
        decls["g1"] = (["g0", "g0", "all"], [])
        lst[1] = G("g1")
    valid_always = what in ("after-all", "repeated-member", "repeated-dep")
    hosts = [{"name": "h", "url": "ssh://h", "groups": hostgroups}]
    with Load(ctx, hosts, lst, ["groups/all", "groups/g0", "groups/g1", "hosts/h"]) as L:
        exc, _ = L.load()
        ctx.observe("exc", type(exc).__name__)
        if bad and not valid_always:
            ctx.check("C26.refused", exc is not None, lambda: f"{what} was accepted: {lst}, host groups {hostgroups}")
            ctx.check("C26.early", L.calls == [], lambda: f"modules {L.calls} were loaded")
        else:
            ctx.check("C26.accepted", exc is None, lambda: f"{lst}, host groups {hostgroups}: {exc!r}")
            if exc is None:
                seq = [c[0] for c in L.calls]
                ctx.check("C26.once", seq[0] == "all" and sorted(seq) == sorted(set(hostgroups) | {"all", "h"}), lambda: f"{seq}")

def implicit(ctx):
    """Without a groups list the groups are those the hosts name."""
    a = [x for x in ("g0", "g1", "g2") if ctx.decide(ctx.bool("a." + x))]
    b_ = [x for x in ("g0", "g1", "g2") if ctx.decide(ctx.bool("b." + x))]
    hosts = [{"name": "h", "url": "ssh://h", "groups": list(a)}, {"name": "k", "url": "ssh://k", "groups": list(b_)}]
    with Load(ctx, hosts, None, ["groups/all", "groups/g0", "groups/g1", "groups/g2", "hosts/h", "hosts/k"]) as L:
        exc, _ = L.load()
        ctx.check("C26.accepted", exc is None, lambda: f"{exc!r}")
        if exc is None:
            seq = [c[0] for c in L.calls]
            i = seq.index("h")
            for part, want in ((seq[:i], a), (seq[i + 1:-1], b_)):
                ctx.check("C26.once", part[0] == "all" and sorted(part) == sorted(set(want) | {"all"}), lambda: f"{part} for {want}")

BAD = ["self-after", "self-before", "dup", "undeclared-host", "undeclared-after", "undeclared-before", "before-all", "after-all", "all-after", "kind", "repeated-member", "repeated-dep"]
def jobs_c26(tier):
    t = tier == "thorough"
    js = []
    # all graphs of 4 groups, in 8 parts
    for f in itertools.product((False, True), repeat=3):
        js.append({"name": "graph4-" + "".join("01"[x] for x in f), "fn": "graph", "params": {"n": 4, "fixed": f, "style": "mixed", "order": 1 + 2 * f[0] if t else f[0] + f[1], "spelling": "decl" if f[2] else "dict"}})
        if t:
            js.append({"name": "graph4-after-" + "".join("01"[x] for x in f), "fn": "graph", "params": {"n": 4, "fixed": f, "style": "after"}})
            js.append({"name": "graph4-before-" + "".join("01"[x] for x in f), "fn": "graph", "params": {"n": 4, "fixed": f, "style": "before", "order": 3}})
    for s in ("after", "before", "both"):
        js.append({"name": f"graph3-{s}-member", "fn": "graph", "params": {"n": 3, "style": s, "member": "choose", "order": {"after": 0, "before": 1, "both": 2}[s]}})
    js.append({"name": "graph2-self", "fn": "graph", "params": {"n": 2, "selfs": True, "style": "mixed", "spelling": "str"}})
    js.append({"name": "graph3-self", "fn": "graph", "params": {"n": 3, "selfs": True, "style": "mixed"}})
    js.append({"name": "implicit", "fn": "implicit"})
    js += [{"name": "bad-" + w, "fn": "bad_groups", "params": {"what": w}} for w in BAD]
    return js

# ---------------------------------------------------------------- C27

SHARED = {"one": 1, "two": 2, "none": None, "text": "text"}
def perform(act, g, who):
    """Let a module do something with its variable x."""
    if act in SHARED:
        g["x"] = SHARED[act]
    elif act == "list":
        g["x"] = ["new", who]
    elif act == "append" and isinstance(g.get("x"), list):
        g["x"].append(who)
    elif act == "nested" and isinstance(g.get("x"), list) and g["x"] and isinstance(g["x"][0], list):
        g["x"][0].append(who)
    elif act == "object":
        g["x"] = Plainer(who)
    elif act == "dict":
        g["x"] = {"k": who}
    elif act == "key" and isinstance(g.get("x"), dict):
        g["x"][who] = 1

class Plainer:
    """An object without equality."""
    def __init__(self, who): self.who = who

def effective(act, value):
    """What the action amounts to for the current value: None, "define" or "modify"."""
    if act in SHARED:
        return None if value is not UNSET and value is SHARED[act] else "define"
    if act in ("list", "dict", "object"):
        return "define"
    if act == "append": return "modify" if isinstance(value, list) else None
    if act == "nested": return "modify" if isinstance(value, list) and value and isinstance(value[0], list) else None
    if act == "key": return "modify" if isinstance(value, dict) else None
    return None

class Unset: pass
UNSET = Unset()

def conflicts(ctx, n, acts, start, fixed=(), by=None):
    """Groups g0..g(n-1), edges only from later to earlier ones (every acyclic graph up to renaming)."""
    names = [f"g{i}" for i in range(n)]
    pairs = [(names[i], names[j]) for i in range(n) for j in range(i)]
    edges = []
    for i, (a, b) in enumerate(pairs):
        if (fixed[i] if i < len(fixed) else ctx.decide(ctx.bool(f"{a}>{b}"))):
            edges.append((a, b))
    dep = closure(names, edges)
    plan = {x: ctx.choice("act." + x, acts) for x in names}
    plan["all"] = start
    decls = [{"name": x, "after": [b for a, b in edges if a == x]} for x in names]
    if ctx.choice("reversed", [False, True]):
        decls.reverse()
    done = []           # (group, action)
    cur = [UNSET]
    def hook(name, g):
        if name in plan:
            old = g["x"] if "x" in g else UNSET
            e = effective(plan[name], old)
            perform(plan[name], g, name)
            if e: done.append((name, e))
            cur[0] = g["x"] if "x" in g else UNSET
    variables, hvars = {}, {}
    if by == "inventory": variables["x"] = [["init"]]
    if by == "declaration": hvars["x"] = [["init"]]
    hosts = [{"name": "h", "url": "ssh://h", "groups": list(names), "vars": hvars}]
    if start == "init":
        plan["all"] = None
        def hook0(name, g):
            if name == "all":
                g["x"] = [["init"]]
                done.append(("all", "define"))
            hook(name, g)
        h = hook0
    else:
        h = hook
    with Load(ctx, hosts, decls, ["groups/all"] + ["groups/" + x for x in names], variables, h) as L:
        exc, _ = L.load()
        ctx.observe("exc", type(exc).__name__)
        clash = None
        for i in range(len(done)):
            for j in range(i):
                (a, x), (b, y) = done[i], done[j]
                if "all" in (a, b) or a in dep[b] or b in dep[a]:
                    continue
                if x == "modify" and y == "modify":
                    continue
                clash = (done[j], done[i])
        ctx.observe("done", done)
        if clash:
            ctx.check("C27.detected", exc is not None, lambda: f"{clash[0]} and {clash[1]} are not ordered ({edges}) but the host was loaded")
        else:
            ctx.check("C27.accepted", exc is None, lambda: f"actions {done} with dependencies {edges} are not ambiguous but: {exc!r}")
            if exc is None and cur[0] is not UNSET:
                v = fora.inventory.loaded_hosts["h"].x
                ctx.check("C27.wins", v is cur[0] or v == cur[0], lambda: f"x is {v!r} on the host but should be {cur[0]!r}")

def jobs_c27(tier):
    t = tier == "thorough"
    js = []
    def j(name, **p): js.append({"name": name, "fn": "conflicts", "params": p})
    # chains and branches: 5 groups, two variables' worth of actions
    for f in itertools.product((False, True), repeat=2):
        s = "".join("01"[x] for x in f)
        j("four-define-" + s, n=4, acts=[None, "list"], start=None, fixed=f)
        j("four-mixed-" + s, n=4, acts=[None, "list", "append"] if t else ["append", "list"], start="init", fixed=f)
    j("three-values", n=3, acts=[None, "one", "two", "none", "list"] if t else [None, "one", "two", "none"], start=None)
    j("three-first", n=3, acts=["one", "two", None], start="one")
    j("three-nested", n=3, acts=[None, "nested", "append", "list"], start="init")
    j("three-object", n=3, acts=[None, "one", "object"], start="object")
    j("three-dict", n=3, acts=[None, "key", "dict"], start="dict")
    j("three-inventory", n=3, acts=[None, "nested", "list"], start=None, by="inventory")
    j("three-declaration", n=3, acts=[None, "nested", "list"], start=None, by="declaration")
    # two chains of different length: a1 <- a2 <- a3 and b1 <- b2
    j("chains", n=5, acts=[None, "list"], start=None, fixed=(True, False, True, False, False, False) if not t else (True, False, True))
    return js

# ---------------------------------------------------------------- C28

PUBLIC = "x"
def sources(ctx, in_a, in_b, odd=None):
    """Who defines x for host h: any subset of inventory, declaration, two groups (b after a), host module, script."""
    src = ["inventory", "declaration", "all", "a", "b", "host"]
    value = {s: ctx.str("v." + s, 1, 1) for s in src + ["script"]}
    if odd is not None:
        # values that are false in a condition are values like any other
        value[odd] = ctx.choice("odd", [None, "", 0, []])
    on = {s: s == odd or ctx.decide(ctx.bool(s)) for s in src}
    byscript = ctx.choice("script", ["no", "value", "module", "none"])
    hosts = [{"name": "h", "url": "ssh://h", "groups": [g for g, i in (("a", in_a), ("b", in_b)) if i], "vars": {"x": value["declaration"]} if on["declaration"] else {}},
             {"name": "k", "url": "ssh://k", "groups": ["a", "b"]}]
    def hook(name, g):
        s = {"h": "host"}.get(name, name)
        if s in on and on[s]:
            g["x"] = value[s]
    with Load(ctx, hosts, [{"name": "b", "after": ["a"]}, "a"], ["groups/all", "groups/a", "groups/b", "hosts/h"], {"x": value["inventory"]} if on["inventory"] else {}, hook) as L:
        exc, _ = L.load()
        ctx.check("C28.loads", exc is None, lambda: f"{exc!r}")
        if exc is not None:
            return
        def expected(groups, decl, own):
            r = UNSET
            if on["inventory"]: r = value["inventory"]
            if decl and on["declaration"]: r = value["declaration"]
            for g in ["all"] + groups:
                if on[g]: r = value[g]
            if own and on["host"]: r = value["host"]
            return r
        wants = {"h": expected([g for g, i in (("a", in_a), ("b", in_b)) if i], True, True), "k": expected(["a", "b"], False, False)}
        for name, want in wants.items():
            h = fora.inventory.loaded_hosts[name]
            fora.script = None
            got = getattr(h, "x", UNSET)
            ctx.check("C28.value", got is want or got is not UNSET and want is not UNSET and ctx.same(got, want), lambda: f"x on {name} is {got!r} but should be {want!r}")
            got = vars(h).get("x", UNSET)
            ctx.check("C28.vars", got is want or got is not UNSET and want is not UNSET and ctx.same(got, want), lambda: f"vars()['x'] on {name} is {got!r} but should be {want!r}")
            sc = ScriptWrapper("s")
            m = ModuleType("s")
            sc.wrap(m, copy_members=True, copy_functions=True)
            sval = {"no": UNSET, "value": value["script"], "module": ModuleType("x"), "none": None}[byscript]
            if byscript != "no": m.x = sval
            if byscript == "module": sval = UNSET
            m._y = 5
            fora.script = sc
            try:
                fill = sval if want is UNSET else want
                got = getattr(h, "x", UNSET)
                ctx.check("C28.gap", got is fill or got is not UNSET and fill is not UNSET and ctx.same(got, fill), lambda: f"with a script, x on {name} is {got!r} but should be {fill!r}")
                got = h.vars_hierarchical().get("x", UNSET)
                ctx.check("C28.gap", got is fill or got is not UNSET and fill is not UNSET and ctx.same(got, fill), lambda: f"with a script, vars_hierarchical()['x'] on {name} is {got!r} but should be {fill!r}")
                ctx.check("C28.private", not hasattr(h, "_y"), "a private variable of the script is visible on the host")
                ctx.check("C28.own", h.name == name and h.vars_hierarchical().get("name") == name, "the name of the host was replaced by the script's")
            finally:
                fora.script = None

def isolation(ctx, where, shape):
    """What modules of one host do to a value is not visible on another host."""
    def fresh():
        return {"list": lambda: ["init"], "dict": lambda: {"k": ["init"]}, "nested": lambda: [["init"], {"d": "init"}], "set": lambda: {"init"}, "object": lambda: Box()}[shape]()
    def text(v):
        return repr(sorted(v)) if isinstance(v, set) else repr(v)
    shared = fresh()
    actor = ctx.choice("actor", ["groups/all", "groups/a", "groups/b", "hosts/h", "hosts/k"])
    what = ctx.choice("what", ["change", "replace", "delete"])
    membership = ctx.choice("members", [(["a"], ["b"]), (["a"], ["a"]), (["a", "b"], ["b"]), ([], ["a", "b"])])
    hosts = [{"name": "h", "url": "ssh://h", "groups": list(membership[0])}, {"name": "k", "url": "ssh://k", "groups": list(membership[1])}, {"name": "l", "url": "ssh://l"}]
    if where == "declaration":
        for h in hosts: h["vars"] = {"x": shared}
    elif where == "declaration-dict":
        d = {"x": shared}
        for h in hosts: h["vars"] = d
    group_value = where == "module"
    count = [0]
    seen = []
    def change(v):
        if isinstance(v, set): v.add("changed")
        elif isinstance(v, dict): v["k"].append("changed")
        elif isinstance(v, Box): v.items.append("changed")
        elif isinstance(v[0], list): v[0].append("changed"); v[1]["d"] = "changed"
        else: v.append("changed")
    def hook(name, g):
        if name == "all" and group_value:
            g["x"] = fresh()
        seen.append((name, text(g["x"]) if "x" in g else None))
        if actor.endswith("/" + name):
            if what == "change": change(g["x"])
            elif what == "replace":
                # ambiguous redefinitions do not occur: only one module acts
                g["x"] = "replaced"
            else: g["y"] = g.pop("x")
    mods = ["groups/all", "groups/a", "groups/b", "hosts/h", "hosts/k", "hosts/l"]
    with Load(ctx, hosts, ["a", "b"], mods, {"x": shared} if where == "inventory" else {}, hook) as L:
        exc, _ = L.load()
        ctx.check("C28.loads", exc is None, lambda: f"{exc!r}")
        if exc is not None:
            return
        groups = {"h": membership[0], "k": membership[1], "l": []}
        name = actor.split("/")[1]
        init = text(fresh())
        c = fresh()
        change(c)
        for hname, h in fora.inventory.loaded_hosts.items():
            acted = name == "all" or name == hname or name in groups[hname]
            got = getattr(h, "x", UNSET)
            want = init if not acted else text(c) if what == "change" else repr("replaced") if what == "replace" else None
            if want is None:
                continue
            ctx.check("C28.isolated", got is not UNSET and text(got) == want, lambda: f"x on {hname} is {got!r} but should be {want} ({actor} did {what}, membership {groups})")
        # nor is a later change of one loaded host
        hs = list(fora.inventory.loaded_hosts.values())
        if what == "change":
            before = [text(h.x) for h in hs]
            change(hs[0].x)
            ctx.check("C28.isolated", [text(h.x) for h in hs[1:]] == before[1:], lambda: "hosts share an object")

class Box:
    def __init__(self): self.items = ["init"]
    def __repr__(self): return f"Box({self.items})"

def jobs_c28(tier):
    js = [{"name": f"sources-{a}-{b}", "fn": "sources", "params": {"in_a": a, "in_b": b}} for a in (False, True) for b in (False, True)]
    js += [{"name": f"sources-odd-{o}", "fn": "sources", "params": {"in_a": True, "in_b": True, "odd": o}} for o in ("inventory", "declaration", "b", "host")]
    for where in ("inventory", "declaration", "declaration-dict", "module"):
        for shape in ("list", "dict", "nested", "set", "object"):
            js.append({"name": f"isolation-{where}-{shape}", "fn": "isolation", "params": {"where": where, "shape": shape}})
    return js

# ---------------------------------------------------------------- C29

HOST = [(ord("a"), ord("z")), (ord("0"), ord("9")), (ord("."), ord(".")), (ord("-"), ord("-"))]
USER = [(ord("a"), ord("z")), (ord("0"), ord("9")), (ord("_"), ord("_")), (ord("-"), ord("-"))]
DIGIT = [(ord("0"), ord("9"))]
FORMS = ["{h}", "{u}@{h}", "ssh:{h}", "ssh:{u}@{h}", "ssh:{h}:{p}", "ssh://{h}", "ssh://{u}@{h}", "ssh://{h}:{p}", "ssh://{u}@{h}:{p}", "ssh://[{v}]", "ssh://{u}@[{v}]:{p}", "local:", "local:{h}"]

def make_url(ctx, form, tag=""):
    """(url, host part)"""
    h = ctx.str(tag + "host", 4 if ctx.tier == "thorough" else 3, 1, HOST) if "{h}" in form else None
    u = ctx.str(tag + "user", 2, 1, USER) if "{u}" in form else None
    p = ctx.str(tag + "port", 2, 1, DIGIT) if "{p}" in form else None
    v = "::1" if "{v}" in form else None
    url = ""
    rest = form
    while rest:
        if rest[0] == "{":
            url = url + {"h": h, "u": u, "p": p, "v": v}[rest[1]]
            rest = rest[3:]
        else:
            url = url + rest[0]
            rest = rest[1:]
    name = h if h is not None else "[::1]" if v is not None else "localhost"
    return url, name

def declare(how, url, name=None):
    if how == "str": return url
    d = {} if url is None else {"url": url}
    if name is not None: d["name"] = name
    return HostDeclaration(**d) if how == "decl" else d

def identity(ctx, form, named=False):
    url, part = make_url(ctx, form)
    how = ctx.choice("how", ["decl", "dict"] if named else ["str", "decl", "dict"])
    own = ctx.str("name", 2, 1) if named else None
    with Load(ctx, [declare(how, url, own)]) as L:
        if ctx.symbolic and not named:
            pass
        inv = InventoryWrapper()
        inv.wrap(_Immediate(rt.DATA["hosts"]))
        fora.inventory = inv
        exc, _ = common.attempt(inv.load)
        ctx.observe("exc", type(exc).__name__)
        ctx.check("C29.accepted", exc is None, lambda: f"{url!r}: {exc!r}")
        if exc is not None:
            return
        hs = list(inv.loaded_hosts.items())
        ctx.check("C29.one", len(hs) == 1, lambda: f"{len(hs)} hosts")
        key, h = hs[0]
        want = own if named else part
        ctx.observe("name", h.name)
        ctx.check("C29.name", ctx.all(ctx.same(h.name, want), ctx.same(key, want)), lambda: f"host {url!r} is named {h.name!r} but should be {want!r}")
        full = "ssh://" + url if ":" not in form else url
        ctx.check("C29.url", ctx.same(h.url, full), lambda: f"url {h.url!r} but should be {full!r}")
        # the connection goes to the declared url
        exc, c = common.attempt(h.create_connector)
        ctx.check("C29.connector", exc is None, lambda: f"{exc!r}")
        if exc is not None:
            return
        local = form.startswith("local")
        ctx.check("C29.schema", c.schema == ("local" if local else "ssh"), lambda: f"{url!r} uses connector {c.schema}")
        common.set_args(debug=ctx.decide(ctx.bool("debug")))
        osmodel.set_world(L.saved)          # the command contains the dispatcher's own source
        try:
            cmd = c.command()
        finally:
            osmodel.set_world(L.client)
        if local:
            ctx.check("C29.command", cmd[0] == "python3" and cmd[1].endswith("tunnel_dispatcher.py"), lambda: f"{cmd}")
        else:
            dest = url if form.startswith("ssh://") else "ssh://" + url[4:] if form.startswith("ssh:") else "ssh://" + url
            ctx.check("C29.command", cmd[0] == "ssh" and len(cmd) == 3 and ctx.same(cmd[1], dest), lambda: f"ssh is called for {cmd[1]!r}, declared {url!r}")

class _Immediate:
    def __init__(self, hosts): self.hosts = list(hosts)
    def base_dir(self): raise RuntimeError("no base directory")
    def group_module_file(self, name): return None
    def host_module_file(self, name): return None
    def available_groups(self): return set()

def duplicates(ctx, forms, named):
    """Two declarations: refused exactly when their names are equal."""
    f1, f2 = ctx.choice("form1", forms), ctx.choice("form2", forms)
    u1, n1 = make_url(ctx, f1, "1.")
    u2, n2 = make_url(ctx, f2, "2.")
    d1, d2 = u1, u2
    if named in (1, 3):
        n1 = ctx.str("name1", 2, 1, HOST)
        d1 = {"url": u1, "name": n1}
    if named in (2, 3):
        n2 = ctx.str("name2", 2, 1, HOST)
        d2 = HostDeclaration(url=u2, name=n2)
    middle = [{"name": "mid", "url": "ssh://mid"}]
    ctx.assume(ctx.all(n1 != "mid", n2 != "mid"))
    with Load(ctx, []) as L:
        inv = InventoryWrapper()
        inv.wrap(_Immediate([d1] + middle + [d2]))
        fora.inventory = inv
        exc, _ = common.attempt(inv.load)
        ctx.observe("exc", type(exc).__name__)
        equal = ctx.decide(ctx.same(n1, n2))
        if equal:
            ctx.check("C29.duplicate", exc is not None, lambda: f"two hosts named {n1!r} were accepted")
        else:
            ctx.check("C29.distinct", exc is None, lambda: f"hosts {n1!r} and {n2!r}: {exc!r}")
            if exc is None:
                got = list(inv.loaded_hosts)
                ctx.check("C29.names", len(got) == 3 and ctx.all(ctx.same(got[0], n1), ctx.same(got[2], n2)), lambda: f"{got}")
                a, b = inv.loaded_hosts[n1], inv.loaded_hosts[n2]
                w1, w2 = (("ssh://" + u if ":" not in f else u) for u, f in ((u1, f1), (u2, f2)))
                ctx.check("C29.urls", ctx.all(ctx.same(a.url, w1), ctx.same(b.url, w2)), lambda: f"{a.url!r} {b.url!r}")

def neither(ctx):
    how = ctx.choice("how", ["decl", "dict"])
    extra = ctx.choice("extra", [{}, {"groups": ["g"]}, {"vars": {"x": 1}}])
    kind = ctx.choice("kind", ["neither", "name", "junk"])
    d = dict(extra)
    if kind == "name": d["name"] = "n"
    decl = HostDeclaration(**d) if how == "decl" else d
    if kind == "junk": decl = ctx.choice("junk", [None, 5, ["h"], ("a", "b")])
    with Load(ctx, []) as L:
        inv = InventoryWrapper()
        inv.wrap(_Immediate([decl]))
        fora.inventory = inv
        exc, _ = common.attempt(inv.load)
        if kind == "name":
            ctx.check("C29.accepted", exc is None, lambda: f"{exc!r}")
            if exc is None:
                h = inv.loaded_hosts["n"]
                e2, _ = common.attempt(h.create_connector)
                ctx.check("C29.nourl", h.url is None and e2 is not None, "a host without url got a connector")
        else:
            ctx.check("C29.neither", exc is not None, lambda: f"{decl!r} was accepted")

def explicit_connector(ctx):
    """A connector that is given explicitly is used for the declared url, whatever its scheme."""
    url = ctx.choice("url", [None, "ssh://h", "zz://h", "local:"])
    where = ctx.choice("where", ["first", "second"])
    decl = {"name": "n"} if url is None else {"name": "n", "url": url}
    with Load(ctx, []) as L:
        inv = InventoryWrapper()
        inv.wrap(_Immediate([decl, {"name": "o", "url": "ssh://o"}] if where == "first" else [{"name": "o", "url": "ssh://o"}, decl]))
        fora.inventory = inv
        exc, _ = common.attempt(inv.load)
        ctx.check("C29.accepted", exc is None, lambda: f"{exc!r}")
        if exc is not None:
            return
        h = inv.loaded_hosts["n"]
        got = []
        def mine(u, host):
            got.append((u, host))
            return "mine"
        h.connector = mine
        exc, c = common.attempt(h.create_connector)
        ctx.observe("got", len(got))
        ctx.check("C29.connector", exc is None and c == "mine" and len(got) == 1 and got[0][0] == url and got[0][1] is h, lambda: f"{exc!r} {c!r} {got}")
        exc, c = common.attempt(inv.loaded_hosts["o"].create_connector)
        ctx.check("C29.schema", exc is None and c.schema == "ssh", lambda: f"{exc!r} {c!r}")

def schema(ctx):
    """Unknown schemes are refused."""
    s = ctx.str("schema", 4, 1, HOST)
    url = s + ctx.choice("rest", ["://h", ":h", ":"])
    known = ctx.decide(ctx.any(s == "ssh", s == "local"))
    how = ctx.choice("named", [False, True])
    with Load(ctx, []) as L:
        Connector.registered_connectors.pop("test", None)
        inv = InventoryWrapper()
        inv.wrap(_Immediate([{"url": url, "name": "n"} if how else url]))
        fora.inventory = inv
        exc, _ = common.attempt(inv.load)
        if exc is None:
            exc, c = common.attempt(list(inv.loaded_hosts.values())[0].create_connector)
        if known:
            ctx.check("C29.accepted", exc is None, lambda: f"{url!r}: {exc!r}")
        else:
            ctx.check("C29.schema", exc is not None, lambda: f"{url!r} was accepted")

def jobs_c29(tier):
    t = tier == "thorough"
    js = [{"name": f"identity-{i}", "fn": "identity", "params": {"form": f}} for i, f in enumerate(FORMS)]
    js += [{"name": f"named-{i}", "fn": "identity", "params": {"form": f, "named": True}} for i, f in enumerate(FORMS) if t or i in (0, 8, 11)]
    for n in (0, 1, 2, 3):
        js.append({"name": f"duplicates-{n}", "fn": "duplicates", "params": {"forms": FORMS if t else ["{h}", "ssh://{u}@{h}:{p}", "local:{h}"], "named": n}})
    js += [{"name": "neither", "fn": "neither"}, {"name": "schema", "fn": "schema"}, {"name": "explicit", "fn": "explicit_connector"}]
    return js

def jobs(prop, tier):
    return globals()["jobs_" + prop.lower()](tier)
