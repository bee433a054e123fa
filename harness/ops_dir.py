"""C24, C25 (and their part of C14, C17, C18): directory uploads, destinations ending in a slash, template variables."""
import types
import fora
from fora.operations import files
from harness import opsenv
from harness.opsenv import Env, Node, world, OCT, octal_value
from harness.ops import failed
from harness.ops_sys import drive, same_full

NAMES = ["f", "-x", ".h", "a b", "\u00e9"]

def tree(ctx, variant):
    """The local source below /local/src: path -> content, None for directories."""
    t = {}
    if variant == "attrs": return {"f": b"one", "sub": None, "sub/f": b"two"}
    fname = ctx.choice("fname", NAMES) if variant == "names" else "f"
    dname = ctx.choice("dname", NAMES) if variant == "names" else "sub"
    if fname == dname: dname = dname + "d"
    if variant == "names" or ctx.decide(ctx.bool("file")): t[fname] = ctx.bytes("c0", 1, 0) if variant == "content" else b"one"
    if variant == "names" or ctx.decide(ctx.bool("dir")):
        t[dname] = None
        if ctx.decide(ctx.bool("inner")):
            t[dname + "/" + fname] = ctx.bytes("c1", 1, 1) if variant == "content" else b"two"
        if variant == "names" or ctx.decide(ctx.bool("deep")):
            t[dname + "/deep"] = None
            t[dname + "/deep/g"] = b"three"
    return t

SRC = {"plain": ("/local/src", "/"), "slash": ("/local/src/", "/"), "relative": ("src", "/local"), "dots": ("./other/../src", "/local"), "here": (".", "/local/src"), "up": ("../src/", "/local/other")}
def upload_dir(ctx, variant, spelling, dest, there):
    w = world()
    t = tree(ctx, variant)
    src, cwd = SRC[spelling]
    local = {"/local": Node("dir", 0o755), "/local/src": Node("dir", 0o755), "/local/other": Node("dir", 0o755), "/local/other/no": Node("file", 0o644, 0, 0, b"no"), "/local/zz": Node("file", 0o644, 0, 0, b"no")}
    for p, c in t.items():
        local["/local/src/" + p] = Node("dir", 0o700) if c is None else Node("file", 0o640, 0, 0, c)
    base = {"named": "/w/d", "child": "/w/src", "deepchild": "/td/src"}[dest]
    k = {"src": src, "dest": {"named": "/w/d", "child": "/w/", "deepchild": "/td/"}[dest]}
    dm, fm = 0o700, 0o600
    if variant == "attrs":
        if ctx.decide(ctx.bool("dir_mode")):
            k["dir_mode"] = "7" + ctx.str("dm", 2, 2, OCT)
            dm = octal_value(k["dir_mode"])
        if ctx.decide(ctx.bool("file_mode")):
            k["file_mode"] = "6" + ctx.str("fm", 2, 2, OCT)
            fm = octal_value(k["file_mode"])
        owner, group = ctx.choice("owner", [None, "u"]), ctx.choice("group", [None, "g"])
        if owner: k["owner"] = owner
        if group: k["group"] = group
    uid, gid = (7 if k.get("owner") else 0), (8 if k.get("group") else 0)
    clash = False
    if there == "dir":
        w.nodes[base] = Node("dir", ctx.choice("dperm", [0o700, 0o755]), 0, 0)
        w.nodes[base + "/unrelated"] = Node("file", 0o644, 7, 8, b"keep")
        if "f" in t:
            w.nodes[base + "/f"] = Node("file", 0o600, ctx.choice("fowner", [0, 7]), 0, b"old")
            if ctx.decide(ctx.bool("same")): w.nodes[base + "/f"].content = t["f"]
    elif there == "clash":
        n = ctx.choice("clash", ["base", "sub", "f"])
        if n == "base": w.nodes[base] = Node("file", 0o644, 0, 0, b"x")
        else:
            w.nodes[base] = Node("dir", 0o700)
            w.nodes[base + "/" + n] = Node("file", 0o600, 0, 0, b"x") if n == "sub" else Node("dir", 0o700)
        clash = n == "base" or n in t
    want = {base: None}
    want.update({base + "/" + p: c for p, c in t.items()})
    def right(p, n):
        c = want[p]
        if n is None or n.kind != ("dir" if c is None else "file"): return False
        return ctx.all(ctx.same(n.perm, dm if c is None else fm), ctx.same(n.uid, uid), ctx.same(n.gid, gid), True if c is None else ctx.same(n.content, c))
    differs = None if clash else ctx.no(ctx.all(*[right(p, w.nodes.get(p)) for p in want]))
    def verify(exc, res, full):
        if clash:
            ctx.check("C24.refused", failed(exc, res), "accepted")
            for lab in ("C24.kept", "C18.untouched"):
                ctx.check(lab, ctx.all(*[opsenv.same_node(ctx, w.nodes[p], n) for p, n in full.nodes.items() if p in w.nodes and n.kind == "file" and n.content in (b"x", b"other", b"target")]), "an object of the wrong type was changed")
            return
        ctx.check("C24.works", not failed(exc, res), lambda: f"{type(exc).__name__}: {exc}")
        ctx.check("C24.tree", all(p in w.nodes for p in want), lambda: f"{sorted(set(want) - set(w.nodes))}")
        ctx.check("C24.nothingelse", set(w.nodes) == set(full.nodes) | set(want), lambda: f"{sorted(set(w.nodes) - set(want) - set(full.nodes))}")
        for p in want:
            ctx.check("C24.attributes", right(p, w.nodes[p]), lambda: f"{p} is wrong")
        ctx.check("C24.unrelated", ctx.all(*[opsenv.same_node(ctx, w.nodes[p], n) for p, n in full.nodes.items() if p not in want]), "unrelated files changed")
    drive(ctx, w, files.upload_dir, k, differs, verify, local=local, env={"cwd": cwd})

def into(ctx, op):
    """Single uploads to a path ending in a slash."""
    w = world()
    text = ctx.choice("text", [b"x", b""])
    name = ctx.choice("name", NAMES)
    src, cwd = ctx.choice("spelling", [("/local/" + name, "/"), (name, "/local"), ("./" + name, "/local"), ("../local/./" + name, "/local")])
    k = {"src": src, "dest": ctx.choice("dest", ["/w/", "/td/", "/"])}
    local = {"/local": Node("dir", 0o755), "/local/" + name: Node("file", 0o644, 0, 0, text), "/local/zz": Node("file", 0o644, 0, 0, b"no")}
    p = k["dest"] + name
    if ctx.decide(ctx.bool("there")): w.nodes[p] = Node("file", 0o600, 0, 0, ctx.bytes("old", 1, 1))
    differs = ctx.no(ctx.same(w.nodes[p].content, text)) if p in w.nodes else True
    def verify(exc, res, full):
        ctx.check("C24.works", not failed(exc, res), lambda: f"{type(exc).__name__}: {exc}")
        ctx.check("C24.tree", p in w.nodes and w.nodes[p].kind == "file", lambda: f"{sorted(set(w.nodes) - set(full.nodes))}")
        ctx.check("C24.attributes", ctx.all(ctx.same(w.nodes[p].content, text), w.nodes[p].perm == 0o600), "wrong content")
        ctx.check("C24.unrelated", opsenv.unchanged_except(ctx, full.nodes, w, [p]), "something else changed")
    drive(ctx, w, getattr(files, op), k, differs, verify, local=local, env={"cwd": cwd})

# ---------------------------------------------------------------- template variables

def template_vars(ctx, op, what):
    w = world()
    where = {s: ctx.choice("in." + s, [True, False]) for s in ("context", "host", "script")}
    if where["context"] is False: ctxkind = ctx.choice("context", ["none", "empty", "other"])
    inv = opsenv.inventory()
    inv.marker = "INV"
    host_mod, script_mod = types.ModuleType("host_host"), types.ModuleType("script_x")
    name = "v"
    k = {}
    if what == "reserved":
        # variables with reserved names never shadow the objects
        name = ctx.choice("name", ["host", "inventory"])
        text = ctx.choice("text", ["{{ host.name }}/{{ inventory.marker }}", "{{ inventory.marker }}{% if inventory is sameas host %}same{% endif %}", "{{ host.marker2 }}"])
        want = {"{{ host.name }}/{{ inventory.marker }}": "host/INV", "{{ host.marker2 }}": "M2"}.get(text, "INV")
        host_mod.marker2 = "M2"
    elif what == "private":
        name = ctx.choice("name", ["_v", "mod"])
        text, want = "{{ " + name + " }}", None
    elif what == "object":
        text = "{{ host.v }}"
        want = "H" if where["host"] else "S" if where["script"] else None
    elif what == "loop":
        text, want = "{% for i in [1, 2, 3] %}{% if i == 2 %}{% continue %}{% endif %}{{ i }}{{ v }}{% endfor %}", None
        v = "C" if where["context"] else "H" if where["host"] else "S" if where["script"] else None
        want = None if v is None else f"1{v}3{v}"
    else:
        text = ctx.choice("text", ["{{ v }}", "<{{ v }}>&", "{% if v == 'C' %}yes{% else %}no{% endif %}", "{{ v|default('d') }}", "{{ v.missing }}", "{{ missing }}{{ v }}", "{{ other }}"])
        v = "C" if where["context"] else "H" if where["host"] else "S" if where["script"] else None
        if text == "{{ v|default('d') }}": want = v or "d"
        elif text in ("{{ v.missing }}", "{{ missing }}{{ v }}"): want = None
        elif text == "{{ other }}": want = "O"
        elif v is None: want = None
        else: want = text.replace("{{ v }}", v) if "if" not in text else ("yes" if v == "C" else "no")
    val = {"context": "C", "host": "H", "script": "S"}
    if what == "private":
        if name == "mod": val = {"context": "C", "host": types, "script": types}
        want = "C" if where["context"] else None
    if where["context"]: k["context"] = {name: val["context"]}
    elif ctxkind == "empty": k["context"] = {}
    elif ctxkind == "other": k["context"] = {"zz": "Z"}
    host_mod.other = "O"
    if where["script"]: setattr(script_mod, name, val["script"])
    local = {"/local": Node("dir", 0o755), "/local/p": Node("file", 0o644, 0, 0, text.encode())}
    if op == "template_content": k["content"] = text
    else: k["src"] = "/local/p"
    k["dest"] = "/w/p"
    given = dict(k.get("context") or {})
    def prepare(e):
        e.host.wrap(host_mod)
        if where["host"]: setattr(host_mod, name, val["host"])
        fora.script.wrap(script_mod)
    def verify(exc, res, full):
        if want is None:
            ctx.check("C25.undefined", failed(exc, res), lambda: f"rendered {w.nodes['/w/p'].content if '/w/p' in w.nodes else None!r}")
            ctx.check("C25.untouched", same_full(ctx, full, w), "changed")
            return
        ctx.check("C25.works", not failed(exc, res), lambda: f"{type(exc).__name__}: {exc}")
        ctx.check("C25.rendered", ctx.same(w.nodes["/w/p"].content, want.encode()), lambda: f"{w.nodes['/w/p'].content!r} instead of {want!r}")
        ctx.check("C25.context", (k.get("context") or {}) == given, "the given context was modified")
    drive(ctx, w, getattr(files, op), k, None if want is None else True, verify, local=local, env={"inv": inv, "prepare": prepare})

def jobs(prop, tier):
    J = []
    def j(fn, **p):
        J.append({"name": fn + "-" + "-".join(f"{v}" for v in p.values()), "fn": fn, "params": p})
    if prop in ("C24", "C14", "C17"):
        for v, sp in (("shape", "plain"), ("shape", "relative"), ("names", "plain"), ("content", "plain"), ("attrs", "plain")) + ((("shape", "slash"), ("shape", "dots"), ("shape", "here"), ("shape", "up"), ("names", "relative")) if prop == "C24" else ()):
            for dest in ("named", "child"):
                for there in ("missing", "dir"):
                    if there == "dir" and v == "names": continue
                    j("upload_dir", variant=v, spelling=sp, dest=dest, there=there)
        if prop == "C24":
            j("upload_dir", variant="shape", spelling="plain", dest="deepchild", there="missing")
    if prop in ("C24", "C18"):
        j("upload_dir", variant="shape", spelling="plain", dest="named", there="clash")
        j("upload_dir", variant="shape", spelling="plain", dest="child", there="clash")
    if prop == "C24":
        for op in ("upload", "template"): j("into", op=op)
    if prop == "C25":
        for op in ("template_content", "template"):
            for what in ("plain", "reserved", "private", "object", "loop"): j("template_vars", op=op, what=what)
    return J
