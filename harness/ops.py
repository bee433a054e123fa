"""C13-C18: file, directory, link and content operations through the whole stack."""
import fora
from fora.operations import files
from fora.operations.api import OperationError
from harness import opsenv
from harness.opsenv import Env, Node, world, twin, snapshot, unchanged_except, same_node, octal_value, OCT, positional
from harness.common import attempt

P = "/w/p"
KINDS = ["missing", "file", "dir", "link-file", "link-dir", "dangling", "fifo"]
OF = {"directory": "dir", "file": "file", "link": "link"}

def put(ctx, w, kind, path=P):
    """Create the initial object at path, with symbolic attributes."""
    if kind == "missing":
        return None
    perm = ctx.int("perm", 0, 0o7777)
    uid, gid = ctx.choice("ids", [(0, 0), (7, 8), (0, 8), (7, 0), (55, 55)])
    base = kind.split("-")[0]
    if base in ("link", "dangling"):
        t = {"link-file": "/t", "link-dir": "/td", "dangling": "/nowhere"}[kind]
        n = Node("link", 0o777, uid, gid, target=t)
    elif base == "file":
        n = Node("file", perm, uid, gid, ctx.bytes("old", 1, 1))
    else:
        n = Node(base, perm, uid, gid)
    w.nodes[path] = n
    if base == "dir":
        w.nodes[path + "/in"] = Node("file", 0o600, 7, 8, b"inside")
    return n

IDS = {"root": (0, 0), "0": (0, 0), "u": (7, None), "7": (7, None), "g": (None, 8), "8": (None, 8)}
def owner_group(ctx, few=False):
    owner = ctx.choice("owner", [None, "u"] if few else [None, "root", "u", "7"])
    group = ctx.choice("group", [None, "g"] if few else [None, "root", "g", "8"])
    uid = 0 if owner in (None, "root") else 7
    gid = 0 if group in (None, "root") else 8
    return owner, group, uid, gid

def mode_arg(ctx, default):
    """(argument, number)"""
    if ctx.decide(ctx.bool("mode.given")):
        m = ctx.str("mode", 5, 1, OCT) if ctx.tier == "thorough" else ctx.str("mode", 4, 3, OCT)
        v = octal_value(m)
        ctx.assume(v <= 0o7777)
        return m, v
    return None, default

class Case:
    """One operation call with its oracle."""
    def __init__(self, fn, kwargs, path, w):
        self.fn, self.kwargs, self.path, self.w = fn, kwargs, path, w
        self.local = None
    def expect(self, ctx, w): raise NotImplementedError
    def differs(self, ctx): raise NotImplementedError

def case(ctx, op, kind, present, touch, few=False):
    w = world()
    n = put(ctx, w, kind)
    if kind == "missing":
        w.nodes["/w"].perm = ctx.choice("parent", [0o755, 0o2775])
    owner, group, uid, gid = owner_group(ctx, few)
    k = {"path": P, "present": present, "touch": touch, "owner": owner, "group": group}
    want = {"uid": uid, "gid": gid}
    if op == "link":
        want["target"] = k["target"] = ctx.choice("target", ["/t", "/td", "-x", "rel"])
    else:
        k["mode"], want["perm"] = mode_arg(ctx, 0o700 if op == "directory" else 0o600)
    return w, n, k, want

def want_change(ctx, op, n, want, present, touch):
    """Is the managed state different from the requested one?"""
    if not present:
        return n is not None
    if n is None or touch:
        return True
    attr = "target" if op == "link" else "perm"
    return ctx.any(n.uid != want["uid"], n.gid != want["gid"], ctx.no(ctx.same(getattr(n, attr), want[attr])))

def call(env, fn, kwargs):
    return env.run(fn, **kwargs)

def failed(exc, res):
    return exc is not None or not res.success

def basic(ctx, op, kind, present=True, touch=False, few=False):
    """Post state, change flag, repetition and dry run of one call."""
    fn = getattr(files, op)
    w, n, k, want = case(ctx, op, kind, present, touch, few)
    right = n is None or n.kind == OF[op]
    before = snapshot(w)
    n0 = before.get(P)
    differs = want_change(ctx, op, n0, want, present, touch) if right else None
    ctx.observe("differs", differs)
    dry = None
    if ctx.prop in (None, "C14"):
        d = twin(w)
        with Env(ctx, d, dry=True) as env:
            dexc, dres = call(env, fn, k)
            ctx.check("C14.nochange", len(d.log) == 0 and unchanged_except(ctx, before, d), lambda: f"a dry run changed {d.log}")
            dry = (dexc, dres)
    with Env(ctx, w) as env:
        exc, res = call(env, fn, k)
        ctx.observe("exc", type(exc).__name__)
        ctx.observe("result", None if res is None else [res.success, res.changed, res.initial, res.final])
        if dry is not None:
            compare(ctx, dry, (exc, res))
        if not right:
            ctx.check("C18.refused", failed(exc, res), f"{op} accepted a {n0.kind}")
            ctx.check("C18.untouched", len(w.log) == 0 and unchanged_except(ctx, before, w), lambda: f"{op} refused a {n0.kind} but changed {w.log}")
            return
        ctx.check("C15.works", exc is None, lambda: f"{type(exc).__name__}: {exc}")
        if exc is not None:
            return
        ctx.check("C15.success", res.success, "failed")
        post(ctx, op, w, before, n0, present, want)
        if op == "directory" and present and n0 is not None:
            ctx.check("C15.inside", P + "/in" in w.nodes and same_node(ctx, w.nodes[P + "/in"], before[P + "/in"]), "the content of the directory changed")
        ctx.check("C17.changed", ctx.iff(res.changed, differs), lambda: f"changed={res.changed}")
        if touch and present and n0 is not None:
            ctx.check("C15.touched", w.nodes[P].touched > n0.touched, "not touched")
        elif ctx.prop in (None, "C17") and not (touch and present):
            first = len(w.log)
            ctx.check("C17.needless", ctx.any(differs, first == 0), lambda: f"already in the requested state but changed {w.log}")
            after = snapshot(w)
            env.clear()
            exc2, res2 = call(env, fn, k)
            ctx.check("C17.again", exc2 is None and res2.success and not res2.changed, lambda: f"second run: {exc2}, {res2}")
            ctx.check("C17.idle", len(w.log) == 0 and unchanged_except(ctx, after, w), lambda: f"second run changed {w.log}")

def post(ctx, op, w, before, n0, present, want):
    kind = OF[op]
    if not present:
        ctx.check("C15.gone", not any(p == P or p.startswith(P + "/") for p in w.nodes), "still there")
    else:
        n = w.nodes.get(P)
        ctx.check("C15.kind", n is not None and n.kind == kind, "wrong kind of object")
        ctx.check("C15.owner", ctx.same(n.uid, want["uid"]), lambda: f"owner {n.uid}")
        ctx.check("C15.group", ctx.same(n.gid, want["gid"]), lambda: f"group {n.gid}")
        if kind == "link":
            ctx.check("C15.target", ctx.same(n.target, want["target"]), lambda: f"target {n.target!r}")
        else:
            ctx.check("C15.mode", ctx.same(n.perm, want["perm"]), lambda: "wrong permission bits")
        if kind == "file":
            ctx.check("C15.content", ctx.same(n.content, n0.content if n0 is not None else b""), "content changed")
    ctx.check("C15.others", unchanged_except(ctx, before, w, [P]), lambda: f"other paths changed: {w.log}")

def compare(ctx, dry, real):
    """The dry run predicted the real run."""
    (dexc, dres), (exc, res) = dry, real
    if exc is None and res.success:
        ctx.check("C14.succeeds", dexc is None and dres.success, lambda: f"the real run succeeds but the dry run failed: {dexc}")
        ctx.check("C14.changed", ctx.iff(dres.changed, res.changed), lambda: f"dry {dres.changed} real {res.changed}")
        ctx.check("C14.initial", same_state(ctx, dres.initial, res.initial), lambda: f"{dres.initial} {res.initial}")
        ctx.check("C14.final", same_state(ctx, dres.final, res.final), lambda: f"{dres.final} {res.final}")
    elif isinstance(exc, (OperationError, ValueError)) or (exc is None and not res.success):
        ctx.check("C14.fails", failed(dexc, dres), lambda: f"the dry run reports success but the real run fails: {exc}")

def same_state(ctx, a, b):
    if set(a) != set(b):
        return False
    return ctx.all(*[same_state(ctx, a[k], b[k]) if isinstance(a[k], dict) and isinstance(b[k], dict) else ctx.same(a[k], b[k]) for k in a])

# ---------------------------------------------------------------- content operations

# text made of the characters that line handling and white space handling look at
LINES = [(9, 10), (13, 13), (32, 32), (65, 65)]
def content_case(ctx, op, kind, rich):
    w = world()
    n = put(ctx, w, kind)
    if kind == "file" and rich and not op.startswith("template"):
        n.content = ctx.bytes("before", 2) if rich != "blob" else ctx.blob("oldblob", minlen=1)
    if rich and kind == "file":
        # much content, few attributes
        n.uid, n.gid, n.perm = 0, 0, ctx.choice("perm0", [0o600, 0o4711])
        owner, group, uid, gid = (None, "g", 0, 8) if ctx.decide(ctx.bool("newgroup")) else (None, None, 0, 0)
        k = {"owner": owner, "group": group, "mode": None}
        perm = 0o600
    else:
        owner, group, uid, gid = owner_group(ctx, True)
        k = {"owner": owner, "group": group}
        k["mode"], perm = mode_arg(ctx, 0o600)
    local, path = None, P
    dest = P
    if op == "upload_content":
        how = ctx.choice("how", ["bytes", "text", "lines"]) if rich is True else "blob" if rich == "blob" else "byte"
        if how == "byte": k["content"] = want = ctx.bytes("content", 1, 1)
        elif how == "bytes": k["content"] = want = ctx.bytes("content", 2)
        elif how == "blob": k["content"] = want = ctx.blob("newblob", minlen=1)
        else:
            k["content"] = ctx.str("content.text", 1, 0, opsenv.remote.SCALAR) if how == "text" else ctx.str("content.lines", 3, 2, LINES)
            want = k["content"].encode("utf-8")
    elif op == "upload":
        want = ctx.bytes("content", 2) if rich is True else ctx.bytes("content", 1, 1) if not rich else ctx.blob("newblob", minlen=1)
        slash = bool(rich) and ctx.decide(ctx.bool("slash"))
        src = "/local/p"
        local = {"/local": Node("dir", 0o755), src: Node("file", 0o644, 0, 0, want)}
        k["src"] = src
        if slash: dest = "/w/"
    else:
        text = "{{ host.name }}-{{ v }}" if not rich else ctx.choice("text", ["", "a\n", "{{ host.name }}-{{ v }}", "caf\u00e9 {{ v }}\n"])
        k["context"] = {"v": "x\u20ac"}
        want = {"": "", "a\n": "a", "{{ host.name }}-{{ v }}": "host-x\u20ac", "caf\u00e9 {{ v }}\n": "caf\u00e9 x\u20ac"}[text].encode("utf-8")
        if kind == "file":
            if ctx.decide(ctx.bool("already")): n.content = want
            elif rich: n.content = b"z"
        if op == "template_content":
            k["content"] = text
        else:
            slash = bool(rich) and ctx.decide(ctx.bool("slash"))
            local = {"/local": Node("dir", 0o755), "/local/p": Node("file", 0o644, 0, 0, text.encode("utf-8"))}
            k["src"] = "/local/p"
            if slash: dest = "/w/"
    k["dest"] = dest
    return w, n, k, {"uid": uid, "gid": gid, "perm": perm, "content": want}, local

def content(ctx, op, kind, rich=False):
    fn = getattr(files, op)
    w, n, k, want, local = content_case(ctx, op, kind, rich)
    diff = ctx.decide(ctx.bool("diff")) if ctx.prop in (None, "C14") and rich else False
    right = n is None or n.kind == "file"
    before = snapshot(w)
    n0 = before.get(P)
    if right:
        differs = True if n0 is None else ctx.any(n0.uid != want["uid"], n0.gid != want["gid"], ctx.no(ctx.same(n0.perm, want["perm"])), ctx.no(ctx.same(n0.content, want["content"])))
        ctx.observe("differs", differs)
    dry = None
    if ctx.prop in (None, "C14"):
        d = twin(w)
        with Env(ctx, d, dry=True, diff=diff, local=local) as env:
            dry = call(env, fn, k)
            ctx.check("C14.nochange", len(d.log) == 0 and unchanged_except(ctx, before, d), lambda: f"a dry run changed {d.log}")
    with Env(ctx, w, diff=diff, local=local) as env:
        exc, res = call(env, fn, k)
        ctx.observe("exc", type(exc).__name__)
        ctx.observe("result", None if res is None else [res.success, res.changed])
        if dry is not None:
            compare(ctx, dry, (exc, res))
        if not right:
            for c in ("C16", "C18"):
                ctx.check(c + ".refused", failed(exc, res), f"{op} accepted a {n0.kind}")
                ctx.check(c + ".untouched", len(w.log) == 0 and unchanged_except(ctx, before, w), lambda: f"{op} refused a {n0.kind} but changed {w.log}")
            return
        ctx.check("C16.works", exc is None and res.success, lambda: f"{type(exc).__name__}: {exc}")
        if exc is not None:
            return
        n1 = w.nodes.get(P)
        ctx.check("C16.stored", n1 is not None and n1.kind == "file", "not stored at the destination")
        ctx.check("C16.content", ctx.same(n1.content, want["content"]), "wrong content")
        ctx.check("C16.owner", ctx.all(ctx.same(n1.uid, want["uid"]), ctx.same(n1.gid, want["gid"])), lambda: f"owner {n1.uid}:{n1.gid}")
        ctx.check("C16.mode", ctx.same(n1.perm, want["perm"]), "wrong permission bits")
        ctx.check("C16.others", unchanged_except(ctx, before, w, [P]), lambda: f"other paths changed: {w.log}")
        ctx.check("C17.changed", ctx.iff(res.changed, differs), lambda: f"changed={res.changed}")
        if ctx.prop in (None, "C17"):
            ctx.check("C17.needless", ctx.any(differs, len(w.log) == 0), lambda: f"already in the requested state but changed {w.log}")
            after = snapshot(w)
            env.clear()
            exc2, res2 = call(env, fn, k)
            ctx.check("C17.again", exc2 is None and res2.success and not res2.changed, lambda: f"second run: {exc2}, {res2}")
            ctx.check("C17.idle", len(w.log) == 0 and unchanged_except(ctx, after, w), lambda: f"second run changed {w.log}")

# ---------------------------------------------------------------- relative paths

RELATIVE = {
    "directory": ("path", {}), "file": ("path", {}), "link": ("path", {"target": "/t"}), "line": ("path", {"line": "x"}),
    "upload_content": ("dest", {"content": "x"}), "upload": ("dest", {"src": "/local/p"}), "upload_dir": ("dest", {"src": "/local"}),
    "template_content": ("dest", {"content": "x"}), "template": ("dest", {"src": "/local/p"}), "git": ("path", {"url": "/r"}),
}
def relative(ctx, op):
    arg, k = RELATIVE[op]
    if op == "git":
        from fora.operations import git
        fn = git.repo
    else:
        fn = getattr(files, op)
    path = ctx.str("path", 2, 0, [(1, 0x7f)])
    ctx.assume(ctx.any(len(path) == 0, *([path[0] != "/"] if len(path) else [])))
    w = world()
    before = snapshot(w)
    k = dict(k)
    k[arg] = path
    k["present" if op in ("directory", "file", "link", "line") else "name"] = ctx.choice("present", [True, False]) if op in ("directory", "file", "link", "line") else "n"
    local = {"/local": Node("dir", 0o755), "/local/p": Node("file", 0o644, 0, 0, b"x")}
    with Env(ctx, w, local=local) as env:
        exc, res = call(env, fn, k)
        ctx.observe("exc", type(exc).__name__)
        ctx.check("C18.relative", failed(exc, res), "a relative path was accepted")
        ctx.check("C18.norequest", env.requests() == 0 and len(w.log) == 0, "a remote request was made for a relative path")
        ctx.check("C18.same", unchanged_except(ctx, before, w), "changed")

def jobs(prop, tier):
    J = []
    def j(fn, **p):
        J.append({"name": fn + "-" + "-".join(f"{v}" for v in p.values()), "fn": fn, "params": p})
    if prop in ("C14", "C15", "C17"):
        few = tier == "quick"
        for op in ("directory", "file", "link"):
            for kind in [k for k in KINDS if k == "missing" or k.split("-")[0] == OF[op] or (op == "link" and k == "dangling")]:
                for present in (True, False):
                    for touch in ((False, True) if present else (False,)):
                        j("basic", op=op, kind=kind, present=present, touch=touch, few=few)
    if prop == "C18":
        for op in ("directory", "file", "link"):
            for kind in KINDS:
                if kind != "missing" and kind.split("-")[0] != OF[op] and not (op == "link" and kind == "dangling"):
                    for present in (True, False):
                        j("basic", op=op, kind=kind, present=present, touch=False, few=True)
        for op in ("upload_content", "upload", "template_content", "template"):
            for kind in KINDS:
                if kind not in ("missing", "file"):
                    j("content", op=op, kind=kind)
        for op in RELATIVE:
            j("relative", op=op)
    if prop in ("C14", "C16", "C17"):
        for op in ("upload_content", "upload", "template_content", "template"):
            for kind in KINDS if prop == "C16" else ("missing", "file"):
                j("content", op=op, kind=kind, rich=False)
                if kind == "file": j("content", op=op, kind=kind, rich=True)
            if op.startswith("upload"):
                j("content", op=op, kind="file", rich="blob")
    return J
