"""C19 (and C13-C18 parts): the line operation."""
import re
from fora.operations import files
from harness.opsenv import Env, Node, world, twin, snapshot, unchanged_except, same_node
from harness.ops import P, KINDS, put, call, failed, compare

BYTES = [0x61, 0x62, 0x20, 0x0a, 0x0d, 0x0c, 0xff]
REGEXES = ["a", "^a$", "^$", "b ?$"]

def text_of(ctx, name, n, m=0):
    """Content made of letters, blanks, several line ends and undecodable bytes."""
    k = ctx.choice(name + ".len", list(range(m, n + 1)))
    out = []
    for i in range(k):
        out.append(ctx.int(f"{name}.{i}", 0, 255))
        ctx.assume(ctx.any(*[out[-1] == b for b in BYTES]))
    return bytes(out)

def reference(ctx, old, line, regex, ignore):
    """[(line with its end, matches?)] of the old content."""
    t = old.decode("utf-8", "surrogateescape")
    res = []
    for l in t.splitlines(True):
        body = l.splitlines()[0]
        if regex is not None:
            m = re.search(regex, body) is not None
        elif ignore:
            m = body.strip() == line.strip()
        else:
            m = body == line
        res.append((l, bool(m)))
    return res

def line(ctx, kind, present, match, backup=False, size=3):
    w = world()
    if kind in ("missing", "file"):
        n = None
        if kind == "file":
            n = w.nodes[P] = Node("file", 0o4751, 7, 8, text_of(ctx, "old", size))
    else:
        n = put(ctx, w, kind)
    k = {"path": P, "present": present}
    regex, ignore = None, True
    if match == "regex":
        regex = k["regex"] = ctx.choice("regex", REGEXES)
        k["line"] = ln = {"a": "ba", "^a$": "a", "^$": "", "b ?$": "ab"}[regex]
    else:
        k["line"] = ln = ctx.str("line", 2, 1, [(0x61, 0x62), (0x20, 0x20)])
        ignore = k["ignore_whitespace"] = match == "ignore"
    if backup:
        b = ctx.choice("backup", [True, "p.orig", "../bak"])
        k["backup"] = b
    right = n is None or n.kind == "file"
    before = snapshot(w)
    n0 = before.get(P)
    if right:
        ref = reference(ctx, n0.content, ln, regex, ignore) if n0 is not None else []
        has = any(m for l, m in ref)
        differs = has != present
    dry = None
    if ctx.prop == "C14":
        d = twin(w)
        with Env(ctx, d, dry=True, diff=True) as env:
            dry = call(env, files.line, k)
            ctx.check("C14.nochange", len(d.log) == 0 and unchanged_except(ctx, before, d), lambda: f"a dry run changed {d.log}")
    with Env(ctx, w) as env:
        exc, res = call(env, files.line, k)
        ctx.observe("exc", type(exc).__name__)
        ctx.observe("result", None if res is None else [res.success, res.changed])
        if dry is not None:
            compare(ctx, dry, (exc, res))
        if not right:
            ctx.check("C18.refused", failed(exc, res), f"line accepted a {n0.kind}")
            ctx.check("C18.untouched", len(w.log) == 0 and unchanged_except(ctx, before, w), lambda: f"line refused a {n0.kind} but changed {w.log}")
            return
        ctx.check("C19.works", exc is None and res.success, lambda: f"{type(exc).__name__}: {exc}")
        if exc is not None:
            return
        n1 = w.nodes.get(P)
        ctx.observe("content", None if n1 is None else n1.content)
        if n0 is None and not present:
            ctx.check("C19.notcreated", n1 is None, "a file was created although no line was to be added")
        else:
            ctx.check("C19.there", n1 is not None and n1.kind == "file", "no file")
            old = n0.content if n0 is not None else b""
            if not differs:
                ctx.check("C19.same", ctx.same(n1.content, old), "the content changed although nothing was to be done")
            elif present:
                new = ln.encode("utf-8", "surrogateescape") + b"\n"
                ok = ctx.same(n1.content, old + b"\n" + new) if len(old) and not old.endswith(b"\n") else ctx.same(n1.content, old + new)
                if len(old) and not old.endswith(b"\n"):
                    t = old.decode("utf-8", "surrogateescape")
                    if t.endswith(("\r", "\x0c")):
                        ok = ctx.any(ok, ctx.same(n1.content, old + new))
                ctx.check("C19.added", ok, lambda: f"not the old content with the line appended")
            else:
                want = "".join(l for l, m in ref if not m).encode("utf-8", "surrogateescape")
                ctx.check("C19.removed", ctx.same(n1.content, want), "not exactly the matching lines were removed")
            if n0 is None:
                ctx.check("C19.attributes", n1.perm == 0o600 and n1.uid == 0 and n1.gid == 0, "wrong attributes of the new file")
            else:
                ctx.check("C19.kept", ctx.all(n1.uid == n0.uid, n1.gid == n0.gid, n1.perm == n0.perm), "the attributes of the file changed")
        saved = []
        if backup and differs and n0 is not None:
            saved = [p for p in w.nodes if p not in before]
            if b is True:
                good = len(saved) == 1 and re.fullmatch(re.escape(P) + r"\.\d{4}-\d\d-\d\dT\d\d:?\d\d:?\d\d(Z|\+00:?00)\.bak", saved[0]) is not None
            else:
                good = saved == [{"p.orig": "/w/p.orig", "../bak": "/bak"}[b]]
            ctx.check("C19.backupname", good, lambda: f"backup stored as {saved}")
            s = w.nodes[saved[0]]
            ctx.check("C19.backup", ctx.all(s.kind == "file", ctx.same(s.content, n0.content)), "the backup does not hold the previous content")
        ctx.check("C19.others", unchanged_except(ctx, before, w, [P] + saved), lambda: f"other paths changed: {w.log}")
        ctx.check("C17.changed", res.changed == differs, lambda: f"changed={res.changed}")
        if ctx.prop == "C17":
            ctx.check("C17.needless", differs or len(w.log) == 0, lambda: f"already in the requested state but changed {w.log}")
            after = snapshot(w)
            env.clear()
            exc2, res2 = call(env, files.line, k)
            ctx.check("C17.again", exc2 is None and res2.success and not res2.changed, lambda: f"second run: {exc2}, {res2}")
            ctx.check("C17.idle", len(w.log) == 0 and unchanged_except(ctx, after, w), lambda: f"second run changed {w.log}")

def jobs(prop, tier):
    J = []
    def j(fn, **p):
        J.append({"name": fn + "-" + "-".join(f"{v}" for v in p.values()), "fn": fn, "params": p})
    big = tier == "thorough"
    if prop in ("C14", "C17", "C19"):
        size = (3 if prop == "C19" else 2) + big
        for present in (True, False):
            for match in ("ignore", "exact", "regex"):
                j("line", kind="file", present=present, match=match, backup=False, size=size)
                j("line", kind="missing", present=present, match=match, backup=False, size=0)
            j("line", kind="file", present=present, match="exact", backup=True, size=2)
    if prop == "C18":
        for kind in KINDS:
            if kind not in ("missing", "file"):
                j("line", kind=kind, present=True, match="exact")
                j("line", kind=kind, present=False, match="exact")
    return J
