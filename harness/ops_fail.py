"""C13: no operation hides a failure, whichever of its remote actions fails."""
import fora
from fora.operations import files, system, systemd, pacman, apt, portage, git
from fora.operations.api import Operation, OperationError, OperationResult, operation
from harness import opsenv
from harness.opsenv import Env, Node, world, positional
from harness.ops import failed
from harness.ops_sys import account_world, R, URL, REFS
from model.world import Group

LOCAL = {"/local": Node("dir", 0o755), "/local/p": Node("file", 0o644, 0, 0, b"x {{ host.name }}"), "/local/d": Node("dir", 0o755), "/local/d/f": Node("file", 0o644, 0, 0, b"f"), "/local/d/s": Node("dir", 0o755)}

def base(*nodes):
    def f(ctx):
        w = world()
        for p, n in nodes: w.nodes[p] = n.copy()
        return w
    return f
FILE, DIR, LINK = Node("file", 0o640, 7, 0, b"old\nx\n"), Node("dir", 0o755, 7, 0), Node("link", 0o777, 7, 0, target="/nowhere")
def pk(have, cmd):
    def f(ctx):
        w = world()
        w.program.available = {"bash", cmd}
        w.program.confirm = True
        w.program.packages = {"a": have, "b": have}
        return w
    return f
def unit(active, enabled):
    def f(ctx):
        w = world()
        w.program.units["s"] = {"active": active, "enabled": enabled}
        w.program.user_units["s"] = {"active": active, "enabled": enabled}
        return w
    return f
def clone(there):
    def f(ctx):
        w = world()
        w.nodes["/srv"] = Node("dir", 0o755)
        w.program.remotes = {URL: list(REFS)}
        if there:
            w.nodes[R] = Node("dir", 0o755)
            w.nodes[R + "/.git"] = Node("dir", 0o755)
            w.program.git[R] = {"url": URL, "commit": "c0", "branch": None}
        return w
    return f
def acct(exists): return lambda ctx: account_world(ctx, exists, "none")[0]
def grp(exists):
    def f(ctx):
        w = world()
        if exists: w.groups.append(Group("x", 50))
        return w
    return f

USER = dict(user="x", uid=1005, group="wheel", groups=["video"], password_hash="$6$n", home="/h", shell="/s", comment="c")
ACTING = {
    "dir-new": (files.directory, base(), dict(path="/w/p", owner="u")),
    "dir-mod": (files.directory, base(("/w/p", DIR)), dict(path="/w/p", mode="2700", group="g", touch=True)),
    "dir-del": (files.directory, base(("/w/p", DIR)), dict(path="/w/p", present=False)),
    "file-new": (files.file, base(), dict(path="/w/p", owner="u")),
    "file-mod": (files.file, base(("/w/p", FILE)), dict(path="/w/p", mode="4700", group="g", touch=True)),
    "file-del": (files.file, base(("/w/p", FILE)), dict(path="/w/p", present=False)),
    "link-new": (files.link, base(), dict(path="/w/p", target="/t", owner="u")),
    "link-mod": (files.link, base(("/w/p", LINK)), dict(path="/w/p", target="/t", group="g", touch=True)),
    "link-own": (files.link, base(("/w/p", LINK)), dict(path="/w/p", target="/nowhere", group="g")),
    "link-del": (files.link, base(("/w/p", LINK)), dict(path="/w/p", target="/t", present=False)),
    "content-new": (files.upload_content, base(), dict(content=b"new", dest="/w/p", owner="u", mode="644")),
    "content-mod": (files.upload_content, base(("/w/p", FILE)), dict(content=b"new", dest="/w/p")),
    "content-own": (files.upload_content, base(("/w/p", FILE)), dict(content=b"old\nx\n", dest="/w/p", mode="600")),
    "upload": (files.upload, base(), dict(src="/local/p", dest="/w/p")),
    "upload_dir": (files.upload_dir, base(), dict(src="/local/d", dest="/w/p")),
    "template": (files.template, base(), dict(src="/local/p", dest="/w/p")),
    "template_content": (files.template_content, base(), dict(content="{{ host.name }}", dest="/w/p")),
    "line-new": (files.line, base(), dict(path="/w/p", line="y")),
    "line-add": (files.line, base(("/w/p", FILE)), dict(path="/w/p", line="y", backup=True)),
    "line-del": (files.line, base(("/w/p", FILE)), dict(path="/w/p", line="x", present=False, backup="bak")),
    "user-new": (system.user, acct(False), dict(USER)),
    "user-mod": (system.user, acct(True), dict(USER)),
    "user-del": (system.user, acct(True), dict(user="x", present=False)),
    "group-new": (system.group, grp(False), dict(group="x", gid=51)),
    "group-mod": (system.group, grp(True), dict(group="x", gid=51)),
    "group-del": (system.group, grp(True), dict(group="x", present=False)),
    "pacman-in": (pacman.package, pk(False, "pacman"), dict(packages=["a", "b"])),
    "pacman-rm": (pacman.package, pk(True, "pacman"), dict(packages=["a", "b"], present=False)),
    "apt-in": (apt.package, pk(False, "apt-get"), dict(packages=["a", "b"])),
    "apt-rm": (apt.package, pk(True, "apt-get"), dict(packages=["a", "b"], present=False)),
    "portage-in": (portage.package, pk(False, "emerge"), dict(packages=["a", "b"])),
    "portage-rm": (portage.package, pk(True, "emerge"), dict(packages=["a", "b"], present=False)),
    "package": (system.package, pk(False, "apt-get"), dict(packages=["a"])),
    "service-up": (systemd.service, unit("inactive", "disabled"), dict(service="s", state="started", enabled=True)),
    "service-down": (systemd.service, unit("active", "enabled"), dict(service="s", state="stopped", enabled=False, user_mode=True)),
    "service-re": (system.service, unit("active", "enabled"), dict(service="s", state="restarted")),
    "service-rl": (system.service, unit("active", "enabled"), dict(service="s", state="reloaded")),
    "daemon_reload": (systemd.daemon_reload, unit("active", "enabled"), dict()),
    "git-clone-deep": (git.repo, clone(False), dict(url=URL, path=R, depth=1, branch_or_tag="main", update_submodules=True, recursive_submodules=True)),
    "git-pull-merge": (git.repo, clone(True), dict(url=URL, path=R, rebase=False, ff_only=False)),
    "git-pull-ff": (git.repo, clone(True), dict(url=URL, path=R, rebase=False, ff_only=True, update_submodules=True, recursive_submodules=True)),
    "git-pull-rebase": (git.repo, clone(True), dict(url=URL, path=R, rebase=True, ff_only=False)),
    "daemon_reload-user": (systemd.daemon_reload, unit("active", "enabled"), dict(user_mode=True)),
    "service-off": (systemd.service, unit("active", "enabled"), dict(service="s", enabled=False)),
    "service-stop": (systemd.service, unit("active", "disabled"), dict(service="s", state="stopped")),
    "portage-one": (portage.package, pk(False, "emerge"), dict(packages=["a"], oneshot=True, opts=["--quiet"])),
    "user-min": (system.user, acct(False), dict(user="x", system=True)),
    "user-append": (system.user, acct(True), dict(user="x", groups=["video"], append_groups=True)),
    "line-regex": (files.line, base(("/w/p", FILE)), dict(path="/w/p", line="x", regex="o.d", present=False)),
    "git-clone": (git.repo, clone(False), dict(url=URL, path=R, update_submodules=True)),
    "git-pull": (git.repo, clone(True), dict(url=URL, path=R, update_submodules=True)),
}

def tolerated(argv):
    """Queries whose non-zero status is an answer."""
    return argv[0] in ("dpkg-query", "dpkg") or (argv[0] == "pacman" and any(a.startswith("-Q") or a == "--query" for a in argv))

def calling(ctx, fn, k, few=False):
    how = ctx.choice("how", ["plain", "by position unchecked"] if few else ["plain", "unchecked", "by position", "by position unchecked"])
    check = "unchecked" not in how
    if how == "plain": return check, (), dict(k)
    if how == "unchecked": return check, (), dict(k, check=False, name="n")
    return check, positional(fn, dict(k, check=check, name="n")), {}

def action(ctx, op):
    """One of the remote actions of the operation fails."""
    fn, mk, k = ACTING[op]
    w = mk(ctx)
    check, a, kw = calling(ctx, fn, k, ctx.tier == "quick")
    limit = 100 if op == "upload_dir" else 60
    diff = ctx.decide(ctx.bool("diff")) if op in ("content-mod", "line-add", "template") else False
    at = ctx.int("at", 0, limit)
    rc = ctx.int("rc", 1, 255)
    n, hit = [0], []
    def here(what):
        n[0] += 1
        if not hit and ctx.decide(at == n[0]):
            hit.append(what)
            return True
        return False
    def fault(name):
        if here(name): raise OSError(ctx.choice("errno", [5, 13]), "injected")
    def fail_on(argv):
        if not tolerated(argv) and here(argv): return (rc if ctx.choice("signal", [False, True]) is False else -9), b"injected failure"
    with Env(ctx, w, diff=diff, local={p: x.copy() for p, x in LOCAL.items()}) as env:
        w.fault, w.program.fail_on = fault, fail_on
        exc, res = env.run(fn, *a, **kw)
        w.fault = w.program.fail_on = None
        ctx.observe("hit", bool(hit))
        ctx.observe("exc", type(exc).__name__)
        ctx.check("C13.covered", n[0] <= limit, lambda: f"{n[0]} actions")
        if not hit:
            ctx.check("C13.works", exc is None and res.success, lambda: f"{type(exc).__name__}: {exc}")
            return
        outcome(ctx, exc, res, check, lambda: f"{hit[0]} failed")
        if exc is None:
            ctx.check("C13.changed", not (res.success), "success")

def outcome(ctx, exc, res, check, what):
    if check:
        ctx.check("C13.raises", exc is not None, lambda: f"{what()} but nothing was raised: {res}")
    elif exc is None:
        ctx.check("C13.marked", isinstance(res, OperationResult) and not res.success, lambda: f"{what()} but success was reported")
        ctx.check("C13.message", isinstance(res.failure_message, str) and len(res.failure_message) > 0, lambda: f"{what()} without a message")

REFUSED = {
    "dir": (files.directory, base(("/w/p", FILE)), dict(path="/w/p"), True),
    "file": (files.file, base(("/w/p", DIR)), dict(path="/w/p"), True),
    "link": (files.link, base(("/w/p", FILE)), dict(path="/w/p", target="/t"), True),
    "content": (files.upload_content, base(("/w/p", DIR)), dict(content=b"x", dest="/w/p"), True),
    "upload": (files.upload, base(("/w/p", LINK)), dict(src="/local/p", dest="/w/p"), True),
    "upload_dir": (files.upload_dir, base(("/w/p", FILE)), dict(src="/local/d", dest="/w/p"), True),
    "upload_dir-inner": (files.upload_dir, base(("/w/p", DIR), ("/w/p/f", DIR)), dict(src="/local/d", dest="/w/p"), True),
    "upload_dir-sub": (files.upload_dir, base(("/w/p", DIR), ("/w/p/s", FILE)), dict(src="/local/d", dest="/w/p"), True),
    "template": (files.template, base(("/w/p", DIR)), dict(src="/local/p", dest="/w/p"), True),
    "line": (files.line, base(("/w/p", DIR)), dict(path="/w/p", line="x"), True),
    "git": (git.repo, base(("/srv", DIR), (R, FILE)), dict(url=URL, path=R), True),
    "upload-missing": (files.upload, base(), dict(src="/local/none", dest="/w/p"), False),
    "template-undefined": (files.template_content, base(), dict(content="{{ nothing }}", dest="/w/p"), False),
    "bad-owner": (files.file, base(), dict(path="/w/p", owner="nobody-here"), False),
    "bad-mode": (files.file, base(), dict(path="/w/p", mode="9"), False),
    "bad-state": (systemd.service, base(), dict(service="s", state="x"), False),
    "no-parent": (files.directory, base(), dict(path="/none/p"), False),
    "no-group": (system.user, base(), dict(user="x", group="nope"), False),
    "no-package-manager": (system.package, pk(False, "nothing"), dict(packages=["a"]), False),
    "no-service-manager": (system.service, pk(False, "nothing"), dict(service="s"), False),
}
def refused(ctx, op):
    """The operation cannot be carried out."""
    fn, mk, k, operational = REFUSED[op]
    w = mk(ctx)
    check, a, kw = calling(ctx, fn, k)
    with Env(ctx, w, local={p: x.copy() for p, x in LOCAL.items()}, dry=ctx.choice("dry", [False, True]) if operational else False) as env:
        exc, res = env.run(fn, *a, **kw)
        ctx.observe("exc", type(exc).__name__)
        outcome(ctx, exc, res, check, lambda: op)
        if operational and not check:
            ctx.check("C13.unchecked", exc is None, lambda: f"raised although checking is disabled: {exc!r}")

class Other(Exception): pass

def custom(ctx, nested):
    """An operation of the user's own (the documented api), ending in every way."""
    w = base(("/w/p", FILE))(ctx)
    how = ctx.choice("ending", ["success", "failure", "operation error", "value error", "other error", "command", "nothing", "nested failure", "nested unchecked"])
    message = "m" + ctx.str("message", 1, chars=[(0x61, 0x7a)])
    @operation("own")
    def own(a, name=None, check=True, op=Operation.internal_use_only):
        op.nested(nested)
        op.desc("d")
        if not nested:
            op.initial_state(x=1)
            op.final_state(x=2)
        if how == "failure": return op.failure(message)
        if how == "operation error": raise OperationError(message)
        if how == "value error": raise ValueError(message)
        if how == "other error": raise Other(message)
        if how == "command": fora.host.connection.run(["false"])
        if how == "nested failure": files.directory(path="/w/p")
        if how == "nested unchecked":
            r = files.directory(path="/w/p", check=False)
            return op.failure(r.failure_message)
        if how == "nothing": return None
        if nested: op.add_nested_result("k", files.file(path="/w/p"))
        return op.success()
    check, a, kw = calling(ctx, own, dict(a=1))
    with Env(ctx, w, dry=ctx.choice("dry", [False, True])) as env:
        exc, res = env.run(own, *a, **kw)
        ctx.observe("exc", type(exc).__name__)
        if how == "success":
            ctx.check("C13.works", exc is None and res.success, lambda: f"{exc!r}")
            return
        outcome(ctx, exc, res, check, lambda: how)
        if how == "failure" or how == "operation error":
            if check: ctx.check("C13.message", isinstance(exc, OperationError) and message in str(exc), lambda: f"{exc!r}")
            else: ctx.check("C13.message", exc is None and res.failure_message == message, lambda: f"{exc!r}")
        if how == "other error": ctx.check("C13.raises", isinstance(exc, Other), lambda: f"{exc!r}")

def jobs(prop, tier):
    J = []
    if prop == "C13":
        for n in (False, True): J.append({"name": f"custom-{n}", "fn": "custom", "params": {"nested": n}})
        for op in ACTING: J.append({"name": "action-" + op, "fn": "action", "params": {"op": op}})
        for op in REFUSED: J.append({"name": "refused-" + op, "fn": "refused", "params": {"op": op}})
    return J
