"""C20-C23 (and their part of C14, C17): accounts, packages, services, repositories."""
import fora
from fora.operations import system, systemd, pacman, apt, portage, git
from harness import opsenv
from harness.opsenv import Env, Node, world, twin, User, Group
from harness.ops import compare, failed
from model.commands import dup

class Full:
    """The complete state of a machine."""
    def __init__(self, w):
        p = w.program
        self.nodes = opsenv.snapshot(w)
        self.users = [u.copy() for u in w.users]
        self.groups = [g.copy() for g in w.groups]
        self.rest = dup({"packages": p.packages, "units": p.units, "user_units": p.user_units, "git": p.git})

def same_user(ctx, a, b):
    return ctx.all(*[ctx.same(getattr(a, f), getattr(b, f)) for f in ("name", "uid", "gid", "gecos", "home", "shell", "pw_hash")])
def same_group(ctx, a, b):
    return ctx.all(ctx.same(a.name, b.name), ctx.same(a.gid, b.gid), ctx.same(list(a.members), list(b.members)))
def same_dict(ctx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b for k in a) and ctx.all(*[same_dict(ctx, a[k], b[k]) for k in a])
    return ctx.same(a, b)
def same_full(ctx, f, w, users=True, nodes=True, rest=True):
    p = w.program
    r = {"packages": p.packages, "units": p.units, "user_units": p.user_units, "git": p.git}
    cs = []
    if nodes: cs.append(opsenv.unchanged_except(ctx, f.nodes, w))
    if users:
        cs += [len(f.users) == len(w.users), len(f.groups) == len(w.groups)]
        cs += [same_user(ctx, a, b) for a, b in zip(f.users, w.users)] + [same_group(ctx, a, b) for a, b in zip(f.groups, w.groups)]
    if rest: cs += [same_dict(ctx, f.rest[k], r[k]) for k in r]
    return ctx.all(*cs)

def drive(ctx, w, fn, k, differs, verify, repeat=True, local=None, env=None):
    """Dry run, real run and repetition of one call."""
    before = Full(w)
    ctx.observe("differs", differs)
    more = env or {}
    dry = None
    if ctx.prop in (None, "C14"):
        d = twin(w)
        with Env(ctx, d, dry=True, local=local, **more) as e:
            dry = e.run(fn, **k)
            ctx.check("C14.nochange", len(d.log) == 0 and same_full(ctx, before, d), lambda: f"a dry run changed {d.log}")
    with Env(ctx, w, local=local, **more) as e:
        exc, res = e.run(fn, **k)
        ctx.observe("exc", type(exc).__name__)
        ctx.observe("result", None if res is None else [res.success, res.changed])
        if dry is not None:
            compare(ctx, dry, (exc, res))
        verify(exc, res, before)
        if failed(exc, res) or differs is None:
            return
        ctx.check("C17.changed", ctx.iff(res.changed, differs), lambda: f"changed={res.changed}")
        if ctx.prop in (None, "C17") and repeat:
            ctx.check("C17.needless", ctx.any(differs, len(w.log) == 0), lambda: f"already in the requested state but changed {w.log}")
            after = Full(w)
            e.clear()
            exc2, res2 = e.run(fn, **k)
            ctx.check("C17.again", exc2 is None and res2.success and not res2.changed, lambda: f"second run: {exc2}, {res2}")
            ctx.check("C17.idle", len(w.log) == 0 and same_full(ctx, after, w), lambda: f"second run changed {w.log}")

# ---------------------------------------------------------------- users

SUPP = ("wheel", "video", "audio")
FIELDS = {"uid": ("uid", 1005), "group": ("gid", "wheel"), "password_hash": ("pw_hash", "$6$n"), "home": ("home", "/home/n"), "shell": ("shell", "/bin/zsh"), "comment": ("gecos", "New")}
TEXT = [(0x20, 0x7e)]

def account_world(ctx, exists, field):
    w = world()
    w.groups += [Group("wheel", 10, ["xx"]), Group("video", 11), Group("audio", 12, ["xx", "u"])]
    w.groups.append(Group("five", 5))
    w.users.append(User("xx", 1002, 8, "Other", "/home/xx", "/bin/sh", "$6$o"))
    t = None
    if exists:
        s = lambda f, d: ctx.str("cur." + f, 1, 0, [(0x20, 0x39), (0x3b, 0x7e)]) if field == f else d
        t = User("x", 1003, 5, s("comment", "Old"), s("home", "/home/x"), s("shell", "/bin/bash"), s("password_hash", "$6$x"))
        if field == "noshadow": t.pw_hash = None
        w.users.append(t)
        sub = ctx.choice("member", [(), ("wheel",), ("video", "audio"), SUPP] if field == "groups" else [(), ("video",)])
        for g in w.groups:
            if g.name in sub: g.members.append("x")
    return w, t

def user(ctx, field, exists, present=True):
    w, cur = account_world(ctx, exists, field)
    before = {u.name: u.copy() for u in w.users}
    members = [g.name for g in w.groups if "x" in g.members]
    k = {"user": "x"}
    if not present: k["present"] = False
    given = {}
    if field in FIELDS:
        if field == "uid": given["uid"] = ctx.int("uid", 0, 2**32 - 2)
        elif field == "group": given["group"] = ctx.choice("group", ["five", "5", "wheel", "10", "0", "nope", "77"])
        else: given[field] = ctx.str("new", 1, 0, TEXT)
    also = ctx.choice("also", [None] + [f for f in FIELDS if f != field])
    if also is not None: given[also] = FIELDS[also][1]
    if field == "groups":
        g = ctx.choice("groups", [None, [], ["wheel"], ["video", "wheel"], ["audio", "video", "audio"], ["nope"]])
        if g is not None: k["groups"] = g
        k["append_groups"] = ctx.choice("append", [False, True])
    if ctx.decide(ctx.bool("system")): k["system"] = True
    k.update(given)
    if field == "groups" and k.get("groups") is not None:
        want_groups = sorted(set(k["groups"]) | (set(members) if k["append_groups"] else set()))
    else:
        want_groups = sorted(members)
    gids = {g.name: g.gid for g in w.groups}
    def gid_of(x): return gids.get(x, int(x) if x.isdigit() and int(x) in gids.values() else None)
    must_fail = present and (("group" in given and gid_of(given["group"]) is None) or "nope" in want_groups)
    clash = present and "uid" in given and any(u.uid == given["uid"] for u in w.users if u is not cur)
    bad = [ctx.any(*[c == ":" for c in given[f]]) for f in ("home", "shell", "comment") if f in given]
    invalid = ctx.any(must_fail, clash, *bad) if present else False
    if not present:
        differs = exists
    elif not exists:
        differs = True
    else:
        differs = ctx.any(want_groups != sorted(members), *[ctx.no(ctx.same(getattr(cur, FIELDS[f][0]), given[f] if f != "group" else gid_of(given[f]))) for f in given])
    def verify(exc, res, full):
        if failed(exc, res):
            if present and exists is False or not present:
                ctx.check("C20.unchanged", ctx.any(len(w.log) > 0, same_full(ctx, full, w)), "changed without a logged action")
            ctx.check("C20.works", invalid, lambda: f"{type(exc).__name__}: {exc}")
            return
        if present: ctx.check("C20.reported", ctx.no(ctx.all(invalid, differs)), "success with an impossible request")
        now = [u for u in w.users if u.name == "x"]
        others = [u for u in w.users if u.name != "x"]
        ctx.check("C20.others", len(others) == len(before) - (1 if exists else 0) and ctx.all(*[same_user(ctx, u, before[u.name]) for u in others]), "another account changed")
        gs = [g for g in w.groups if g.name != "x" or exists]
        ctx.check("C20.groups", len(gs) == len(full.groups) and ctx.all(*[ctx.all(a.name == b.name, a.gid == b.gid, [m for m in a.members if m != "x"] == [m for m in b.members if m != "x"]) for a, b in zip(gs, full.groups)]), "groups changed")
        if not present:
            ctx.check("C20.gone", not now, "still there")
            return
        ctx.check("C20.exists", len(now) == 1, "missing")
        n = now[0]
        for f, (attr, _) in FIELDS.items():
            v = getattr(n, attr)
            if f == "group":
                if f in given: ctx.check("C20.given", v == gid_of(given[f]), lambda: f"{f} is {v!r}")
                elif exists: ctx.check("C20.kept", v == cur0["gid"], lambda: f"{f} is {v!r}")
                else: ctx.check("C20.default", any(g.name == "x" and g.gid == v for g in w.groups), "no primary group of its own")
            elif f in given: ctx.check("C20.given", ctx.same(v, given[f]), lambda: f"{f} is {v!r}")
            elif exists: ctx.check("C20.kept", ctx.same(v, cur0[attr]), lambda: f"{f} is {v!r}")
            elif f != "uid": ctx.check("C20.default", ctx.same(v, {"pw_hash": "!", "home": "/dev/null", "shell": "/sbin/nologin", "gecos": ""}[attr]), lambda: f"{f} is {v!r}")
        if not exists and "uid" not in given: ctx.check("C20.default", n.uid == (900 if k.get("system") else 1900), "system flag ignored")
        ctx.check("C20.membership", sorted(g.name for g in w.groups if "x" in g.members) == want_groups, lambda: f"member of {[g.name for g in w.groups if 'x' in g.members]}")
    cur0 = {a: getattr(cur, a) for a, _ in FIELDS.values()} if exists else None
    drive(ctx, w, system.user, k, differs, verify)

def group(ctx, exists, present=True):
    w = world()
    w.groups += [Group("gx", 20, ["u"]), Group("xx", 21)]
    cur = None
    if exists:
        cur = ctx.int("gid", 30, 2**32 - 2)
        w.groups.append(Group("x", cur, ["u"]))
    k = {"group": "x", "present": present}
    gid = ctx.int("new", 0, 2**32 - 2) if ctx.decide(ctx.bool("given")) else None
    if gid is not None: k["gid"] = gid
    if ctx.decide(ctx.bool("system")): k["system"] = True
    clash = present and gid is not None and ctx.any(*[gid == g.gid for g in w.groups if g.name != "x"])
    differs = exists if not present else True if not exists else False if gid is None else gid != cur
    def verify(exc, res, full):
        if failed(exc, res):
            ctx.check("C20.works", clash, lambda: f"{type(exc).__name__}: {exc}")
            return
        others = [g for g in w.groups if g.name != "x"]
        ctx.check("C20.groups", len(others) == len(full.groups) - (1 if exists else 0) and ctx.all(*[same_group(ctx, a, b) for a, b in zip(others, full.groups)]), "another group changed")
        now = [g for g in w.groups if g.name == "x"]
        if not present:
            ctx.check("C20.gone", not now, "still there")
            return
        ctx.check("C20.exists", len(now) == 1, "missing")
        if gid is not None: ctx.check("C20.given", now[0].gid == gid, lambda: f"gid {now[0].gid}")
        elif exists: ctx.check("C20.kept", now[0].gid == cur, lambda: f"gid {now[0].gid}")
        else: ctx.check("C20.default", now[0].gid == (901 if k.get("system") else 1902), "system flag ignored")
        if exists: ctx.check("C20.kept", now[0].members == ["u"], "members changed")
    drive(ctx, w, system.group, k, differs, verify)

# ---------------------------------------------------------------- packages

MANAGERS = {"pacman": (pacman, "pacman"), "apt": (apt, "apt-get"), "portage": (portage, "emerge")}
def package(ctx, manager, present, via, size):
    w = world()
    p = w.program
    mod, cmd = MANAGERS[manager]
    p.available = {"bash", cmd}
    p.confirm = True
    p.packages = {n: ctx.choice("have." + n, [True, False]) for n in ("a", "b", "ab")}
    p.packages["other"] = True
    p.packages["unused"] = False
    if manager == "apt":
        p.dpkg_state = {n: ctx.choice("state." + n, [None, b"deinstall ok config-files", b"install ok half-installed"]) for n in ("a",)}
    names = [ctx.choice(f"name{i}", ["a", "b", "ab"] + (["nope"] if i == 0 else [])) for i in range(size)]
    k = {"packages": list(names), "present": present}
    opts = []
    if via == "direct":
        fn = mod.package
        opts = ctx.choice("opts", [None, [], ["--foo", "-q"]])
        if opts is not None: k["opts"] = list(opts)
        opts = list(opts or [])
        if manager == "portage" and ctx.decide(ctx.bool("oneshot")):
            k["oneshot"] = True
            if present: opts = ["--oneshot"] + opts
    else:
        fn = system.package
    have = dict(p.packages)
    need = sorted(n for n in set(names) if have.get(n, False) != present)
    unknown = "nope" in names
    def verify(exc, res, full):
        if failed(exc, res):
            ctx.check("C21.works", unknown, lambda: f"{type(exc).__name__}: {exc}")
            return
        ctx.check("C21.missing", not (unknown and present), "an unknown package was reported as installed")
        ctx.check("C21.state", all(p.packages[n] == present for n in names if n in p.packages), lambda: f"{p.packages}")
        ctx.check("C21.others", all(p.packages[n] == have[n] for n in have if n not in names), lambda: f"{p.packages}")
        ctx.check("C21.needed", sorted(x[1] for x in p.pkg_log) == need, lambda: f"{p.pkg_log}")
        ctx.check("C21.options", all(sorted(x[2]) == sorted(opts) for x in p.pkg_log), lambda: f"{p.pkg_log}")
        ctx.check("C21.machine", same_full(ctx, full, w, rest=False), "something else changed")
    drive(ctx, w, fn, k, None if unknown else bool(need), verify)

# ---------------------------------------------------------------- services

STARTED = ("active", "activating", "reloading")
def service(ctx, via, state):
    w = world()
    p = w.program
    user_mode = via == "user"
    unit = None
    kind = ctx.choice("unit", ["known", "unknown"])
    if kind == "known":
        unit = {"active": ctx.choice("active", ["active", "inactive", "failed", "activating", "deactivating", "reloading"]), "enabled": ctx.choice("file", ["enabled", "disabled", "masked", ""])}
        (p.user_units if user_mode else p.units)["s"] = dict(unit)
    # the other instance has a unit of the same name in another state
    (p.units if user_mode else p.user_units)["s"] = {"active": ctx.choice("twin", ["active", "inactive"]), "enabled": ctx.choice("twinfile", ["enabled", "disabled"])}
    for u in (p.units, p.user_units): u["s2"] = {"active": "inactive", "enabled": "disabled"}
    k = {"service": "s"}
    if state is not None: k["state"] = state
    enabled = ctx.choice("enabled", [None, True, False])
    if enabled is not None: k["enabled"] = enabled
    if via == "user": k["user_mode"] = True
    elif via == "default" : pass
    fn = system.service if via == "system" else systemd.service
    started = unit is not None and unit["active"] in STARTED
    on = unit is not None and unit["enabled"] == "enabled"
    acts = []
    if state == "started" and not started: acts.append("start")
    if state == "stopped" and started: acts.append("stop")
    if state == "restarted": acts.append("restart")
    if state == "reloaded": acts.append("reload")
    if enabled is True and not on: acts.append("enable")
    if enabled is False and on: acts.append("disable")
    cannot = (acts and unit is None) or ("reload" in acts and not started) or ("enable" in acts and unit is not None and unit["enabled"] == "masked")
    def verify(exc, res, full):
        if failed(exc, res):
            ctx.check("C22.works", cannot, lambda: f"{type(exc).__name__}: {exc}")
            ctx.check("C22.needed", all(x in [(user_mode, a, "s") for a in acts] for x in p.unit_log), lambda: f"{p.unit_log}")
            return
        ctx.check("C22.reported", not cannot, "success although an action is impossible")
        ctx.check("C22.needed", sorted(p.unit_log) == sorted((user_mode, a, "s") for a in acts), lambda: f"{p.unit_log}")
        mine, theirs = (p.user_units, p.units) if user_mode else (p.units, p.user_units)
        n = mine.get("s")
        if n is not None:
            if state == "started" or state == "restarted": ctx.check("C22.state", n["active"] in STARTED, lambda: f"{n}")
            elif state == "stopped": ctx.check("C22.state", n["active"] not in STARTED, lambda: f"{n}")
            else: ctx.check("C22.alone", n["active"] == unit["active"], lambda: f"{n}")
            if enabled is not None: ctx.check("C22.enabled", (n["enabled"] == "enabled") == enabled, lambda: f"{n}")
            else: ctx.check("C22.alone", n["enabled"] == unit["enabled"], lambda: f"{n}")
        a, b = ("units", theirs) if user_mode else ("user_units", theirs)
        ctx.check("C22.instance", full.rest[a] == b and mine["s2"] == {"active": "inactive", "enabled": "disabled"}, "another unit changed")
        ctx.check("C22.machine", same_full(ctx, full, w, rest=False), "something else changed")
    drive(ctx, w, fn, k, bool(acts), verify, repeat=state not in ("restarted", "reloaded"))

def bad_state(ctx, via):
    w = world()
    p = w.program
    p.units["s"] = {"active": "active", "enabled": "enabled"}
    state = ctx.str("state", 9, 0, [(0x61, 0x7a)]) if ctx.tier == "thorough" else ctx.str("state", 8, 6, [(0x61, 0x7a)])
    for ok in ("started", "stopped", "restarted", "reloaded"): ctx.assume(state != ok)
    def verify(exc, res, full):
        ctx.check("C22.invalid", failed(exc, res), "an invalid state was accepted")
        ctx.check("C22.untouched", len(p.unit_log) == 0 and len(w.log) == 0, lambda: f"{p.unit_log}")
    drive(ctx, w, system.service if via == "system" else systemd.service, {"service": "s", "state": state, "enabled": ctx.choice("enabled", [None, False])}, None, verify)

def daemon_reload(ctx):
    w = world()
    p = w.program
    um = ctx.choice("user", [None, False, True])
    k = {} if um is None else {"user_mode": um}
    def verify(exc, res, full):
        ctx.check("C22.works", not failed(exc, res), lambda: f"{exc}")
        ctx.check("C22.needed", p.unit_log == [(bool(um), "daemon-reload", None)], lambda: f"{p.unit_log}")
    drive(ctx, w, systemd.daemon_reload, k, True, verify, repeat=False)

# ---------------------------------------------------------------- repositories

R = "/srv/r"
URL = "https://h/r.git"
REFS = [("HEAD", "c1"), ("refs/heads/main", "c1"), ("refs/heads/x/dev", "c9"), ("refs/heads/dev", "c2"), ("refs/tags/v1", "t1"), ("refs/tags/v1^{}", "c3"), ("refs/tags/light", "c4"), ("refs/heads/both", "c5"), ("refs/tags/both", "c6")]
def repo(ctx, kind, focus):
    w = world()
    p = w.program
    w.nodes["/srv"] = Node("dir", 0o755)
    p.remotes = {URL: list(REFS), "https://h/other": [("HEAD", "c8"), ("refs/heads/main", "c8")]}
    refs = focus == "refs"
    ref = ctx.choice("ref", [None, "main", "dev", "v1", "light", "nope"] if refs else [None, "dev"])
    newest = {None: "c1", "main": "c1", "dev": "c2", "v1": "c3", "light": "c4"}.get(ref)
    cur = origin = None
    if kind == "clone":
        cur = ctx.choice("commit", ["c0", newest or "c0"])
        origin = ctx.choice("origin", [URL, "https://h/other", URL + "/", None] if refs else [URL])
        w.nodes[R] = Node("dir", 0o755)
        w.nodes[R + "/.git"] = Node("dir", 0o755)
        p.git[R] = {"url": origin, "commit": cur, "branch": ref}
    elif kind == "dir":
        w.nodes[R] = Node("dir", 0o755)
        if ctx.decide(ctx.bool("gitfile")): w.nodes[R + "/.git"] = Node("file", 0o644, 0, 0, b"x")
    elif kind == "file":
        w.nodes[R] = ctx.choice("object", [Node("file", 0o644, 0, 0, b"x"), Node("link", 0o777, target="/td")]).copy()
    k = {"url": URL, "path": R}
    if ref is not None: k["branch_or_tag"] = ref
    update = ctx.choice("update", [None, True, False] if refs else [None, False])
    if update is not None: k["update"] = update
    o = {}
    for f, d in (("rebase", True), ("ff_only", False), ("update_submodules", False), ("recursive_submodules", False), ("shallow_submodules", False)):
        o[f] = d
        if not refs and (f.endswith("submodules") or kind == "clone"):
            if ctx.decide(ctx.bool(f)):
                k[f] = o[f] = not d
    depth = ctx.choice("depth", [None, 1, 50] if not refs else [None])
    if depth is not None: k["depth"] = depth
    up = update is not False
    refused = kind in ("dir", "file") or (kind == "clone" and up and origin != URL) or (newest is None and (kind == "missing" or up))
    differs = None if refused else kind == "missing" or (up and cur != newest)
    def verify(exc, res, full):
        if refused:
            ctx.check("C23.refused", failed(exc, res), "accepted")
            ctx.check("C23.untouched", len(w.log) == 0 and same_full(ctx, full, w), lambda: f"{w.log}")
            return
        ctx.check("C23.works", not failed(exc, res), lambda: f"{type(exc).__name__}: {exc}")
        want = []
        d = {} if depth is None else {"depth": str(depth)}
        if kind == "missing":
            v = dict(d)
            if ref is not None: v["branch"] = ref
            want.append(("clone", URL, R, v, []))
        elif differs:
            want.append(("pull", URL, R, d, sorted((["rebase"] if o["rebase"] else []) + (["ff-only"] if o["ff_only"] else []))))
        if want and o["update_submodules"]:
            want.append(("submodule", R, d if o["shallow_submodules"] else {}, sorted(["init"] + (["recursive"] if o["recursive_submodules"] else []))))
        got = [x[:5] if x[0] == "pull" else x for x in p.git_log]
        got = [(x[0], x[1], x[2], {"branch" if a == "b" else a: b for a, b in x[3].items()}, x[4]) if x[0] == "clone" else x for x in got]
        ctx.check("C23.steps", got == want, lambda: f"{got} instead of {want}")
        g = p.git.get(R)
        ctx.check("C23.state", g is not None and g["url"] == (URL if up else origin or URL) if kind == "missing" else g is not None and g["url"] == origin, lambda: f"{g}")
        ctx.check("C23.commit", g["commit"] == (newest if differs else cur), lambda: f"{g}")
        ctx.check("C23.others", opsenv.unchanged_except(ctx, full.nodes, w, [R]), lambda: f"{w.log}")
    drive(ctx, w, git.repo, k, differs, verify)

def jobs(prop, tier):
    J = []
    def j(fn, **p):
        J.append({"name": fn + "-" + "-".join(f"{v}" for v in p.values()), "fn": fn, "params": p})
    both = ("C14", "C17")
    if prop == "C20" or prop in both:
        for f in list(FIELDS) + ["groups", "noshadow"]:
            for exists in (True, False):
                if f == "noshadow" and not exists: continue
                j("user", field=f, exists=exists)
        for exists in (True, False):
            j("user", field="gone", exists=exists, present=False)
            for present in (True, False): j("group", exists=exists, present=present)
    if prop == "C21" or prop in both:
        for m in MANAGERS:
            for present in (True, False):
                for via in ("direct", "system"):
                    j("package", manager=m, present=present, via=via, size=(2 if tier == "quick" else 3))
                if prop == "C21": j("package", manager=m, present=present, via="direct", size=0)
    if prop == "C22" or prop in both:
        for via in ("system", "default", "user"):
            for state in (None, "started", "stopped", "restarted", "reloaded"):
                j("service", via=via, state=state)
        j("daemon_reload")
        if prop == "C22":
            for via in ("system", "default"): j("bad_state", via=via)
    if prop == "C23" or prop in both:
        for kind in ("missing", "clone", "dir", "file"): j("repo", kind=kind, focus="refs")
        for kind in ("missing", "clone"): j("repo", kind=kind, focus="options")
    return J
