"""C04-C09: requests are carried out exactly, by the real connector and the real dispatcher on a model machine."""
import subprocess
from harness.remote import *
from harness import common
from fora.connectors.connector import StatResult

EXPECT = {
    "C04": ["C04.argv", "C04.stdin", "C04.uid", "C04.gid", "C04.groups", "C04.umask", "C04.cwd", "C04.once", "C04.refused"],
    "C05": ["C05.stdout", "C05.stderr", "C05.returncode", "C05.check", "C05.channel"],
    "C06": ["C06.content", "C06.mode", "C06.owner", "C06.group", "C06.refused", "C06.other"],
    "C07": ["C07.type", "C07.mode", "C07.owner", "C07.group", "C07.size", "C07.times", "C07.sha", "C07.missing", "C07.download", "C07.error"],
    "C08": ["C08.name", "C08.data", "C08.unknown", "C08.env"],
}

# ------------------------------------------------------------------ oracles

def is_number(ctx, s):
    """A decimal number without leading zeros (other spellings are left out of the bounds)."""
    return len(s) > 0 and all(ctx.decide(ctx.all(c >= "0", c <= "9")) for c in s)

def account(ctx, s, entries, attr):
    """The entry a name or number denotes: a name takes precedence."""
    for e in entries:
        if ctx.decide(e.name == s):
            return e
    if is_number(ctx, s):
        n = int(s)
        for e in entries:
            if ctx.decide(getattr(e, attr) == n):
                return e
    return None

def plain_number(ctx, s):
    """Assume away spellings of numbers that are neither clearly valid nor clearly invalid."""
    if len(s) > 1 and ctx.decide(s[0] == "0"):
        ctx.assume(any(ctx.decide(ctx.any(c < "0", c > "9")) for c in s))

def octal(ctx, name, maxlen=4):
    """(text, value or None): an octal number or a clearly invalid one."""
    kind = ctx.choice(name + ".kind", ["octal", "bad"])
    if kind == "octal":
        s = ctx.str(name, maxlen, 1, chars=[(0x30, 0x37)])
        v = 0
        for c in s:
            v = v * 8 + (ord(c) - 48)
        return s, v
    s = ctx.str(name, 2, chars=[(0x30, 0x39), (0x61, 0x61), (0x2e, 0x2e)])
    ctx.assume(ctx.no(ctx.all(len(s) > 0, *[ctx.all(c >= "0", c <= "7") for c in s])))
    return s, None

def sym_accounts(ctx, w, full=False):
    """Two users and two groups with symbolic names and ids next to root."""
    w.users = [User("root", 0, 0, home="/root")]
    w.groups = [Group("root", 0)]
    g1 = Group(ctx.str("g1.name", 2, 1, chars=NAME), ctx.int("g1.gid", 1, 2**32 - 2))
    w.groups.append(g1)
    u1 = User(ctx.str("u1.name", 2, 1, chars=NAME), ctx.int("u1.uid", 1, 2**32 - 2), ctx.int("u1.gid", 0, 2**32 - 2))
    w.users.append(u1)
    return u1, g1

def systext(ctx, name, n):
    """Text as Python hands out system strings: undecodable bytes are escaped (two adjacent ones could be a character)."""
    s = ctx.str(name, n, chars=SYSTEXT)
    for a, b in zip(s, s[1:]):
        ctx.assume(ctx.no(ctx.all(a >= "\udc80", a <= "\udcff", b >= "\udc80", b <= "\udcff")))
    return s

# ------------------------------------------------------------------ C04

def run_identity(ctx, who):
    """User, group given or not, by name or number, as root or as an unprivileged dispatcher."""
    w = plain_world()
    w.groups.append(Group("dz", 77, []))
    w.users.append(User("b", ctx.int("b.uid", 1, 2**32 - 2), ctx.int("b.gid", 0, 2**32 - 2)))
    w.users.append(User("12", 13, 14))
    w.groups.append(Group("c", ctx.int("c.gid", 0, 2**32 - 2), []))
    w.groups.append(Group("12", 15, ["b"]))
    root = ctx.choice("root", [True, False])
    w.proc = Proc(0, 0, [0, 77, 9]) if root else Proc(7, 8, [8, 77])
    start = w.proc.fork()
    user = group = None
    if "user" in who:
        user = ctx.str("user", 2, chars=NAME)
        plain_number(ctx, user)
    if "group" in who:
        group = ctx.str("group", 2, chars=NAME)
        plain_number(ctx, group)
    u = account(ctx, user, w.users, "uid") if user is not None else None
    g = account(ctx, group, w.groups, "gid") if group is not None else None
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.run, ["prog"], user=user, group=group)
        bad = (user is not None and u is None) or (group is not None and g is None)
        if bad:
            ctx.check("C04.refused", e is not None and isinstance(e, ValueError), f"unknown user or group accepted ({e!r})")
            ctx.check("C04.refused", len(w.executed) == 0, "a process was started for an invalid request")
            return
        uid = u.uid if u is not None else start.uid
        gid = g.gid if g is not None else u.gid if u is not None else start.gid
        if e is not None:
            # only an unprivileged dispatcher may be unable to do it
            ctx.check("C04.once", ctx.all(not root, ctx.any(uid != 7, gid != 8)), f"valid request failed: {e!r}")
            ctx.check("C04.refused", len(w.executed) == 0, "a process was started although the call failed")
            return
        ctx.check("C04.once", len(w.executed) == 1, "not executed exactly once")
        p = w.executed[0].proc
        ctx.check("C04.uid", ctx.all(p.ruid == uid, p.uid == uid, p.suid == uid), "wrong user id")
        ctx.check("C04.gid", ctx.all(p.rgid == gid, p.gid == gid, p.sgid == gid), "wrong group id")
        ctx.check("C04.umask", p.umask == 0o077, "wrong default umask")
        ctx.check("C04.cwd", p.cwd == "/", "working directory changed")
        if root and u is not None and ctx.decide(uid != 0):
            own = [h.gid for h in w.groups if u.name in h.members] + [gid, u.gid]
            for x in p.groups:
                ctx.check("C04.groups", ctx.any(*[x == y for y in own]), "keeps a supplementary group of the dispatcher")
        ctx.observe("uid", p.uid)
        ctx.observe("gid", p.gid)

def run_command(ctx, what):
    """Arguments and standard input arrive exactly."""
    w = plain_world()
    if what == "argv":
        n = ctx.choice("argc", [1, 2, 3])
        argv = [ctx.str(f"arg{i}", 2 if i == n - 1 else 1, 1 if i == 0 else 0, chars=[(1, 0xd7ff), (0xe000, 0x10ffff)] if i == n - 1 else PRINT) for i in range(n)]
        data = None
    else:
        argv = ["prog", ctx.str("arg", 1, chars=PRINT)]
        k = ctx.choice("form", ["none", "bytes", "blob"])
        data = None if k == "none" else ctx.bytes("stdin", 2) if k == "bytes" else ctx.blob("stdin.long", 2**40)
    cap = ctx.choice("capture", [True, False])
    want = [a for a in argv]
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.run, argv, input=data, capture_output=cap)
        ctx.check("C04.once", e is None, f"valid request failed: {e!r}")
        ctx.check("C04.once", len(w.executed) == 1, "not executed exactly once")
        x = w.executed[0]
        ctx.check("C04.argv", ctx.all(len(x.argv) == len(want), ctx.same(x.argv, [a.encode("utf-8") for a in want])), "argument list altered")
        if data is None:
            ctx.check("C04.stdin", x.stdin[1] is None or x.stdin[1] == b"", "input made up")
        else:
            ctx.check("C04.stdin", x.stdin[0] == subprocess.PIPE and x.stdin[1] is not None, "standard input not passed")
            ctx.check("C04.stdin", x.stdin[1] == data, "standard input altered")
        ctx.check("C04.uid", x.proc.uid == 0 and x.proc.gid == 0)

def run_environment(ctx, what):
    """umask and working directory."""
    w = plain_world()
    w.nodes["/w/d"] = Node("dir", 0o755)
    w.nodes["/w/f"] = Node("file", 0o755)
    w.nodes["/w/ld"] = Node("link", target="/w/d")
    w.nodes["/w/lf"] = Node("link", target="/w/f")
    umask = value = cwd = None
    cwd_ok, resolved = True, "/"
    if what == "umask":
        umask, value = octal(ctx, "umask", 3)
        if value is not None:
            ctx.assume(value <= 0o777)
    else:
        cwd, cwd_ok, resolved = ctx.choice("cwd", [("/w/d", True, "/w/d"), ("/w/f", False, None), ("/w/ld", True, "/w/d"), ("/w/lf", False, None), ("/w/none", False, None), ("", False, None), ("/", True, "/"), ("relative", False, None)])
    user = ctx.choice("user", [None, "u"])
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.run, ["prog"], umask=umask, cwd=cwd, user=user)
        if (umask is not None and value is None) or not cwd_ok:
            ctx.check("C04.refused", e is not None and isinstance(e, ValueError), f"invalid umask or directory accepted ({e!r})")
            ctx.check("C04.refused", len(w.executed) == 0, "a process was started for an invalid request")
            return
        ctx.check("C04.once", e is None and len(w.executed) == 1, f"valid request failed: {e!r}")
        p = w.executed[0].proc
        ctx.check("C04.umask", p.umask == (0o077 if umask is None else value), "wrong umask")
        ctx.check("C04.cwd", p.cwd == resolved, "wrong working directory")
        ctx.observe("umask", p.umask)

def run_race(ctx):
    """The child cannot become the requested user or enter the directory: nothing runs."""
    w = plain_world()
    w.nodes["/w/d"] = Node("dir", 0o755)
    which = ctx.choice("call", ["setresuid", "setresgid", "setgroups", "chdir", "exec", "fork"])
    err = ctx.choice("errno", [1, 11, 12, 13, 2])
    def fault(name):
        if name == which:
            raise OSError(err, "injected")
    w.fault = fault
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.run, ["prog"], user="u", group="g", cwd="/w/d")
        failed = which in w.calls
        if failed:
            ctx.check("C04.refused", e is not None and len(w.executed) == 0, "the command was run without the requested identity or directory")
        else:
            ctx.check("C04.once", e is None and len(w.executed) == 1, f"failed: {e!r}")

# ------------------------------------------------------------------ C05

def results(ctx, form):
    """Output, exit status and the channel."""
    w = plain_world()
    cap = ctx.choice("capture", [True, False])
    check = ctx.choice("check", [True, False])
    if form == "bytes":
        out, err = ctx.bytes("out", 2), ctx.bytes("err", 1)
    else:
        out, err = ctx.blob("out", 2**40), ctx.blob("err", 2**40)
    rc = ctx.int("rc", -64, 255)
    w.program = lambda x: (out, err, rc)
    data = ctx.choice("stdin", [None, b"", b"some"])
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.run, ["prog"], input=data, capture_output=cap, check=check)
        ctx.check("C05.channel", w.channel_reads == 0, "the command can read the channel that carries the requests")
        ctx.check("C05.channel", len(w.channel_writes) == 0, "the command can write into the channel that carries the responses")
        if check:
            if ctx.decide(rc == 0):
                ctx.check("C05.check", e is None, f"success reported as error: {e!r}")
            else:
                ctx.check("C05.check", isinstance(e, subprocess.CalledProcessError), f"non-zero status not reported ({e!r})")
                r = e
        else:
            ctx.check("C05.check", e is None, f"unchecked command raised: {e!r}")
        ctx.check("C05.returncode", r.returncode == rc, "exit status altered")
        ctx.check("C05.stdout", ctx.same(r.stdout, out if cap else None), "standard output altered")
        ctx.check("C05.stderr", ctx.same(r.stderr, err if cap else None), "standard error altered")
        # the connection is still in step
        w.program = lambda x: (b"second", b"", 3)
        r2 = s.connector.run(["again"], check=False)
        ctx.check("C05.channel", r2.stdout == b"second" and r2.returncode == 3, "the next command got another answer")

# ------------------------------------------------------------------ C06

def upload(ctx, dest, what):
    """Content and attributes of uploads."""
    w = plain_world()
    w.users.append(User("b", ctx.int("b.uid", 1, 2**32 - 2), ctx.int("b.gid", 0, 2**32 - 2)))
    w.users.append(User("12", 13, 14))
    w.groups.append(Group("c", ctx.int("c.gid", 0, 2**32 - 2), []))
    w.groups.append(Group("12", 15, ["b"]))
    w.nodes["/w/other"] = Node("file", 0o640, 3, 4, b"other")
    old = None
    path = target = "/w/f"
    if dest == "name":
        path = target = "/w/" + ctx.str("name", 2, 1, chars=[(0x41, 0x5a), (0x80, 0xd7ff), (0xe000, 0x10ffff)])
    elif dest != "missing":
        old = Node("file", ctx.int("old.perm", 0, 0o7777), ctx.int("old.uid", 0, 2**32 - 2), ctx.int("old.gid", 0, 2**32 - 2), ctx.bytes("old.content", 1))
        w.nodes["/w/f"] = old.copy()
        if dest == "link":
            path = "/w/l"
            w.nodes["/w/l"] = Node("link", target="/w/f")
    content = ctx.bytes("content", 2) if what == "bytes" else ctx.blob("content", 2**40) if what == "blob" else b"x"
    mode = mode_v = owner = group = None
    if "mode" in what:
        mode, mode_v = octal(ctx, "mode", 4)
    if "owner" in what:
        owner = ctx.str("owner", 2, chars=NAME)
        plain_number(ctx, owner)
    if "group" in what:
        group = ctx.str("group", 2, chars=NAME)
        plain_number(ctx, group)
    if what == "mode":
        owner = ctx.choice("with-owner", [None, "b", "root"])
        group = ctx.choice("with-group", [None, "c"])
    u = account(ctx, owner, w.users, "uid") if owner is not None else None
    g = account(ctx, group, w.groups, "gid") if group is not None else None
    before = {p: n.copy() for p, n in w.nodes.items()}
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.upload, path, content, mode=mode, owner=owner, group=group)
        if (mode is not None and mode_v is None) or (owner is not None and u is None) or (group is not None and g is None):
            ctx.check("C06.refused", e is not None and isinstance(e, ValueError), f"invalid attribute accepted ({e!r})")
            ctx.check("C06.refused", len(w.log) == 0 and set(w.nodes) == set(before), "the file system was changed by a refused upload")
            return
        ctx.check("C06.content", e is None, f"valid upload failed: {e!r}")
        k = w.find(target)
        ctx.check("C06.content", k is not None, "the file does not exist")
        n = w.nodes[k]
        ctx.check("C06.content", n.kind == "file" and ctx.decide(n.content == content), "content differs")
        if mode is not None:
            ctx.check("C06.mode", n.perm == mode_v, "permission bits differ from the request")
        elif old is not None:
            # unrequested: as before (a change of ownership clears the special bits) or the documented default
            ctx.check("C06.mode", ctx.any((n.perm & 0o777) == (old.perm & 0o777), n.perm == 0o600), "unrequested mode changed")
        else:
            ctx.check("C06.mode", n.perm == 0o600, "default mode is not 600")
        uid0, gid0 = (old.uid, old.gid) if old is not None else (0, 0)
        if u is not None:
            ctx.check("C06.owner", n.uid == u.uid, "owner differs from the request")
        else:
            ctx.check("C06.owner", ctx.any(n.uid == uid0, n.uid == 0), "unrequested owner changed")
        if g is not None:
            ctx.check("C06.group", n.gid == g.gid, "group differs from the request")
        elif u is not None:
            ctx.check("C06.group", n.gid == u.gid, "group is not the owner's primary group")
        else:
            ctx.check("C06.group", ctx.any(n.gid == gid0, n.gid == 0), "unrequested group changed")
        for p, b in before.items():
            if p != target:
                a = w.nodes.get(p)
                ctx.check("C06.other", a is not None and ctx.decide(ctx.all(a.kind == b.kind, a.perm == b.perm, a.uid == b.uid, a.gid == b.gid, ctx.same(a.content, b.content), ctx.same(a.target, b.target))), f"{p} was changed")
        ctx.check("C06.other", len(w.nodes) == len(before) + (1 if old is None else 0), "extra or missing files")
        ctx.observe("perm", n.perm)
        ctx.observe("content", n.content)

# ------------------------------------------------------------------ C07

def status(ctx, kind, via):
    """stat of every kind of object, directly or through links."""
    w = plain_world()
    big = 2**32 - 2
    w.users.append(User("b", ctx.int("b.uid", 1, big), 5))
    w.groups.append(Group("c", ctx.int("c.gid", 1, big)))
    node = None
    if kind != "missing":
        node = Node(
                    kind, ctx.int("perm", 0, 0o7777), ctx.int("uid", 0, big if via == "uid" else 0 if via == "name" else 9), ctx.int("gid", 0, big if via == "gid" else 0 if via == "name" else 9),
                    content=(ctx.bytes("content", 1) + ctx.blob("content.long", 2**40)) if kind == "file" else b"",
                    target="/w/dangling" if kind == "link" else None,
                    mtime=ctx.int("mtime", -2**63, 2**63 - 1), ctime=ctx.int("ctime", -2**63, 2**63 - 1),
                    size=None if kind in ("file", "link") else ctx.int("size", 0, 2**63 - 1))
        w.nodes["/w/x"] = node
    path = "/w/x"
    if via == "link":
        path = "/w/l"
        w.nodes["/w/l"] = Node("link", 0o777, 7, 8, target="/w/x", mtime=5, ctime=6)
    elif via == "name":
        nm = ctx.str("name", 2, 1, chars=[(0x41, 0x5a), (0x80, 0xd7ff), (0xe000, 0x10ffff)])
        path = "/w/" + nm
        if node is not None:
            w.nodes[path] = node
            del w.nodes["/w/x"]
    follow = ctx.choice("follow", [False, True])
    sha = ctx.choice("sha", [False, True])
    # the true object
    true = w.nodes.get(path) if via != "name" else node
    if via == "link" and follow:
        true = node
    if true is not None and true.kind == "link" and follow:
        true = None     # dangling
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.stat, path, follow_links=follow, sha512sum=sha)
        ctx.check("C07.error", e is None, f"status query failed: {e!r}")
        if true is None:
            ctx.check("C07.missing", r is None, "missing object has a status")
            return
        ctx.check("C07.missing", r is not None, "existing object reported as missing")
        ctx.check("C07.type", r.type == true.kind, "wrong type")
        ctx.check("C07.mode", r.mode == oct(true.perm)[2:], "wrong permission bits")
        un = next((u.name for u in w.users if ctx.decide(u.uid == true.uid)), None)
        gn = next((g.name for g in w.groups if ctx.decide(g.gid == true.gid)), None)
        ctx.check("C07.owner", r.owner == (un if un is not None else str(true.uid)), "wrong owner")
        ctx.check("C07.group", r.group == (gn if gn is not None else str(true.gid)), "wrong group")
        ctx.check("C07.size", r.size == true.size(), "wrong size")
        ctx.check("C07.times", ctx.all(r.mtime == true.mtime, r.ctime == true.ctime), "wrong times")
        if sha and true.kind == "file":
            import hashlib
            ctx.check("C07.sha", r.sha512sum == hashlib.sha512(true.content).digest(), "wrong digest")
        else:
            ctx.check("C07.sha", r.sha512sum is None, "digest not requested")
        ctx.check("C07.missing", len(w.log) == 0, "a status query changed the file system")

def download(ctx, what):
    w = plain_world()
    content = ctx.bytes("content", 2) if what == "bytes" else ctx.blob("content", 2**40)
    w.nodes["/w/f"] = Node("file", 0o600, 0, 0, content)
    w.nodes["/w/l"] = Node("link", target="/w/f")
    path, ok = ctx.choice("path", [("/w/f", True), ("/w/l", True), ("/w", False), ("/w/none", None)])
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.download, path)
        if ok:
            ctx.check("C07.download", e is None and r is not None, f"download failed: {e!r}")
            ctx.check("C07.download", r == content, "content differs")
        elif ok is None:
            ctx.check("C07.missing", isinstance(e, ValueError), f"missing file: {e!r}")
        else:
            ctx.check("C07.error", isinstance(e, td.RemoteOSError) and e.errno == 21, f"directory downloaded: {e!r}")

def status_error(ctx, what):
    """Any failure other than a missing file is an error."""
    w = plain_world()
    w.nodes["/w/f"] = Node("file", 0o600, 0, 0, b"x")
    w.nodes["/w/loop"] = Node("link", target="/w/loop")
    err = ctx.choice("errno", [1, 5, 13, 20, 40, 36, 12, 110, 116])
    which = ctx.choice("call", ["stat", "open", "read"])
    hit = []
    def fault(name):
        if name == which or (which == "stat" and name == "lstat"):
            hit.append(1)
            raise OSError(err, "injected")
    w.fault = fault
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.stat, "/w/f", sha512sum=True, follow_links=ctx.choice("follow", [False, True])) if what == "stat" else s.attempt(s.connector.download, "/w/f")
        if hit:
            ctx.check("C07.error", isinstance(e, td.RemoteOSError) and e.errno == err, f"failure not reported: {e!r} {r!r}")
        else:
            ctx.check("C07.error", e is None, f"{e!r}")

# ------------------------------------------------------------------ C08

def lookup(ctx, what):
    """User and group lookups with symbolic accounts and queries."""
    w = plain_world()
    a = User(ctx.str("a.name", 2, 1, chars=NAME), ctx.int("a.uid", 1, 30), ctx.choice("a.gid", [0, 5, 99]))
    b = User("b", ctx.int("b.uid", 1, 30), 5)
    w.users = [User("root", 0, 0), a, b]
    ga = Group(ctx.str("ga.name", 2, 1, chars=NAME), ctx.int("ga.gid", 1, 30))
    w.groups = [Group("root", 0), ga, Group("five", 5)]
    for x, y in ((a.name, "b"),):
        ctx.assume(x != y)
    ctx.assume(a.name != "root")
    ctx.assume(ctx.all(ga.gid != 5, a.uid != b.uid))
    if what.startswith("resolve") and what.endswith("self"):
        w.proc = Proc(0, 0)
        ids = ctx.int("self.uid", 0, 30), ctx.int("self.gid", 0, 30)
        w.proc.ruid = w.proc.uid = w.proc.suid = ids[0]
        w.proc.rgid = w.proc.gid = w.proc.sgid = ids[1]
        # no account may be named like the number (a name takes precedence)
        for x in (a.name, ga.name):
            ctx.assume(ctx.no(ctx.all(*[ctx.all(c >= "0", c <= "9") for c in x])))
        with Session(ctx, w) as s:
            if "user" in what:
                e, r = s.attempt(s.connector.resolve_user, None)
                t = next((u for u in w.users if ctx.decide(u.uid == ids[0])), None)
            else:
                e, r = s.attempt(s.connector.resolve_group, None)
                t = next((g for g in w.groups if ctx.decide(g.gid == ids[1])), None)
            if t is None:
                ctx.check("C08.unknown", isinstance(e, ValueError), f"unknown identity: {e!r} {r!r}")
            else:
                ctx.check("C08.name", e is None and r is not None, f"{e!r}")
                ctx.check("C08.name", r == t.name, "wrong identity")
        return
    q = ctx.str("query", 2, chars=NAME)
    plain_number(ctx, q)
    with Session(ctx, w) as s:
        if what == "resolve_user":
            t = account(ctx, q, w.users, "uid")
            e, r = s.attempt(s.connector.resolve_user, q)
        elif what == "resolve_group":
            t = account(ctx, q, w.groups, "gid")
            e, r = s.attempt(s.connector.resolve_group, q)
        elif what == "query_group":
            ga.members = [ctx.str("m0", 1, 1, chars=NAME), "x"][:ctx.choice("members", [0, 1, 2])]
            t = account(ctx, q, w.groups, "gid")
            e, r = s.attempt(s.connector.query_group, q)
        elif what == "query_user":
            t = account(ctx, q, w.users, "uid")
            e, r = s.attempt(s.connector.query_user, q)
        if t is None:
            ctx.check("C08.unknown", isinstance(e, ValueError), f"unknown account accepted: {e!r}")
            return
        ctx.check("C08.name", e is None, f"known account refused: {e!r}")
        if what.startswith("resolve"):
            ctx.check("C08.name", r == t.name, "wrong account")
            return
        ctx.check("C08.name", r.name == t.name, "wrong account")
        if what == "query_group":
            ctx.check("C08.data", ctx.all(r.gid == t.gid, ctx.same(list(r.members), list(t.members))), "wrong group data")
        else:
            ctx.check("C08.data", ctx.all(r.uid == t.uid, r.gid == t.gid), "wrong ids")

def account_data(ctx, field):
    """Every field of a user entry, one with rich content at a time."""
    w = plain_world()
    rich = lambda n, d: systext(ctx, n, 2) if field == n else d
    bynum = ctx.choice("by-number", [False, True])
    u = User("b", 12 if bynum else ctx.int("uid", 1, 2**32 - 2), 5, gecos=rich("gecos", "Some One"), home=rich("home", "/home/b"), shell=rich("shell", "/bin/sh"),
             pw_hash=None if field == "noshadow" else rich("hash", "$6$x"))
    w.users.append(u)
    w.groups = [Group("root", 0)] + ([] if field == "nogroup" else [Group("five", 5)]) + [Group("one", 6, ["b"] if ctx.choice("in-one", [True, False]) else ["bb", "root"]),
                Group(ctx.str("gname", 1, 1, chars=WORD), 7, (["a", "b"] if ctx.choice("in-two", [True, False]) else []))]
    h = ctx.choice("hash?", [False, True])
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.query_user, "12" if bynum else "b", query_password_hash=h)
        ctx.check("C08.data", e is None, f"query failed: {e!r}")
        ctx.check("C08.name", r.name == "b")
        ctx.check("C08.data", ctx.all(r.uid == u.uid, r.gid == 5, r.group == ("5" if field == "nogroup" else "five")), "wrong ids")
        ctx.check("C08.data", ctx.same(sorted(r.groups), sorted(g.name for g in w.groups if "b" in g.members)) if len(r.groups) < 2 else ctx.same(list(r.groups), [g.name for g in w.groups if "b" in g.members]), "wrong supplementary groups")
        ctx.check("C08.data", ctx.all(ctx.same(r.gecos, u.gecos), ctx.same(r.home, u.home), ctx.same(r.shell, u.shell)), "wrong account data")
        ctx.check("C08.data", ctx.same(r.password_hash, u.pw_hash if h else None), "wrong password hash")

def environment(ctx):
    w = plain_world()
    key = ctx.str("key", 2, 1, chars=[(0x41, 0x43), (0x80, 0x82)])
    val = systext(ctx, "value", 2)
    w.env = {"A": val, "AB": "x", "C": ""}
    with Session(ctx, w) as s:
        e, r = s.attempt(s.connector.getenv, key)
        ctx.check("C08.env", e is None, f"failed: {e!r}")
        t = next((v for k, v in w.env.items() if ctx.decide(key == k)), None)
        ctx.check("C08.env", ctx.same(r, t), "wrong value")

def jobs(prop, tier):
    J = []
    def j(fn, **p):
        J.append({"name": fn + "".join(f".{v}" for v in p.values()), "fn": fn, "params": p})
    if prop == "C04":
        for who in ("none", "user", "group", "user+group"): j("run_identity", who=who)
        for what in ("argv", "stdin"): j("run_command", what=what)
        for what in ("umask", "cwd"): j("run_environment", what=what)
        j("run_race")
    if prop == "C05":
        for f in ("bytes", "blob"): j("results", form=f)
    if prop == "C06":
        for dest in ("missing", "file", "link"):
            for what in ("bytes", "blob", "mode", "owner", "group", "owner+group"): j("upload", dest=dest, what=what)
        j("upload", dest="name", what="none")
    if prop == "C07":
        for kind in ("missing", "file", "dir", "link", "fifo", "chr", "blk", "sock", "other"):
            for via in ("direct", "link"): j("status", kind=kind, via=via)
        j("status", kind="fifo", via="name")
        for via in ("uid", "gid"): j("status", kind="file", via=via)
        for f in ("bytes", "blob"): j("download", what=f)
        for f in ("stat", "download"): j("status_error", what=f)
    if prop == "C08":
        for what in ("resolve_user", "resolve_group", "query_user", "query_group", "resolve_user_self", "resolve_group_self"): j("lookup", what=what)
        for f in ("gecos", "home", "shell", "hash", "noshadow", "nogroup"): j("account_data", field=f)
        j("environment")
    return J
