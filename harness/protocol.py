"""C02, C03, C09, C10: truncated and unknown messages, values that cannot be sent, failing system calls and
dying dispatchers - on the real connector and dispatcher."""
import subprocess
from harness.remote import *
from harness import wire
from model.pipe import Pipe, Reader, Writer
from model.server import Killed
from fora.connection import Connection
from fora.remote_settings import RemoteSettings
import errno as en

EXPECT = {
    "C02": ["C02.effects", "C02.stops", "C02.client", "C02.kind"],
    "C03": ["C03.raises", "C03.nothing", "C03.next", "C03.packet"],
    "C09": ["C09.answer", "C09.errno", "C09.one", "C09.next"],
    "C10": ["C10.failed", "C10.registered", "C10.reaped", "C10.closed", "C10.working"],
}
LIGHT = [(0x61, 0x7a)]

def make_world(ctx):
    w = plain_world()
    w.env = {"A": "value"}
    w.nodes["/w/f"] = Node("file", 0o640, 7, 8, b"content")
    w.nodes["/w/d"] = Node("dir", 0o755)
    w.program = lambda x: (b"out", b"err", 0)
    return w

def calls(c):
    """Every kind of request with valid values."""
    return {
        "run": lambda: c.run(["prog", "arg"], input=b"in", user="u", group="g", umask="022", cwd="/w/d"),
        "run-plain": lambda: c.run(["prog"]),
        "run-nocapture": lambda: c.run(["prog"], capture_output=False),
        "stat": lambda: c.stat("/w/f", sha512sum=True),
        "stat-follow": lambda: c.stat("/w/f", follow_links=True),
        "stat-missing": lambda: c.stat("/w/none"),
        "upload": lambda: c.upload("/w/f", b"new", mode="4755", owner="u", group="g"),
        "upload-new": lambda: c.upload("/w/n", b"new"),
        "download": lambda: c.download("/w/f"),
        "resolve_user": lambda: c.resolve_user("u"),
        "resolve_self": lambda: c.resolve_user(None),
        "resolve_group": lambda: c.resolve_group("8"),
        "query_user": lambda: c.query_user("u", query_password_hash=True),
        "query_group": lambda: c.query_group("g"),
        "getenv": lambda: c.getenv("A"),
        "getenv-none": lambda: c.getenv("B"),
    }
CALLS = list(calls(None))

# ------------------------------------------------------------------ C02

def truncated_request(ctx, kind, focus):
    """The stream to the dispatcher ends inside a request."""
    w = make_world(ctx)
    cls = next(k for k in td.packets if k.__name__ == kind)
    vals = wire.make(ctx, "a.", cls, focus, "quick", lean=True)
    common.reset()
    td.is_server = False
    out = Pipe()
    td.Connection(Reader(Pipe()), Writer(out)).write_packet(cls(**vals))
    data = out.buf
    cut = ctx.int("cut", 1, 2**62)
    ctx.assume(cut < len(data))
    d = Dispatcher(w, dispatcher_entry)
    d.c2s.buf = data[:cut]
    d.c2s.eof = True
    before = set(w.nodes)
    try:
        d.resume()
        ctx.check("C02.stops", d.finished and d.returncode != 0, "the dispatcher does not report the broken stream")
        ctx.check("C02.effects", len(w.executed) == 0, "a truncated command was executed")
        ctx.check("C02.effects", len(w.log) == 0 and set(w.nodes) == before, "a truncated request changed the file system")
        ctx.check("C02.effects", len(d.s2c.buf) == 0, "a truncated request was answered")
    finally:
        d.dispose()

def unknown_request(ctx, what):
    """Kinds of messages that are no requests."""
    w = make_world(ctx)
    common.reset()
    if what == "unknown":
        n = len(td.packets)
        pid = ctx.int("id", 0, 2**32 - 1)
        known = [i for i in td.packet_deserializers]
        for k in known:
            ctx.assume(pid != k)
        from struct import pack
        data = pack(">I", pid) + ctx.bytes("tail", 2)
    else:
        cls = next(k for k in td.packets if k.__name__ == what)
        out = Pipe()
        td.is_server = False
        td.Connection(Reader(Pipe()), Writer(out)).write_packet(cls(**wire.make(ctx, "a.", cls, None, "quick")))
        data = out.buf
    d = Dispatcher(w, dispatcher_entry)
    d.c2s.buf = data
    d.c2s.eof = True
    try:
        d.resume()
        ctx.check("C02.stops", d.finished and d.returncode != 0, "the dispatcher goes on after an unknown message")
        ctx.check("C02.effects", len(w.executed) == 0 and len(w.log) == 0, "an unknown message had effects")
    finally:
        d.dispose()

def truncated_response(ctx, call):
    """The stream from the dispatcher ends inside a response."""
    w = make_world(ctx)
    w.nodes["/w/f"].content = ctx.blob("content", 2**40) if call == "download" else b"content"
    w.env["A"] = ctx.str("env", 1, chars=SCALAR)
    w.program = lambda x: (ctx.blob("out", 2**40), b"err", 0) if call == "run" else (b"o", b"e", 0)
    with Session(ctx, w) as s:
        cut = ctx.int("cut", 0, 2**62)
        def on_flush():
            o = s.d.stdout
            ctx.assume(cut < len(o.pending))
            o.pending = o.pending[:cut]
            super(type(o), o).flush()
            raise Killed()
        s.d.stdout.on_flush = on_flush
        e, r = s.attempt(calls(s.connector)[call])
        ctx.check("C02.client", e is not None and not s.hang, f"a value was made up from a truncated response: {r!r}")

def wrong_response(ctx, call, kind):
    """The dispatcher answers with another kind of message."""
    w = make_world(ctx)
    good = {"run": "PacketProcessCompleted", "stat": "PacketStatResult", "upload": "PacketOk", "download": "PacketDownloadResult", "resolve_user": "PacketResolveResult",
            "resolve_group": "PacketResolveResult", "query_user": "PacketUserEntry", "query_group": "PacketGroupEntry", "getenv": "PacketEnvironVar"}[call]
    common.reset()
    td.is_server = False
    if kind == "unknown":
        from struct import pack
        pid = ctx.int("id", 0, 2**32 - 1)
        for k in td.packet_deserializers:
            ctx.assume(pid != k)
        data = pack(">I", pid)
    else:
        if kind == good:
            return
        cls = next(k for k in td.packets if k.__name__ == kind)
        vals = wire.make(ctx, "a.", cls, None, "quick")
        if kind == "PacketInvalidField":
            # "missing" is a legitimate answer to a status query
            if call == "stat":
                return
            vals["field"] = {"run": "user", "upload": "mode", "download": "file", "resolve_user": "user", "resolve_group": "group", "query_user": "user", "query_group": "group", "getenv": "key"}[call]
        out = Pipe()
        td.Connection(Reader(Pipe()), Writer(out)).write_packet(cls(**vals))
        data = out.buf
    with Session(ctx, w) as s:
        def on_flush():
            s.d.stdout.pending = data
        s.d.stdout.on_flush = on_flush
        e, r = s.attempt(calls(s.connector)[call])
        ctx.check("C02.kind", e is not None and not s.hang, f"an unexpected answer was accepted: {r!r}")

# ------------------------------------------------------------------ C03

def bad_text(ctx, name):
    """Text that has no encoding: a surrogate that does not stand for an undecodable byte."""
    c = ctx.str(name, 1, 1, chars=[(0xd800, 0xdc7f), (0xdd00, 0xdfff)])
    pre = ctx.str(name + ".pre", 1, chars=LIGHT)
    return pre + c + "z"

def unsendable(ctx, call, arg):
    """A connector call with a value that cannot be transmitted."""
    w = make_world(ctx)
    with Session(ctx, w) as s:
        c = s.connector
        form = ctx.choice("form", ["text", "int", "bytes", "object"] + (["none"] if arg in ("command", "path", "file", "key") or call.startswith("query") else [])) if arg not in ("content", "input") else ctx.choice("form", ["str", "int", "object"] + (["none"] if arg == "content" else []))
        bad = bad_text(ctx, "bad") if form == "text" else 5 if form == "int" else b"x" if form == "bytes" else None if form == "none" else "text" if form == "str" else object()
        k = {"run": dict(command=["prog"], input=b"in", user="u", group="g", umask="022", cwd="/w/d"), "stat": dict(path="/w/f"), "upload": dict(file="/w/f", content=b"new", mode="644", owner="u", group="g"),
             "download": dict(file="/w/f"), "resolve_user": dict(user="u"), "resolve_group": dict(group="g"), "query_user": dict(user="u"), "query_group": dict(group="g"), "getenv": dict(key="A")}[call]
        if arg == "command":
            pos = ctx.choice("pos", [0, 1, 2])
            cmd = ["prog", "a", "b"]
            cmd[pos] = bad
            k["command"] = cmd
        else:
            k[arg] = bad
        n_calls = len(w.calls)
        e, r = s.attempt(getattr(c, call), **k)
        ctx.check("C03.raises", e is not None and not s.hang, f"the call did not raise ({r!r})")
        ctx.check("C03.raises", not s.hang, "the call never returns")
        ctx.check("C03.nothing", len(w.executed) == 0 and len(w.log) == 0 and len(w.calls) == n_calls, "the remote host acted on a request that could not be sent")
        e2, r2 = s.attempt(c.getenv, "A")
        ctx.check("C03.next", e2 is None and r2 == "value", f"the next request got no proper answer: {e2!r} {r2!r}")
        e3, r3 = s.attempt(c.run, ["prog"])
        ctx.check("C03.next", e3 is None and r3.stdout == b"out" and len(w.executed) == 1, f"the connection is out of step: {e3!r}")

def unsendable_packet(ctx, kind, field):
    """Any message with one field that cannot be represented."""
    common.reset()
    td.is_server = False
    cls = next(k for k in td.packets if k.__name__ == kind)
    vals = wire.make(ctx, "a.", cls, None, "quick")
    t = cls.__annotations__[field]
    import typing
    inner = t
    wrap = lambda v: v
    if typing.get_origin(t) is typing.Union:
        inner = [a for a in typing.get_args(t) if a is not type(None)][0]
    if typing.get_origin(inner) is list:
        inner = typing.get_args(inner)[0]
        n = ctx.choice("list", [0, 1])
        good = wire.build(ctx, "elem", inner, False, "quick")
        wrap = lambda v: [good] * n + [v]
    name = getattr(inner, "__name__", "")
    if name in wire.INT_RANGES:
        lo, hi = wire.INT_RANGES[name]
        v = ctx.int("bad", -2**70, 2**70)
        ctx.assume(ctx.any(v < lo, v > hi))
    elif inner is str:
        v = bad_text(ctx, "bad")
    elif inner is bytes:
        v = ctx.choice("bad", ["text", 5])
    else:
        return
    vals[field] = wrap(v)
    out = Pipe()
    wr = Writer(out)
    conn = td.Connection(Reader(Pipe()), wr)
    e = None
    try:
        conn.write_packet(cls(**vals))
    except Exception as x:
        e = x
    ctx.check("C03.raises", e is not None, "a message with a value out of range was sent")
    ctx.check("C03.nothing", len(out.buf) == 0 and len(wr.pending) == 0, "part of a message was sent")
    conn.write_packet(td.PacketGetenv(key="A"))
    got = td.receive_packet(td.Connection(Reader(out), Writer(Pipe())))
    ctx.check("C03.packet", type(got) is td.PacketGetenv and got.key == "A", "the following message is damaged")

# ------------------------------------------------------------------ C09

def faulty(ctx, call):
    """Any one modelled system call fails with any error number."""
    w = make_world(ctx)
    kind = ctx.choice("kind", ["mapped", "other", "none"])
    if kind == "mapped":
        err = ctx.choice("errno", [1, 2, 3, 4, 10, 11, 13, 17, 20, 21, 32, 103, 104, 110, 111])
    elif kind == "other":
        err = ctx.int("errno.n", 5, 133)
        for x in (10, 11, 13, 17, 20, 21, 32, 103, 104, 108, 110, 111, 114, 115):
            ctx.assume(err != x)
    else:
        err = None
    at = ctx.choice("at", list(range(12)))
    hit = []
    first = []
    def fault(name):
        if len(first) == at and not hit:
            hit.append(name)
            raise OSError("no number") if err is None else OSError(err, "injected")
        first.append(name)
    with Session(ctx, w) as s:
        w.fault = fault
        e, r = s.attempt(calls(s.connector)[call])
        w.fault = None
        ctx.check("C09.answer", not s.hang, "no answer")
        ctx.check("C09.answer", not s.d.finished, f"the dispatcher ended: {s.d.crash!r}")
        ctx.check("C09.one", len(s.d.s2c.buf) == 0, "more than one answer")
        if hit:
            name = hit[0]
            child = name in ("setresuid", "setresgid", "setgroups", "chdir") or (call == "run" and name == "stat")
            missing = err is not None and name in ("stat", "lstat", "open", "read") and ctx.decide(err == 2)
            if missing and call.startswith("stat"):
                ctx.check("C09.errno", (e is None and r is None) or isinstance(e, td.RemoteOSError), f"{e!r}")
            elif child or (missing and call == "download"):
                ctx.check("C09.errno", e is not None, "failure turned into a normal result")
            elif err is None:
                ctx.check("C09.errno", isinstance(e, td.RemoteOSError), f"failure lost: {e!r} {r!r}")
            else:
                ctx.check("C09.errno", isinstance(e, td.RemoteOSError) and ctx.decide(e.errno == err), f"error number lost: {e!r}")
        else:
            ctx.check("C09.errno", e is None, f"failed without cause: {e!r}")
        e2, r2 = s.attempt(s.connector.getenv, "A")
        ctx.check("C09.next", e2 is None and r2 == "value", f"the next request got no proper answer: {e2!r} {r2!r}")

def unusable(ctx, call, arg):
    """Values that can be transmitted but that the system cannot use."""
    w = make_world(ctx)
    with Session(ctx, w) as s:
        c = s.connector
        k = {"run": dict(command=["prog"], user="u", group="g", umask="022", cwd="/w/d"), "stat": dict(path="/w/f", follow_links=True, sha512sum=True), "upload": dict(file="/w/f", content=b"new", mode="644", owner="u", group="g"),
             "download": dict(file="/w/f"), "resolve_user": dict(user="u"), "resolve_group": dict(group="g"), "query_user": dict(user="u"), "query_group": dict(group="g"), "getenv": dict(key="A")}[call]
        text = ctx.str("text", 1 if arg in ("mode", "umask") else 2, chars=[(0, 1), (0x2d, 0x2f), (0x37, 0x37), (0xdc80, 0xdcff)])
        if arg == "command":
            k["command"] = ctx.choice("cmd", [[], ["prog", text], [text]])
        else:
            k[arg] = text
        e, r = s.attempt(getattr(c, call), **k)
        ctx.check("C09.answer", not s.hang, "no answer")
        ctx.check("C09.answer", not s.d.finished, f"the dispatcher ended: {s.d.crash!r}")
        ctx.check("C09.one", len(s.d.s2c.buf) == 0, "more than one answer")
        nul = ctx.decide(ctx.any(*[x == "\0" for x in text])) if len(text) else False
        if nul and (arg != "command" or not (len(k["command"]) == 0)) and call != "getenv":
            ctx.check("C09.errno", e is not None, f"a value the system cannot use gave a normal result: {r!r}")
        if arg == "command" and len(k["command"]) == 0:
            ctx.check("C09.errno", e is not None, "an empty command gave a result")
        e2, r2 = s.attempt(c.getenv, "A")
        ctx.check("C09.next", e2 is None and r2 == "value", f"the next request got no proper answer: {e2!r} {r2!r}")

def answers(ctx):
    """Three requests in any order: each gets its own answer."""
    w = make_world(ctx)
    w.env = {"A": ctx.str("env", 1, chars=SCALAR)}
    w.nodes["/w/f"].content = ctx.bytes("content", 1)
    rc = ctx.int("rc", -15, 255)
    w.program = lambda x: (b"out", b"err", rc)
    with Session(ctx, w) as s:
        for i in range(3):
            k = ctx.choice(f"r{i}", ["getenv", "download", "run", "bad-user", "missing", "stat"])
            if k == "getenv":
                ctx.check("C09.next", s.connector.getenv("A") == w.env["A"])
            elif k == "download":
                ctx.check("C09.next", s.connector.download("/w/f") == w.nodes["/w/f"].content)
            elif k == "run":
                ctx.check("C09.next", s.connector.run(["prog"], check=False).returncode == rc)
            elif k == "bad-user":
                e, r = s.attempt(s.connector.resolve_user, "nobody-here")
                ctx.check("C09.next", isinstance(e, ValueError))
            elif k == "missing":
                ctx.check("C09.next", s.connector.stat("/w/none") is None)
            else:
                ctx.check("C09.next", s.connector.stat("/w/d").type == "dir")
            ctx.check("C09.one", len(s.d.s2c.buf) == 0 and len(s.d.c2s.buf) == 0)

# ------------------------------------------------------------------ C10

class Inv:
    def base_remote_settings(self): return RemoteSettings("root", "root", "root", "root", "600", "700", "077", "/tmp")

def lifecycle(ctx, how):
    """Open and leave a connection; the dispatcher may die at any point."""
    w = make_world(ctx)
    w.proc = Proc(0, 0)
    s = Session(ctx, w, connect=False)
    exit_after_death = None
    with s:
        die = ctx.choice("die", ["never", "wait", "flush"]) if how == "death" else "never"
        at = ctx.choice("at", [0, 1, 2, 3, 4, 5]) if die != "never" else 0
        cut = ctx.int("cut", 0, 40) if die == "flush" else 0
        counter = {"wait": 0, "flush": 0}
        inner = s.client.popen
        def popen(args, **k):
            if how == "nospawn":
                raise FileNotFoundError(2, "No such file or directory", "ssh")
            p = inner(args, **k)
            d = p.d
            def on_wait():
                counter["wait"] += 1
                if die == "wait" and counter["wait"] > at:
                    d.returncode = -9
                    raise Killed()
            def on_flush():
                counter["flush"] += 1
                if die == "flush" and counter["flush"] > at:
                    o = d.stdout
                    if ctx.decide(cut < len(o.pending)):
                        o.pending = o.pending[:cut]
                    from model.pipe import Writer as PW
                    PW.flush(o)
                    d.returncode = -9
                    raise Killed()
                if how == "garbage" and counter["flush"] == garbage_at:
                    d.stdout.pending = garbage
                    from model.pipe import Writer as PW
                    PW.flush(d.stdout)
                    raise Killed()
            d.on_wait, d.stdout.on_flush = on_wait, on_flush
            return p
        s.client.popen = popen
        if how == "garbage":
            garbage_at = ctx.choice("garbage.at", [1, 2, 3])
            garbage = b"\0\0" + ctx.bytes("garbage", 4)
        if how == "identity":
            w.proc.ruid = w.proc.uid = w.proc.suid = ctx.int("uid", 0, 10)
            w.proc.rgid = w.proc.gid = w.proc.sgid = ctx.int("gid", 0, 10)
        host = s.host
        host.create_connector = lambda: s.connector
        host.inventory = Inv()
        body_exc = ctx.choice("body", ["ok", "raises", "request"])
        entered = in_body = False
        error = None
        body_failed = None
        try:
            cm = Connection(host)
            with cm as conn:
                entered = True
                ctx.check("C10.working", host.connection is conn, "the open connection is not registered")
                if body_exc == "request" or die != "never":
                    try:
                        r = s.connector.getenv("A")
                        ctx.check("C10.working", r == "value" or how == "garbage", "wrong answer")
                    except Exception as x:
                        body_failed = x
                        raise
                if body_exc == "raises":
                    raise RuntimeError("from the body")
        except Exception as x:
            error = x
        except Hang as x:
            ctx.fail("C10.failed", f"waits forever: {x}")
        ctx.check("C10.registered", getattr(host, "connection", None) is None, "the connection stays registered")
        for p in s.procs:
            ctx.check("C10.reaped", p.d.finished, "a dispatcher process is left running")
            if entered:
                ctx.check("C10.reaped", p.waited or p.returncode is not None, "the process was not waited for")
        if not entered:
            ctx.check("C10.failed", error is not None, "opening neither worked nor raised")
        elif body_failed is not None:
            ctx.check("C10.failed", error is body_failed, f"the original error was replaced: {error!r}")
        elif body_exc == "raises":
            ctx.check("C10.failed", isinstance(error, RuntimeError), f"the exception of the body was replaced: {error!r}")
        else:
            ctx.check("C10.failed", error is None, f"leaving failed: {error!r}")
        if how == "clean":
            ctx.check("C10.working", entered, f"could not open: {error!r}")
        if how == "nospawn":
            ctx.check("C10.failed", not entered)
        if entered:
            # a closed connection must not look open
            for name in ("getenv", "stat", "run", "upload", "resolve_self"):
                e, r = s.attempt(calls(s.connector)[name])
                ctx.check("C10.closed", e is not None and not s.hang, f"a closed connection answered {name}: {r!r}")
            ctx.check("C10.closed", not getattr(s.connector, "is_open", False), "a closed connection says it is open")
            e, r = s.attempt(s.connector.close)
            ctx.check("C10.closed", e is None, f"closing twice: {e!r}")
        ctx.check("C10.registered", getattr(host, "connection", None) is None)

def first_answer(ctx):
    """Whatever answers instead of a dispatcher, only the acknowledgement opens the connection."""
    w = make_world(ctx)
    s = Session(ctx, w, connect=False)
    with s:
        answer = ctx.bytes("answer", 10, 0)
        inner = s.client.popen
        def popen(args, **k):
            p = inner(args, **k)
            def on_flush():
                from model.pipe import Writer as PW
                p.d.stdout.pending = answer
                PW.flush(p.d.stdout)
                raise Killed()
            p.d.stdout.on_flush = on_flush
            return p
        s.client.popen = popen
        exc = None
        try:
            s.connector.open()
        except Exception as x:
            exc = x
        except Hang as x:
            ctx.fail("C10.failed", f"waits forever: {x}")
        good = td.packets.index(td.PacketAck).to_bytes(4, "big")
        if ctx.decide(answer[:4] == good):
            ctx.check("C10.working", exc is None, f"the acknowledgement was refused: {exc!r}")
            s.connector.close()
        else:
            ctx.check("C10.failed", exc is not None, "something that is not a dispatcher was taken for an open connection")
            ctx.check("C10.closed", not getattr(s.connector, "is_open", False), "a connection that could not be opened says it is open")
        for p in s.procs:
            ctx.check("C10.reaped", p.d.finished, "a process is left running")

def reopen(ctx):
    """A connector can be opened again after it was closed."""
    w = make_world(ctx)
    with Session(ctx, w) as s:
        n = ctx.choice("n", [0, 1, 2])
        for i in range(n):
            s.connector.close()
            s.connector.open()
        ctx.check("C10.working", s.connector.getenv("A") == "value")
        s.connector.close()
        for p in s.procs:
            ctx.check("C10.reaped", p.d.finished and p.waited and p.d.returncode == 0, "process left or killed")

METHOD_ARGS = [("run", "command"), ("run", "input"), ("run", "user"), ("run", "group"), ("run", "umask"), ("run", "cwd"), ("stat", "path"), ("upload", "file"), ("upload", "content"), ("upload", "mode"), ("upload", "owner"),
               ("upload", "group"), ("download", "file"), ("resolve_user", "user"), ("resolve_group", "group"), ("query_user", "user"), ("query_group", "group"), ("getenv", "key")]

def jobs(prop, tier):
    J = []
    def j(fn, **p):
        J.append({"name": fn + "".join(f".{v}" for v in p.values()), "fn": fn, "params": p})
    reqs = [k for k in td.packets if getattr(k, "handle", None) is not td._handle_response_packet] if hasattr(td, "_handle_response_packet") else list(td.packets)
    resp = [k for k in td.packets if k not in reqs]
    if prop == "C02":
        for k in td.packets:
            if k in resp: continue
            for f in (list(k._fields) or [None]): j("truncated_request", kind=k.__name__, focus=f)
        j("unknown_request", what="unknown")
        for k in resp: j("unknown_request", what=k.__name__)
        for c in CALLS: j("truncated_response", call=c)
        for c in ("run", "stat", "upload", "download", "resolve_user", "resolve_group", "query_user", "query_group", "getenv"):
            j("wrong_response", call=c, kind="unknown")
            for k in td.packets: j("wrong_response", call=c, kind=k.__name__)
    if prop == "C03":
        for m, a in METHOD_ARGS: j("unsendable", call=m, arg=a)
        for k in td.packets:
            for f in k._fields: j("unsendable_packet", kind=k.__name__, field=f)
    if prop == "C09":
        for c in CALLS: j("faulty", call=c)
        for m, a in METHOD_ARGS:
            if a not in ("input", "content"): j("unusable", call=m, arg=a)
        j("answers")
    if prop == "C10":
        for h in ("clean", "death", "nospawn", "garbage", "identity"): j("lifecycle", how=h)
        j("first_answer")
        j("reopen")
    return J
