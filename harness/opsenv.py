"""A host with a real connection, ready to run operations: real Connection, TunnelConnector and dispatcher,
on a model machine with models of the programs operations call."""
import inspect
import fora
from fora import logger
from fora.connection import Connection
from fora.types import HostWrapper, ScriptWrapper
from fora.inventory_wrapper import InventoryWrapper
from model import osmodel
from model.world import World, Node, User, Group, Proc
from model.commands import Programs
from model.server import Hang
from harness import common, remote
from harness.remote import Session

def inventory():
    """A real inventory without hosts."""
    inv = InventoryWrapper()
    inv.load()
    return inv

def quiet():
    """Printing is not part of these checks (see C31)."""
    for n in ("print_operation", "print_operation_early", "print_operation_title", "debug_args", "debug"):
        if hasattr(logger, n):
            setattr(logger, n, lambda *a, **k: None)
    import fora.operations.api as api
    if hasattr(api, "print_process_error"):
        api.print_process_error = lambda *a, **k: None

def world(**k):
    w = remote.plain_world(**k)
    w.nodes["/tmp"] = Node("dir", 0o1777)
    w.nodes["/w/other"] = Node("file", 0o640, 7, 8, b"other")
    w.nodes["/t"] = Node("file", 0o600, 0, 0, b"target")
    w.nodes["/td"] = Node("dir", 0o750, 0, 0)
    w.nodes["/td/x"] = Node("file", 0o600, 0, 0, b"x")
    w.program = Programs(w)
    return w

def twin(w):
    c = w.copy()
    c.program = w.program.copy(c)
    return c

class Env:
    """Inside the context, fora.host is connected and fora.script is running."""
    def __init__(self, ctx, w, dry=False, diff=False, inv=None, local=None, cwd=None, prepare=None):
        quiet()
        self.ctx, self.w, self.p = ctx, w, w.program
        self.s = Session(ctx, w, connect=False)
        if local is not None:
            self.s.client.nodes.update(local)
        if cwd is not None:
            self.s.client.proc.cwd = cwd
        common.set_args(dry=dry, diff=diff)
        inv = inv if inv is not None else inventory()
        fora.inventory = inv
        self.host = HostWrapper(inv, "host", "test:host")
        self.host.connector = lambda url, host: self.s.connector
        self.cm = Connection(self.host)
        self.cm.__enter__()
        fora.host = self.host
        fora.script = ScriptWrapper("script")
        if prepare is not None: prepare(self)
        self.clear()
    def clear(self):
        self.w.log.clear()
        self.w.calls.clear()
        self.p.history.clear()
        for l in (self.p.pkg_log, self.p.unit_log, self.p.git_log):
            l.clear()
        self.sent = self.s.d.c2s.written
    def requests(self):
        """Bytes sent to the remote host since the last clear()."""
        return self.s.d.c2s.written - self.sent
    def __enter__(self): return self
    def __exit__(self, *a):
        self.s.close()
        common.reset()
    def run(self, fn, *a, **k):
        """(exception, result)"""
        return self.s.attempt(fn, *a, **k)

def positional(fn, kwargs):
    """The same call with every argument by position."""
    ps = [p for p in inspect.signature(fn).parameters.values() if p.name != "op"]
    out = []
    for p in ps:
        if p.name in kwargs:
            out.append(kwargs[p.name])
        else:
            out.append(p.default)
    return out

def snapshot(w):
    return {p: n.copy() for p, n in w.nodes.items()}

def same_node(ctx, a, b, times=True):
    return ctx.all(a.kind == b.kind, ctx.same(a.perm, b.perm), ctx.same(a.uid, b.uid), ctx.same(a.gid, b.gid), ctx.same(a.content, b.content), ctx.same(a.target, b.target), (not times or a.touched == b.touched))

def unchanged_except(ctx, before, w, except_=()):
    """Every path other than the given ones is exactly as before."""
    def skip(p): return any(p == e or p.startswith(e + "/") for e in except_)
    a = {p: n for p, n in before.items() if not skip(p)}
    b = {p: n for p, n in w.nodes.items() if not skip(p)}
    if set(a) != set(b):
        return False
    return ctx.all(*[same_node(ctx, a[p], b[p]) for p in a])

OCT = [(0x30, 0x37)]
def octal_value(s):
    v = 0
    for c in s:
        v = v * 8 + (ord(c) - 48)
    return v
