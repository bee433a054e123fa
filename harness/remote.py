"""Common parts of the connector/dispatcher harnesses: a real connector talking to the real dispatcher
program, which runs on a model world."""
import model.osmodel as osmodel
from model.world import World, Node, User, Group, Proc
from model.server import Dispatcher, Process, Hang
from harness import common
from symx.dispatch import dispatcher_entry
from types import SimpleNamespace
from fora.connectors import tunnel_dispatcher as td
from fora.connectors.tunnel_connector import TunnelConnector
import fora

NAME = [(ord("a"), ord("c")), (ord("0"), ord("2"))]
WORD = [(0x30, 0x39), (0x61, 0x7a)]
PRINT = [(0x20, 0x7e)]
SCALAR = [(0, 0xd7ff), (0xe000, 0x10ffff)]
# text as Python represents what the system hands out: scalar values and escaped undecodable bytes
SYSTEXT = [(1, 0xd7ff), (0xdc80, 0xdcff), (0xe000, 0x10ffff)]

class Plain(TunnelConnector):
    schema = "test"
    def command(self):
        return ["dispatcher"]

class Session:
    """One connector with its dispatcher."""
    def __init__(self, ctx, world, connect=True, cls=Plain, url="test:host"):
        common.reset()
        td.is_server = False
        self.ctx, self.world = ctx, world
        self.procs = []
        self.client = World()
        self.client.popen = self.popen
        self.host = SimpleNamespace(name="host", url=url, connection=None, ssh_host="h", ssh_port=22)
        self.saved = osmodel.set_world(self.client)
        self.connector = cls(url, self.host)
        self.d = None
        self.hang = False
        if connect:
            self.connector.open()
    def popen(self, args, **k):
        self.d = Dispatcher(self.world, dispatcher_entry)
        p = Process(self.d, args)
        self.procs.append(p)
        return p
    def close(self):
        osmodel.set_world(self.saved)
        for p in self.procs:
            p.d.dispose()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def attempt(self, fn, *a, **k):
        """(exception, result); a wait without end is the exception Hang."""
        try:
            return None, fn(*a, **k)
        except Exception as e:
            return e, None
        except Hang as e:
            self.hang = True
            return e, None

def plain_world(**k):
    w = World(users=[User("root", 0, 0, home="/root"), User("u", 7, 8, home="/u")], groups=[Group("root", 0), Group("g", 8), Group("extra", 9, ["u"])], **k)
    w.nodes["/w"] = Node("dir", 0o755)
    return w
