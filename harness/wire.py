"""C01: messages survive the wire. All packet kinds of the registry, fields built from their annotations."""
import typing
from harness import common
from model.pipe import Pipe, Reader, Writer
from fora.connectors import tunnel_dispatcher as td
import fora

EXPECT = {"C01": ["C01.kind", "C01.fields", "C01.consumed", "C01.second"]}
INT_RANGES = {"i32": (-2**31, 2**31-1), "u32": (0, 2**32-1), "i64": (-2**63, 2**63-1), "u64": (0, 2**64-1)}
LIGHT = [(0x20, 0x7e)]

def kinds():
    return [k for k in td.packets]

def build(ctx, name, t, focus, tier, lean=False):
    """A symbolic value of annotation type t; rich content when in focus."""
    big = tier == "thorough"
    n = getattr(t, "__name__", "")
    if t is bool:
        return ctx.bool(name)
    if n in INT_RANGES:
        lo, hi = INT_RANGES[n]
        return ctx.int(name, lo, hi)
    if t is str:
        if focus:
            return ctx.str(name, 3 if big else 2, chars=[(0, 0xd7ff), (0xe000, 0x10ffff)])
        return ctx.str(name, 1, 1, chars=LIGHT)
    if t is bytes:
        if focus:
            k = ctx.choice(name + ".form", ["bytes", "blob", "around"])
            if k == "bytes":
                return ctx.bytes(name + ".b", 3 if big else 2)
            if k == "blob":
                return ctx.blob(name + ".long", 2**40)
            return ctx.bytes(name + ".pre", 1) + ctx.blob(name + ".mid", 2**40) + ctx.bytes(name + ".post", 1)
        return ctx.bytes(name, 1, 1)
    if typing.get_origin(t) is typing.Union and type(None) in typing.get_args(t):
        inner = [a for a in typing.get_args(t) if a is not type(None)][0]
        # an optional value must be distinguishable from its falsy values
        if not (lean and not focus) and not ctx.choice(name + ".given", [True, False]):
            return None
        return build(ctx, name, inner, focus, tier, lean)
    if typing.get_origin(t) is list:
        inner = typing.get_args(t)[0]
        k = ctx.choice(name + ".n", [0, 1, 2, 3] if focus and big else [0, 1, 2] if focus else [1] if lean else [0, 1])
        return [build(ctx, f"{name}.{i}", inner, focus and i == k - 1, tier, lean) for i in range(k)]
    ctx.fail("C01.annotation", f"field type {t} of {name} is unknown")

def make(ctx, prefix, cls, focus, tier, lean=False):
    vals = {}
    for f in cls._fields:
        if cls.__name__ == "PacketInvalidField" and f == "field":
            vals[f] = ctx.choice(prefix + f, ["path", "user", "cwd"])
            continue
        vals[f] = build(ctx, f"{prefix}{f}", cls.__annotations__[f], f == focus, tier, lean)
    return vals

class Anything:
    """A stand-in request that has every field."""
    def __getattr__(self, name):
        return "value"

def roundtrip(ctx, kind, focus):
    common.reset()
    td.is_server = False
    cls = next(k for k in td.packets if k.__name__ == kind)
    vals = make(ctx, "a.", cls, focus, ctx.tier)
    sentinel = ctx.str("key", 1, 1, chars=LIGHT)
    out = Pipe()
    sender = td.Connection(Reader(Pipe()), Writer(out))
    receiver = td.Connection(Reader(out), Writer(Pipe()))
    sender.write_packet(cls(**vals))
    sender.write_packet(td.PacketGetenv(key=sentinel))
    if kind == "PacketOSError":
        exc = None
        try:
            td.receive_packet(receiver)
        except td.RemoteOSError as e:
            exc = e
        ctx.check("C01.kind", exc is not None)
        ctx.check("C01.fields", ctx.all(exc.errno == vals["errno"], exc.strerror == vals["strerror"], exc.args[0] == vals["msg"]), "system error data altered")
    elif kind == "PacketInvalidField":
        exc = None
        try:
            td.receive_packet(receiver, request=Anything())
        except ValueError as e:
            exc = e
        ctx.check("C01.kind", exc is not None)
        ctx.check("C01.fields", vals["error_message"] in str(exc) and vals["field"] in str(exc), "the reason of the rejection is lost")
    else:
        got = td.receive_packet(receiver)
        ctx.check("C01.kind", type(got) is cls, "arrived as another kind of message")
        for f in cls._fields:
            ctx.check("C01.fields", ctx.same(getattr(got, f), vals[f]), f"field {f} altered")
            ctx.observe(f, getattr(got, f))
    second = td.receive_packet(receiver)
    ctx.check("C01.second", type(second) is td.PacketGetenv and ctx.decide(ctx.same(second.key, sentinel)), "the following message was damaged")
    ctx.check("C01.consumed", len(out.buf) == 0, "bytes left over")

def jobs(prop, tier):
    out = []
    for k in kinds():
        for f in (list(k._fields) or [None]):
            out.append({"name": f"{k.__name__}.{f}", "fn": "roundtrip", "params": {"kind": k.__name__, "focus": f}})
    return out
