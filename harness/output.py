"""C31: what is printed about remote data."""
import sys
import subprocess
from types import SimpleNamespace
import fora
from fora import logger, utils
from fora.operations import api
from harness import common

class Recorder:
    """Stands for the terminal."""
    records = True
    encoding = "utf-8"
    def __init__(self): self.parts = []
    def write(self, s):
        self.parts.append(s)
        return len(s)
    def flush(self): pass
    def isatty(self): return False
    def text(self):
        t = ""
        for p in self.parts: t = t + p
        return t

class Terminal:
    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.r = Recorder()
        return self.r
    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved

def printable(ctx, label, text, extra="", what=""):
    """Every character is printable or one of the given ones."""
    for c in text:
        ok = c.isprintable()
        for x in extra:
            ok = ctx.any(ok, c == x)
        ctx.check(label, ok, lambda: f"{what} contains {c!r}: {text!r}")

def esc(c):
    """The documented escape of one character."""
    if c == "\x00": return "\\0"
    if c == "\n": return "\\n"
    if c == "\r": return "\\r"
    if c == "\t": return "\\t"
    n = ord(c)
    if c.isprintable(): return c
    if n <= 0xff: return f"\\x{n:02x}"
    return None             # some escape sequence

def escapes(ctx, form, size):
    common.reset()
    if form == "bytes":
        b = ctx.bytes("data", size)
        out = logger.decode_escape(b)
        src = b.decode("utf-8", "backslashreplace")
    else:
        src = ctx.str("text", size)
        out = logger.escape(src)
    ctx.observe("out", out)
    printable(ctx, "C31.escaped", out, what="escaped text")
    # printable text is shown as it is and the common controls as documented
    want = ""
    for c in src:
        e = esc(c)
        if e is None:
            return
        want = want + e
    ctx.check("C31.faithful", out == want, lambda: f"{src!r} is shown as {out!r}")

ALPHABET = [0x61, 0x62, 0x0a, 0x0d, 0x1b, 0x9b, 0xff, 0x2b, 0x20]

SMALL = [0x61, 0x0a, 0x1b, 0xff, 0x2b]

def content(ctx, name, size, small=False):
    n = ctx.choice(name + ".len", list(range(size + 1)))
    out = []
    for i in range(n):
        out.append(ctx.int(f"{name}.{i}", 0, 255))
        ctx.assume(ctx.any(*[out[-1] == b for b in (SMALL if small else ALPHABET)]))
    return bytes(out)

def strip_color(lines, color):
    """Remove the colours fora itself adds (always at the start and the end of a line)."""
    out = []
    for l in lines:
        if color:
            i = 0
            if l[0] == "\033":
                while l[i] != "m": i += 1
                l = l[i + 1:]
            if len(l) >= 3 and l[-3:] == "\033[m":
                l = l[:-3]
        out.append(l)
    return out

def differences(ctx, size, color, missing):
    """Diffs of two arbitrary contents."""
    common.reset()
    small = missing == "none" and ctx.tier != "thorough"
    old = None if missing == "old" else content(ctx, "old", size, small)
    new = None if missing == "new" else content(ctx, "new", size, small)
    lines = logger.diff("/f", old, new, color=color)
    body = strip_color(lines, color)
    ctx.check("C31.header", any("/f" in l for l in body[:3]), lambda: f"{body[:3]}")
    body = body[3:]
    for l in body:
        printable(ctx, "C31.diff", l, what="diff line")
    # what is shown: removed and added lines, and context
    def split(c): return [] if c is None else [logger.decode_escape(x) for x in c.split(b"\n")]
    a, b = split(old), split(new)
    gone = [l[1:] for l in body if l[0] == "-"]
    added = [l[1:] for l in body if l[0] == "+"]
    kept = [l[1:] for l in body if l[0] == " "]
    ctx.observe("body", body)
    if old == new:
        ctx.check("C31.lines", body == [], lambda: f"equal contents but {body}")
        return
    # contents are short: everything is within the context of the diff
    olds = [l[1:] for l in body if l[0] in " -"]
    news = [l[1:] for l in body if l[0] in " +"]
    ctx.check("C31.lines", len(olds) == len(a) and len(news) == len(b) and ctx.all(*[x == y for x, y in zip(olds, a)], *[x == y for x, y in zip(news, b)]), lambda: f"{old!r} -> {new!r} shown as {body}")
    # nothing is shown as changed that is common: the number of kept lines is maximal for short contents
    best = lcs(ctx, None if old is None else old.split(b"\n"), None if new is None else new.split(b"\n"))
    ctx.check("C31.minimal", len(kept) >= min(1, best), lambda: f"{old!r} -> {new!r}: no common line is shown ({body})")

def lcs(ctx, a, b):
    if not a or not b: return 0
    return 1 if any(ctx.decide(x == y) for x in a for y in b) else 0

def process(ctx, size, color):
    """The report of a failed command."""
    common.reset()
    common.set_args(no_color=not color)
    which = ctx.choice("which", ["stdout", "stderr"])
    data = content(ctx, "data", size)
    other = ctx.choice("other", [None, b"", b"x"])
    out, err = (data, other) if which == "stdout" else (other, data)
    e = subprocess.CalledProcessError(3, ["cmd"], output=out, stderr=err)
    with Terminal() as r:
        exc, _ = common.attempt(utils.print_process_error, e)
    ctx.check("C31.works", exc is None, lambda: f"{exc!r}")
    if exc is not None:
        return
    lines = r.text().split("\n")
    ctx.observe("lines", len(lines))
    heads = [i for i, l in enumerate(lines) if l[:1] == "─"]
    ctx.check("C31.shape", len(heads) >= 4, lambda: f"{lines}")
    for i, l in enumerate(lines):
        if i not in heads:
            printable(ctx, "C31.process", l, what="line of the report")
    want = [logger.decode_escape(x) for x in data.split(b"\n")]
    k = heads[1 if which == "stdout" else 2]
    got = lines[k + 1:heads[heads.index(k) + 1]]
    ctx.check("C31.complete", len(got) == len(want) and ctx.all(*[x == y for x, y in zip(got, want)]), lambda: f"{data!r} is shown as {got}")

def report(ctx, size, verbose, color, diff):
    """The report of an operation that read something remote."""
    common.reset()
    common.set_args(no_color=not color, changes=True, diff=diff, verbose=verbose)
    t = ctx.str("text", size)
    shape = ctx.choice("shape", ["text", "list", "only-initial", "bytes"])
    initial = {"text": t, "list": [t], "only-initial": t, "bytes": b"\x1b"}[shape]
    final = {"text": "new", "list": ["new"], "only-initial": t, "bytes": b"\x9b"}[shape]
    if ctx.choice("swap", [False, True]): initial, final = final, initial
    fora.script = SimpleNamespace()
    op = SimpleNamespace(op_name="op", name=None, description="/path", diffs=[("/f", b"\x1b[2J", b"x\x9b")] if diff else [])
    result = SimpleNamespace(success=True, changed=True, initial={"k": initial}, final={"k": final}, failure_message=None)
    with Terminal() as r:
        exc, _ = common.attempt(logger.print_operation, op, result)
    ctx.check("C31.works", exc is None, lambda: f"{exc!r}")
    if exc is not None:
        return
    text = r.text()
    ctx.observe("len", len(text))
    shown(ctx, text, color or diff)

def shown(ctx, text, colored):
    if not colored:
        printable(ctx, "C31.report", text, "\r\n", what="report")
        ctx.check("C31.lines", text.count("\n") <= 3, lambda: f"{text!r}")
    else:
        # colours: only sequences made of digits and semicolons up to m
        i = 0
        while i < len(text):
            c = text[i]
            if c == "\033" and i + 1 < len(text) and text[i + 1] == "[":
                j = i + 2
                while j < len(text) and text[j] in "0123456789;": j += 1
                ctx.check("C31.report", j < len(text) and text[j] == "m", lambda: f"control sequence in {text!r}")
                i = j + 1
                continue
            ctx.check("C31.report", ctx.any(c.isprintable(), c == "\r", c == "\n"), lambda: f"{c!r} in {text!r}")
            i += 1

def failure(ctx, size, color):
    """The report of a failed operation, whose message may quote something remote."""
    common.reset()
    common.set_args(no_color=not color, changes=True, diff=False, verbose=ctx.choice("verbose", [0, 1]))
    t = ctx.str("text", size)
    fora.script = SimpleNamespace()
    op = SimpleNamespace(op_name="op", name=None, description="/path", diffs=[])
    result = SimpleNamespace(success=False, changed=False, initial={}, final={}, failure_message="failed: " + t)
    with Terminal() as r:
        exc, _ = common.attempt(logger.print_operation, op, result)
    ctx.check("C31.works", exc is None, lambda: f"{exc!r}")
    if exc is not None:
        return
    text = r.text()
    ctx.observe("len", len(text))
    ctx.check("C31.message", "failed: " in text, lambda: f"{text!r}")
    shown(ctx, text, color)

def jobs(prop, tier):
    t = tier == "thorough"
    J = []
    def j(fn, **p): J.append({"name": fn + "".join(f"-{v}" for v in p.values()), "fn": fn, "params": p})
    j("escapes", form="bytes", size=3 if t else 2)
    j("escapes", form="text", size=3 if t else 2)
    for color in (True, False):
        j("differences", size=2 if t or color else 1, color=color, missing="none")
        for m in ("old", "new"): j("differences", size=3 if t else 2, color=color, missing=m)
        j("process", size=3 if t else 2, color=color)
        j("failure", size=2 if t else 1, color=color)
        for verbose in (0, 1):
            for d in (False, True):
                j("report", size=2 if t else 1, verbose=verbose, color=color, diff=d)
    return J
