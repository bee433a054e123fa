"""Models of the programs fora runs on remote hosts (GNU coreutils, shadow-utils, package and service managers, git).
A program is called with the executed process; its effects use the identity and umask of that process."""
import re
from model.world import Node, User, Group, drop_suid, World
from symx.ctx import HarnessError
from model.programs import NAMES

class Fail(Exception):
    """The program ends with a non-zero status."""
    def __init__(self, rc=1, err=b"error"):
        self.rc, self.err = rc, err

def unsupported(what):
    raise HarnessError(f"program not modelled: {what}")

def options(args, flags="", long=(), valued=(), long_valued=()):
    """getopt_long with permutation: (set of flags, dict of valued options, operands). args are text."""
    got, vals, rest = set(), {}, []
    i = 0
    while i < len(args):
        a = args[i]
        i += 1
        if a == "--":
            rest.extend(args[i:])
            break
        if not (len(a) > 1 and a.startswith("-")):
            rest.append(a)
            continue
        if a.startswith("--"):
            name = a[2:]
            if "=" in name and isinstance(name, str):
                n, v = name.split("=", 1)
                if n in long_valued:
                    vals[n] = v
                    continue
                unsupported(f"option {a}")
            hit = next((n for n in long if n == name), None)
            if hit is not None:
                got.add(hit)
                continue
            hit = next((n for n in long_valued if n == name), None)
            if hit is not None:
                if i >= len(args): raise Fail(1, b"option requires an argument")
                vals[hit] = args[i]
                i += 1
                continue
            raise Fail(1, b"unrecognized option")
        for j, c in enumerate(a[1:]):
            hit = next((f for f in flags if f == c), None)
            if hit is not None:
                got.add(hit)
                continue
            hit = next((f for f in valued if f == c), None)
            if hit is not None:
                v = a[j + 2:]
                if len(v) == 0:
                    if i >= len(args): raise Fail(1, b"option requires an argument")
                    v = args[i]
                    i += 1
                vals[hit] = v
                break
            raise Fail(1, b"invalid option")
    return got, vals, rest

def dup(v):
    if isinstance(v, dict): return {k: dup(x) for k, x in v.items()}
    if isinstance(v, list): return [dup(x) for x in v]
    if isinstance(v, set): return set(v)
    return v

class Programs:
    """Installed as world.program."""
    def __init__(self, world):
        self.w = world
        self.available = {"bash", "systemctl"}
        self.packages = {}          # name -> installed?
        self.known = None           # packages that can be installed (None: all)
        self.confirm = False        # the package manager has questions
        self.pkg_log = []
        self.units = {}             # unit -> dict(active=, enabled=) for the system instance
        self.user_units = {}
        self.unit_log = []
        self.git = {}               # path -> dict(url=, commit=, depth=, ...)
        self.remotes = {}           # url -> dict(ref -> commit)
        self.git_log = []
        self.fail_on = None         # callable(argv) -> (rc, err) or None
        self.history = []
    def copy(self, world):
        """The same programs on a copy of the machine."""
        q = Programs(world)
        for a in ("available", "packages", "known", "confirm", "units", "user_units", "git", "remotes"):
            setattr(q, a, dup(getattr(self, a)))
        for a in ("dpkg_state",):
            if hasattr(self, a): setattr(q, a, dup(getattr(self, a)))
        q.fail_on = self.fail_on
        return q
    def __call__(self, ex):
        argv = [a.decode("utf-8", "surrogateescape") for a in ex.argv]
        name = argv[0]
        self.history.append(argv)
        old, self.w.proc = self.w.proc, ex.proc
        try:
            if self.fail_on is not None:
                r = self.fail_on(argv)
                if r is not None:
                    return b"", r[1], r[0]
            f = getattr(self, "do_" + name.replace("-", "_"), None) if isinstance(name, str) else None
            if f is None:
                if isinstance(name, str) and name.rsplit("/", 1)[-1] not in NAMES:
                    return b"", b"command not found", 127
                unsupported(argv[0])
            try:
                out = f(argv[1:], ex)
                return (out if out is not None else b""), b"", 0
            except Fail as e:
                return b"", e.err, e.rc
            except OSError as e:
                return b"", b"system error", 1
        finally:
            self.w.proc = old

    # ---------------------------------------------------------------- coreutils
    def do_touch(self, args, ex):
        f, v, rest = options(args, "hcam", ("no-dereference", "no-create"))
        if not rest: raise Fail()
        for p in rest:
            follow = not ("h" in f or "no-dereference" in f)
            k, q = self.w.resolve(p, follow)
            if k is None:
                if "c" in f or "no-create" in f or not follow: continue
                if not self.w.parent_ok(q): raise Fail()
                self.w.nodes[q] = Node("file", 0o666 & ~self.w.proc.umask, self.w.proc.uid, self.w.proc.gid, b"")
                self.w.log.append(("create", q))
            else:
                self.w.nodes[k].touched += 1
                self.w.log.append(("touch", k))
    def mode_of(self, s):
        if len(s) == 0: raise Fail()
        v = 0
        for c in s:
            if not (c >= "0" and c <= "7"):
                if isinstance(s, str) and any(x in s for x in "ugoa+-="): unsupported(f"chmod {s}")
                raise Fail()
            v = v * 8 + (ord(c) - 48)
        if v > 0o7777: raise Fail()
        return v
    def do_chmod(self, args, ex):
        f, v, rest = options(args, "Rcfv", ("recursive", "preserve-root", "no-preserve-root"))
        if len(rest) < 2: raise Fail()
        mode = self.mode_of(rest[0])
        for p in rest[1:]:
            n = self.w.need(p, True)
            self.w.may_change(n)
            self.w.log.append(("chmod", p))
            self.set_mode(n, mode, rest[0])
            if "R" in f or "recursive" in f:
                for q in self.below(p):
                    if self.w.nodes[q].kind != "link":
                        self.w.log.append(("chmod", q))
                        self.set_mode(self.w.nodes[q], mode, rest[0])
    def set_mode(self, n, mode, text):
        if n.kind == "dir" and len(text) < 5:
            # numeric modes keep the set-id bits of directories unless given with five digits
            n.perm = mode | (n.perm & 0o6000)
        else:
            n.perm = mode
    def below(self, path):
        """Everything inside a directory (links are not followed)."""
        k, q = self.w.resolve(path, False)
        return [x for x in self.w.nodes if x is not k and x.startswith(k + "/")] if k is not None and self.w.nodes[k].kind == "dir" else []
    def ids_of(self, spec):
        """user[:group]"""
        u = g = None
        if ":" in spec:
            u, g = spec.split(":", 1)
        else:
            u = spec
        uid = gid = -1
        if len(u): uid, pg = self.lookup_user(u)
        if g is not None:
            if len(g): gid = self.lookup_group(g)
            elif len(u): gid = pg
        return uid, gid
    def lookup_user(self, u):
        for x in self.w.users:
            if x.name == u: return x.uid, x.gid
        if not u.isdigit(): raise Fail(1, b"invalid user")
        return int(u), None
    def lookup_group(self, g):
        for x in self.w.groups:
            if x.name == g: return x.gid
        if not g.isdigit(): raise Fail(1, b"invalid group")
        return int(g)
    def do_chown(self, args, ex):
        f, v, rest = options(args, "hRcfv", ("no-dereference", "recursive", "dereference"))
        if len(rest) < 2: raise Fail()
        uid, gid = self.ids_of(rest[0])
        for p in rest[1:]:
            n = self.w.need(p, not ("h" in f or "no-dereference" in f))
            self.w.do_chown(n, uid, gid, p)
            if "R" in f or "recursive" in f:
                for q in self.below(p):
                    self.w.do_chown(self.w.nodes[q], uid, gid, q)
    def do_chgrp(self, args, ex):
        f, v, rest = options(args, "hRcfv", ("no-dereference", "recursive"))
        if len(rest) < 2: raise Fail()
        gid = self.lookup_group(rest[0])
        for p in rest[1:]:
            n = self.w.need(p, not ("h" in f or "no-dereference" in f))
            self.w.do_chown(n, -1, gid, p)
    def do_mkdir(self, args, ex):
        f, v, rest = options(args, "pv", ("parents",), "m", ("mode",))
        if not rest: raise Fail()
        for p in rest:
            k, q = self.w.resolve(p, False)
            if k is not None:
                if ("p" in f or "parents" in f) and self.w.nodes[k].kind == "dir": continue
                raise Fail()
            if not self.w.parent_ok(q):
                if not ("p" in f or "parents" in f): raise Fail()
                d, missing = q.rsplit("/", 1)[0], []
                while len(d) and self.w.find(d) is None:
                    missing.insert(0, d)
                    d = d.rsplit("/", 1)[0]
                if len(d) and self.w.nodes[self.w.find(d)].kind != "dir": raise Fail()
                for x in missing:
                    self.w.nodes[x] = Node("dir", 0o777 & ~self.w.proc.umask, self.w.proc.uid, self.w.proc.gid)
                    self.w.log.append(("create", x))
            m = v.get("m", v.get("mode"))
            self.w.nodes[q] = Node("dir", self.mode_of(m) if m is not None else 0o777 & ~self.w.proc.umask, self.w.proc.uid, self.w.proc.gid)
            self.w.log.append(("create", q))
    def do_rm(self, args, ex):
        f, v, rest = options(args, "rRfvd", ("recursive", "force"))
        if not rest: raise Fail()
        for p in rest:
            k, q = self.w.resolve(p, False)
            if k is None:
                if "f" in f or "force" in f: continue
                raise Fail()
            if self.w.nodes[k].kind == "dir" and not ("r" in f or "R" in f or "recursive" in f): raise Fail()
            for x in [x for x in self.w.nodes if x is not k and x.startswith(k + "/")]:
                del self.w.nodes[x]
            del self.w.nodes[k]
            self.w.log.append(("unlink", k))
    def do_rmdir(self, args, ex):
        f, v, rest = options(args)
        for p in rest:
            k, q = self.w.resolve(p, False)
            if k is None or self.w.nodes[k].kind != "dir" or any(x is not k and x.startswith(k + "/") for x in self.w.nodes): raise Fail()
            del self.w.nodes[k]
            self.w.log.append(("unlink", k))
    def do_ln(self, args, ex):
        f, v, rest = options(args, "sfnTvi", ("symbolic", "force", "no-dereference", "no-target-directory"))
        if len(rest) != 2: raise Fail()
        target, path = rest
        hard = None if "s" in f or "symbolic" in f else self.w.need(target, False)
        if hard is not None and hard.kind == "dir": raise Fail()
        if len(target) == 0: raise Fail()
        exact = "T" in f or "no-target-directory" in f
        nofollow = "n" in f or "no-dereference" in f
        k, q = self.w.resolve(path, False)
        if k is not None and not exact:
            n = self.w.nodes[k]
            into = n.kind == "dir"
            if n.kind == "link" and not nofollow:
                k2, _ = self.w.resolve(path, True)
                into = k2 is not None and self.w.nodes[k2].kind == "dir"
                if into: k = k2
            if into:
                base = target.rstrip("/").rsplit("/", 1)[-1]
                q = k + "/" + base
                k = self.w.find(q)
        if k is not None:
            if self.w.nodes[k].kind == "dir" or not ("f" in f or "force" in f): raise Fail()
            del self.w.nodes[k]
        elif not self.w.parent_ok(q): raise Fail()
        self.w.nodes[q] = hard if hard is not None else Node("link", 0o777, self.w.proc.uid, self.w.proc.gid, target=target)
        self.w.log.append(("link", q))
    def do_readlink(self, args, ex):
        f, v, rest = options(args, "n", ("no-newline",))
        if len(rest) != 1: raise Fail()
        n = self.w.need(rest[0], False)
        if n.kind != "link": raise Fail()
        return n.target.encode("utf-8", "surrogateescape") + (b"" if "n" in f or "no-newline" in f else b"\n")
    def do_cp(self, args, ex):
        f, v, rest = options(args, "apTvf", ("archive", "no-target-directory"), "", ("preserve",))
        if len(rest) != 2: raise Fail()
        keep = "a" in f or "archive" in f or "p" in f
        n = self.w.need(rest[0], not ("a" in f or "archive" in f))
        if n.kind == "dir" and not ("a" in f or "archive" in f): raise Fail()
        if n.kind != "file": unsupported("cp of a non-file")
        k, q = self.w.resolve(rest[1], True)
        if k is not None and self.w.nodes[k].kind == "dir":
            q = k + "/" + rest[0].rsplit("/", 1)[-1]
            k = self.w.find(q)
        if k is None and not self.w.parent_ok(q): raise Fail()
        if k is None:
            c = Node("file", n.perm & ~self.w.proc.umask & 0o777, self.w.proc.uid, self.w.proc.gid, n.content)
        else:
            c = self.w.nodes[k]
            if c.kind != "file": unsupported("cp onto a non-file")
            c.content = n.content
        if keep: c.perm, c.uid, c.gid, c.mtime = n.perm, n.uid, n.gid, n.mtime
        self.w.nodes[k if k is not None else q] = c
        self.w.log.append(("copy", q))
    def do_mv(self, args, ex):
        f, v, rest = options(args, "fTvn")
        if len(rest) != 2: raise Fail()
        self.w.rename(rest[0], rest[1])
    def do_unlink(self, args, ex):
        if len(args) != 1: raise Fail()
        self.w.unlink(args[0])
    def do_truncate(self, args, ex):
        f, v, rest = options(args, "c", ("no-create",), "s", ("size",))
        if not rest: raise Fail()
        size = self.num(v.get("s", v.get("size", "x")))
        for p in rest:
            k, q = self.w.resolve(p)
            if k is None:
                if "c" in f or "no-create" in f: continue
                if not self.w.parent_ok(q): raise Fail()
                self.w.nodes[q] = Node("file", 0o666 & ~self.w.proc.umask, self.w.proc.uid, self.w.proc.gid, b"\0" * size)
                self.w.log.append(("create", q))
                continue
            n = self.w.nodes[k]
            if n.kind != "file": raise Fail()
            n.content = n.content[:size] + b"\0" * max(0, size - len(n.content))
            self.w.log.append(("truncate", k))
    def do_cat(self, args, ex):
        f, v, rest = options(args)
        out = b""
        for p in rest:
            n = self.w.need(p)
            if n.kind != "file": raise Fail()
            out = out + n.content
        return out
    def do_tee(self, args, ex):
        f, v, rest = options(args, "a", ("append",))
        data = ex.stdin if ex.stdin is not None else b""
        for p in rest:
            k, q = self.w.resolve(p)
            if k is None:
                if not self.w.parent_ok(q): raise Fail()
                self.w.nodes[q] = Node("file", 0o666 & ~self.w.proc.umask, self.w.proc.uid, self.w.proc.gid, data)
            else:
                n = self.w.nodes[k]
                if n.kind != "file": raise Fail()
                n.content = n.content + data if "a" in f or "append" in f else data
            self.w.log.append(("write", q))
        return data
    def do_echo(self, args, ex):
        out = b""
        for i, a in enumerate(args):
            out = out + (b" " if i else b"") + a.encode("utf-8", "surrogateescape")
        return out + b"\n"
    def do_install(self, args, ex):
        f, v, rest = options(args, "dDTv", ("directory",), "mog", ("mode", "owner", "group"))
        m, o, g = (v.get(a, v.get(b)) for a, b in (("m", "mode"), ("o", "owner"), ("g", "group")))
        mode = self.mode_of(m) if m is not None else 0o755
        uid = self.lookup_user(o)[0] if o is not None else -1
        gid = self.lookup_group(g) if g is not None else -1
        if not rest: raise Fail()
        if "d" in f or "directory" in f:
            targets = rest
            for p in rest:
                k, q = self.w.resolve(p)
                if k is None:
                    self.do_mkdir(["-p", "--", p], ex)
                elif self.w.nodes[k].kind != "dir": raise Fail()
        else:
            if len(rest) != 2: raise Fail()
            self.do_cp(["--"] + rest, ex)
            k, q = self.w.resolve(rest[1])
            targets = [q if self.w.nodes[k].kind != "dir" else k + "/" + rest[0].rsplit("/", 1)[-1]]
        for p in targets:
            n = self.w.need(p)
            n.perm = mode
            self.w.log.append(("chmod", p))
            self.w.do_chown(n, uid, gid, p)
    def do_env(self, args, ex):
        while args and "=" in args[0]: args = args[1:]
        f = getattr(self, "do_" + args[0].replace("-", "_"), None) if args and isinstance(args[0], str) else None
        if f is None: unsupported("env " + " ".join(map(str, args)))
        return f(args[1:], ex)
    def do_true(self, args, ex): pass
    def do_false(self, args, ex): raise Fail()
    def do_test(self, args, ex):
        want = {"-e": None, "-d": "dir", "-f": "file", "-L": "link", "-h": "link", "-p": "fifo"}
        neg = len(args) == 3 and args[0] == "!"
        if neg: args = args[1:]
        if len(args) == 2 and args[0] in want:
            k, q = self.w.resolve(args[1], args[0] not in ("-L", "-h"))
            kind = self.w.nodes[k].kind if k is not None else None
            ok = kind is not None and want[args[0]] in (None, kind)
            if ok == neg: raise Fail()
            return None
        unsupported("test " + " ".join(args))

    # ---------------------------------------------------------------- shell look-up of commands
    def do_bash(self, args, ex):
        if len(args) != 2 or args[0] != "-c": unsupported("bash")
        # alternatives separated by ||; each reports a command it finds
        for seg in args[1].split("||"):
            m = re.search(r"echo\s+['\"]?([A-Za-z0-9_.-]+)", seg)
            t = re.search(r"(?:type|command -v|which|hash)\s+(?:&>/dev/null\s+|>/dev/null\s+|-\w+\s+)*['\"]?([A-Za-z0-9_.-]+)", seg)
            if m is None: unsupported("bash " + args[1])
            if t is None or t.group(1) in self.available:
                return m.group(1).encode() + b"\n"
        raise Fail()
    do_sh = do_bash

    # ---------------------------------------------------------------- accounts
    def user(self, name):
        for u in self.w.users:
            if u.name == name: return u
        return None
    def group_by(self, spec):
        """A group by name or number."""
        for g in self.w.groups:
            if g.name == spec: return g
        if spec.isdigit():
            for g in self.w.groups:
                if g.gid == int(spec): return g
        return None
    def num(self, s):
        # a non-negative decimal number, possibly symbolic
        for c in s:
            if not (c >= "0" and c <= "9"): raise Fail(3)
        return int(s)
    def set_groups(self, name, spec, append=False):
        names = [x for x in spec.split(",") if len(x)]
        gs = []
        for x in names:
            g = self.group_by(x)
            if g is None: raise Fail(6, b"group does not exist")
            gs.append(g)
        for g in self.w.groups:
            inside = any(g is h for h in gs)
            if inside and name not in g.members: g.members.append(name)
            elif not inside and not append and name in g.members: g.members.remove(name)
    UL = ("system", "user-group", "no-user-group", "no-create-home", "create-home", "non-unique", "append", "move-home")
    UV = ("uid", "gid", "groups", "comment", "home-dir", "home", "shell", "password")
    MAP = {"u": "uid", "g": "gid", "G": "groups", "c": "comment", "s": "shell", "p": "password"}
    def uopts(self, args, hd):
        f, v, rest = options(args, "rUNMmoa", self.UL, "ugGcsd" + "p", self.UV)
        m = dict(self.MAP, d=hd)
        vals = {}
        for k, x in v.items():
            vals[m.get(k, k)] = x
        fm = {"r": "system", "U": "user-group", "N": "no-user-group", "M": "no-create-home", "m": "create-home", "o": "non-unique", "a": "append"}
        return {fm.get(x, x) for x in f}, vals, rest
    def check_text(self, s):
        if ":" in s or "\n" in s: raise Fail(3, b"invalid field")
    def do_useradd(self, args, ex):
        f, v, rest = self.uopts(args, "home-dir")
        if len(rest) != 1: raise Fail(2)
        name = rest[0]
        if not self.w.root(): raise Fail(1)
        if self.user(name) is not None: raise Fail(9)
        uid = self.num(v["uid"]) if "uid" in v else None
        if uid is not None and any(u.uid == uid for u in self.w.users) and "non-unique" not in f: raise Fail(4)
        if uid is None: uid = 900 if "system" in f else 1900
        for k in ("comment", "home-dir", "shell"):
            if k in v: self.check_text(v[k])
        if "groups" in v and any(self.group_by(x) is None for x in v["groups"].split(",") if len(x)): raise Fail(6)
        if "gid" in v:
            g = self.group_by(v["gid"])
            if g is None: raise Fail(6)
            gid = g.gid
        elif "no-user-group" in f: gid = 100
        else:
            if any(g.name == name for g in self.w.groups): raise Fail(9)
            gid = 1901
            self.w.groups.append(Group(name, gid))
        if "groups" in v: self.set_groups(name, v["groups"])
        self.w.users.append(User(name, uid, gid, v.get("comment", ""), v.get("home-dir", "/home/" + name), v.get("shell", "/bin/sh"), v.get("password", "!")))
        self.w.log.append(("useradd", name))
        if "create-home" in f:
            h = v.get("home-dir", "/home/" + name)
            k, q = self.w.resolve(h, True)
            if k is None and self.w.parent_ok(q): self.w.nodes[q] = Node("dir", 0o755, uid, gid)
    def do_usermod(self, args, ex):
        f, v, rest = self.uopts(args, "home")
        if len(rest) != 1: raise Fail(2)
        if not self.w.root(): raise Fail(1)
        u = self.user(rest[0])
        if u is None: raise Fail(6)
        if not v: raise Fail(2)
        if "uid" in v:
            n = self.num(v["uid"])
            if any(x is not u and x.uid == n for x in self.w.users) and "non-unique" not in f: raise Fail(4)
            u.uid = n
        if "gid" in v:
            g = self.group_by(v["gid"])
            if g is None: raise Fail(6)
            u.gid = g.gid
        for k in ("comment", "home", "shell"):
            if k in v: self.check_text(v[k])
        if "groups" in v: self.set_groups(u.name, v["groups"], "append" in f)
        if "comment" in v: u.gecos = v["comment"]
        if "home" in v: u.home = v["home"]
        if "shell" in v: u.shell = v["shell"]
        if "password" in v: u.pw_hash = v["password"]
        self.w.log.append(("usermod", u.name))
    def do_userdel(self, args, ex):
        f, v, rest = options(args, "rf", ("remove", "force"))
        if len(rest) != 1: raise Fail(2)
        u = self.user(rest[0])
        if u is None: raise Fail(6)
        if "r" in f or "remove" in f:
            for p in [p for p in self.w.nodes if p == u.home or p.startswith(u.home + "/")]:
                del self.w.nodes[p]
                self.w.log.append(("unlink", p))
        self.w.users.remove(u)
        for g in self.w.groups:
            if u.name in g.members: g.members.remove(u.name)
        self.w.log.append(("userdel", u.name))
    def do_groupadd(self, args, ex):
        f, v, rest = options(args, "rf", ("system", "force"), "g", ("gid",))
        if len(rest) != 1: raise Fail(2)
        if not self.w.root(): raise Fail(1)
        if any(g.name == rest[0] for g in self.w.groups): raise Fail(9)
        gid = v.get("g", v.get("gid"))
        gid = self.num(gid) if gid is not None else (901 if "system" in f or "r" in f else 1902)
        if any(g.gid == gid for g in self.w.groups): raise Fail(4)
        self.w.groups.append(Group(rest[0], gid))
        self.w.log.append(("groupadd", rest[0]))
    def do_groupmod(self, args, ex):
        f, v, rest = options(args, "o", (), "gn", ("gid", "new-name"))
        if len(rest) != 1: raise Fail(2)
        g = next((g for g in self.w.groups if g.name == rest[0]), None)
        if g is None: raise Fail(6)
        gid = v.get("g", v.get("gid"))
        if gid is None: raise Fail(2)
        n = self.num(gid)
        if any(x is not g and x.gid == n for x in self.w.groups): raise Fail(4)
        old = g.gid
        g.gid = n
        for u in self.w.users:
            if u.gid == old: u.gid = n
        self.w.log.append(("groupmod", g.name))
    def do_groupdel(self, args, ex):
        f, v, rest = options(args, "f", ("force",))
        if len(rest) != 1: raise Fail(2)
        g = next((g for g in self.w.groups if g.name == rest[0]), None)
        if g is None: raise Fail(6)
        if any(u.gid == g.gid for u in self.w.users): raise Fail(8)
        self.w.groups.remove(g)
        self.w.log.append(("groupdel", g.name))

    # ---------------------------------------------------------------- packages
    def installed(self, p):
        for k in self.packages:
            if k == p: return self.packages[k]
        return False
    def set_pkg(self, p, on, opts):
        for k in self.packages:
            if k == p:
                key = k
                break
        else: raise Fail(100, b"no such package")
        self.pkg_log.append(("install" if on else "remove", key, list(opts)))
        self.w.log.append(("package", key))
        if not on and not self.packages[key]: raise Fail(1, b"not installed")
        self.packages[key] = on
    def need_cmd(self, name):
        if name not in self.available: raise Fail(127)
    def split(self, args):
        """(options, operands) where operands follow -- or are not options."""
        opts, rest = [], []
        for i, a in enumerate(args):
            if a == "--":
                rest.extend(args[i + 1:])
                break
            (opts if a.startswith("-") and len(a) > 1 else rest).append(a)
        return opts, rest
    def do_pacman(self, args, ex):
        args = list(args)
        if "--color" in args:
            i = args.index("--color")
            del args[i:i + 2]
        opts, rest = self.split(args)
        op = next((o for o in opts if isinstance(o, str) and o[1:2] in ("S", "R", "Q")), None)
        long = {"--query": "-Q", "--sync": "-S", "--remove": "-R"}
        if op is None: op = next((long[o] for o in opts if o in long), None)
        if op is None or not rest: raise Fail()
        extra = [o for o in opts if o != op and o != "--noconfirm"]
        if op.startswith("-Q"):
            for p in rest:
                if not self.installed(p): raise Fail()
            return b"pkg /file\n"
        if "--noconfirm" not in opts: raise Fail()
        for p in rest: self.set_pkg(p, op.startswith("-S"), extra)
    def do_dpkg_query(self, args, ex):
        args = list(args)
        opts, rest = self.split(args)
        if not ("--show" in opts or "-W" in opts or "-s" in opts or "--status" in opts): raise Fail(2)
        for p in rest:
            known = any(k == p for k in self.packages)
            st = self.dpkg_state.get(p) if isinstance(p, str) else None
            if not known: raise Fail(1, b"no packages found matching")
            if self.installed(p): return b"install ok installed"
            if st is None: raise Fail(1, b"no packages found matching")
            return st
        raise Fail(2)
    dpkg_state = {}
    def do_dpkg(self, args, ex): return self.do_dpkg_query(args, ex)
    def do_apt_get(self, args, ex):
        opts, rest = self.split(list(args))
        if not rest: raise Fail()
        verb, rest = rest[0], rest[1:]
        if verb not in ("install", "remove", "purge"): raise Fail(100)
        yes = {"-y", "--yes", "--assume-yes", "-qq"}
        extra = [o for o in opts if not (isinstance(o, str) and o in yes)]
        if self.confirm and not any(o in yes for o in opts if isinstance(o, str)): raise Fail(1, b"Abort.")
        for p in rest: self.set_pkg(p, verb == "install", extra)
    def do_emerge(self, args, ex):
        opts, rest = self.split(list(args))
        if "--info" in opts:
            for p in rest:
                if not any(k == p for k in self.packages): raise Fail(1)
            return b"System uname: x\n" + b"".join(b"dev/x was built with the following:\n" for p in rest if self.installed(p))
        if any(o in ("--ask", "-a") for o in opts): raise Fail()
        std = {"--color=y", "--verbose", "-v"}
        remove = any(o in ("--depclean", "-c", "--unmerge", "-C", "--deselect") for o in opts)
        extra = [o for o in opts if o not in std and o not in ("--depclean", "-c", "--unmerge", "-C")]
        if not rest: raise Fail()
        for p in rest: self.set_pkg(p, not remove, extra)

    # ---------------------------------------------------------------- systemctl
    def do_systemctl(self, args, ex):
        self.need_cmd("systemctl")
        opts, rest, vals = [], [], {}
        args = list(args)
        i = 0
        dd = False
        while i < len(args):
            a = args[i]
            i += 1
            if not dd and a == "--": dd = True
            elif not dd and a in ("--property", "-p"):
                vals["property"] = args[i]
                i += 1
            elif not dd and isinstance(a, str) and (a.startswith("--property=") or (a.startswith("-p") and len(a) > 2)):
                vals["property"] = a.split("=", 1)[1] if a.startswith("--") else a[2:]
            elif not dd and a.startswith("-"): opts.append(a)
            else: rest.append(a)
        if not rest: raise Fail()
        user = "--user" in opts
        units = self.user_units if user else self.units
        verb = rest[0]
        if verb == "daemon-reload":
            self.unit_log.append((user, verb, None))
            self.w.log.append(("systemctl", verb))
            return None
        names = rest[1:]
        if len(names) != 1: raise Fail()
        u = None
        for k in units:
            if k == names[0]: u = units[k]
        if verb == "show":
            val = {"ActiveState": u["active"] if u else "inactive", "UnitFileState": u["enabled"] if u else "", "LoadState": "loaded" if u else "not-found"}.get(vals.get("property"))
            if val is None:
                if vals.get("property") in (None, "SubState", "Result", "MainPID", "Id", "Names", "FragmentPath", "UnitFilePreset", "Type", "CanReload", "NeedDaemonReload"): unsupported(f"systemctl show {vals}")
                val = ""
            return (val if "--value" in opts else f"{vals['property']}={val}").encode() + b"\n"
        if verb in ("is-active", "is-enabled"):
            val = (u["active"] if verb == "is-active" else u["enabled"]) if u else "unknown"
            if val in ("active", "enabled", "static", "alias", "indirect", "generated", "enabled-runtime"): return val.encode() + b"\n"
            raise Fail(3)
        if u is None: raise Fail(5)
        self.unit_log.append((user, verb, names[0]))
        self.w.log.append(("systemctl", verb))
        active = u["active"] in ("active", "reloading", "activating")
        if verb == "start": u["active"] = "active"
        elif verb == "stop": u["active"] = "inactive"
        elif verb == "restart": u["active"] = "active"; u["restarts"] = u.get("restarts", 0) + 1
        elif verb == "reload":
            if not active: raise Fail(1)
            u["reloads"] = u.get("reloads", 0) + 1
        elif verb == "enable":
            if u["enabled"] == "masked": raise Fail(1)
            u["enabled"] = "enabled"
        elif verb == "disable":
            u["enabled"] = "disabled" if u["enabled"] == "enabled" else u["enabled"]
        elif verb == "reenable": u["enabled"] = "enabled"
        elif verb == "mask": u["enabled"] = "masked"
        elif verb == "unmask": u["enabled"] = "disabled" if u["enabled"] == "masked" else u["enabled"]
        elif verb == "kill": u["active"] = "inactive"
        elif verb in ("reload-or-restart", "try-restart", "try-reload-or-restart"):
            if active and "reload" in verb: u["reloads"] = u.get("reloads", 0) + 1
            elif active or verb == "reload-or-restart": u["active"] = "active"; u["restarts"] = u.get("restarts", 0) + 1
        elif verb in ("preset", "edit", "link", "revert", "isolate", "clean", "freeze", "thaw", "set-property", "cat", "status", "is-failed", "reset-failed", "list-units"): unsupported(f"systemctl {verb}")
        else: raise Fail(1)
        if "--now" in opts and verb in ("enable", "disable", "mask"):
            u["active"] = "active" if verb == "enable" else "inactive"
            self.unit_log.append((user, "start" if verb == "enable" else "stop", names[0]))

    # ---------------------------------------------------------------- git
    def do_git(self, args, ex):
        args = list(args)
        path = None
        while args and args[0] == "-C":
            path = args[1]
            args = args[2:]
        if not args: raise Fail(1)
        verb, args = args[0], args[1:]
        if verb.startswith("-"):
            if verb in ("--version", "--help", "-v", "-h"): return b""
            if verb in ("-c", "--git-dir", "--work-tree", "--no-pager", "-p", "--bare", "--exec-path", "--namespace"): unsupported(f"git {verb}")
            raise Fail(129)
        if verb == "ls-remote":
            f, v, rest = options(args, "qht", ("exit-code", "heads", "tags", "refs"))
            if len(rest) < 1: raise Fail(129)
            r = self.remote(rest[0])
            if r is None: raise Fail(128)
            pats = rest[1:]
            out = b""
            for ref, commit in r:
                if not pats or any(ref == pat or ref.endswith("/" + pat) for pat in pats):
                    out = out + commit.encode() + b"\t" + ref.encode() + b"\n"
            if len(out) == 0 and "exit-code" in f: raise Fail(2)
            return out
        if verb == "clone":
            f, v, rest = options(args, "q", ("recurse-submodules", "shallow-submodules", "recursive", "single-branch", "no-single-branch"), "b", ("depth", "branch"))
            if len(rest) != 2: raise Fail(129)
            r = self.remote(rest[0])
            if r is None: raise Fail(128)
            b = v.get("branch", v.get("b"))
            commit = self.ref(r, b if b is not None else "HEAD")
            if commit is None: raise Fail(128)
            k, q = self.w.resolve(rest[1], True)
            if k is not None: raise Fail(128)
            if not self.w.parent_ok(q): raise Fail(128)
            self.w.nodes[q] = Node("dir", 0o755)
            self.w.nodes[q + "/.git"] = Node("dir", 0o755)
            self.w.log.append(("clone", q))
            self.git[q] = {"url": rest[0], "commit": commit, "branch": b}
            self.git_log.append(("clone", rest[0], q, dict(v), sorted(f)))
            return None
        if verb not in ("add am apply archive bisect blame branch bundle cat-file checkout cherry-pick clean commit config describe diff fetch for-each-ref gc grep init log ls-files ls-tree merge merge-base mv notes"
                        " pull push rebase reflog remote reset restore rev-list rev-parse revert rm show show-ref stash status submodule switch symbolic-ref tag update-ref worktree").split(): raise Fail(1)
        if path is None: path = ex.proc.cwd
        g = None
        for k in self.git:
            if k == path: g = self.git[k]
        if g is None: raise Fail(128)
        if verb == "rev-parse":
            names = [a for a in args if not a.startswith("-")]
            if any(a.startswith("-") and a not in ("--verify", "--quiet", "-q") for a in args) or any(a.startswith(("refs/", "origin", "@", "HEAD", "FETCH")) and a not in ("HEAD", "@", "HEAD^{commit}", "HEAD^0", "HEAD~0") for a in names):
                unsupported(f"rev-parse {args}")
            if len(names) != 1 or names[0] not in ("HEAD", "@", "HEAD^{commit}", "HEAD^0", "HEAD~0"): raise Fail(128)
            return g["commit"].encode() + b"\n"
        if verb == "config":
            names = [a for a in args if not a.startswith("-")]
            if any(a.startswith("-") and a not in ("--get", "--local") for a in args): unsupported(f"git config {args}")
            if len(names) != 1: unsupported(f"git config {args}")
            if names[0] != "remote.origin.url":
                if names[0] in ("branch.master.merge", "branch.main.merge", "core.bare", "remote.origin.fetch", "user.name", "user.email"): unsupported(f"git config {args}")
                raise Fail(1)
            if g["url"] is None: raise Fail(1)
            return g["url"].encode() + b"\n"
        if verb == "remote":
            if list(args) != ["get-url", "origin"]:
                if not args or args[0] in ("-v", "show", "update", "set-url", "get-url", "add", "remove", "rename", "prune"): unsupported(f"git remote {args}")
                raise Fail(1)
            return g["url"].encode() + b"\n"
        if verb == "pull":
            f, v, rest = options(args, "qr", ("rebase", "ff-only", "no-rebase", "ff", "tags", "force"), "", ("depth",))
            self.git_log.append(("pull", g["url"], path, dict(v), sorted(f), list(rest)))
            self.w.log.append(("pull", path))
            r = self.remote(g["url"])
            if r is None: raise Fail(128)
            b = rest[1] if len(rest) > 1 else g.get("branch")
            c = self.ref(r, b if b is not None else "HEAD")
            if c is None: raise Fail(1)
            g["commit"] = c
            return None
        if verb == "submodule":
            if not args: return b""
            if args[0] != "update":
                if args[0] in ("init", "sync", "status", "foreach", "summary", "add", "deinit", "set-url", "set-branch", "absorbgitdirs"): unsupported("git submodule")
                raise Fail(1)
            f, v, rest = options(args[1:], "", ("init", "recursive"), "", ("depth", "jobs"))
            self.git_log.append(("submodule", path, dict(v), sorted(f)))
            self.w.log.append(("submodule", path))
            return None
        unsupported(f"git {verb}")
    def remote(self, url):
        for k in self.remotes:
            if k == url: return self.remotes[k]
        return None
    def ref(self, r, name):
        for p in (name, "refs/heads/" + name, "refs/tags/" + name + "^{}", "refs/tags/" + name):
            for ref, c in r:
                if ref == p: return c
        return None
