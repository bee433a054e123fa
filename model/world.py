"""A model of one machine: file system, accounts, environment and process attributes.
Works on ordinary and on symbolic values; every public operation is one modelled system call."""

import errno
import os
import stat as st

from symx.values import ite

KINDS = {"file": st.S_IFREG, "dir": st.S_IFDIR, "link": st.S_IFLNK, "fifo": st.S_IFIFO, "chr": st.S_IFCHR, "blk": st.S_IFBLK, "sock": st.S_IFSOCK}

class Node:
    def __init__(self, kind, perm=0o644, uid=0, gid=0, content=b"", target=None, mtime=0, ctime=0, size=None):
        self.kind, self.perm, self.uid, self.gid = kind, perm, uid, gid
        self.content, self.target, self.mtime, self.ctime = content, target, mtime, ctime
        self.fixed_size = size
        self.touched = 0
    def copy(self):
        n = Node(self.kind, self.perm, self.uid, self.gid, self.content, self.target, self.mtime, self.ctime, self.fixed_size)
        n.touched = self.touched
        return n
    def size(self):
        if self.fixed_size is not None:
            return self.fixed_size
        if self.kind == "file":
            return len(self.content)
        if self.kind == "link":
            return len(self.target)
        return 4096

class User:
    def __init__(self, name, uid, gid, gecos="", home="/", shell="/bin/sh", pw_hash="!"):
        self.name, self.uid, self.gid, self.gecos, self.home, self.shell, self.pw_hash = name, uid, gid, gecos, home, shell, pw_hash
    def copy(self):
        return User(self.name, self.uid, self.gid, self.gecos, self.home, self.shell, self.pw_hash)

class Group:
    def __init__(self, name, gid, members=()):
        self.name, self.gid, self.members = name, gid, list(members)
    def copy(self):
        return Group(self.name, self.gid, list(self.members))

class Proc:
    """Attributes of a process."""
    def __init__(self, uid=0, gid=0, groups=(0,), umask=0o022, cwd="/"):
        self.ruid = self.uid = self.suid = uid
        self.rgid = self.gid = self.sgid = gid
        self.groups, self.umask, self.cwd = list(groups), umask, cwd
    def fork(self):
        p = Proc(self.uid, self.gid, self.groups, self.umask, self.cwd)
        p.ruid, p.suid, p.rgid, p.sgid = self.ruid, self.suid, self.rgid, self.sgid
        return p

class Executed:
    """One process that reached exec."""
    def __init__(self, argv, proc, stdin, stdout, stderr, env):
        self.argv, self.proc, self.stdin, self.stdout, self.stderr, self.env = argv, proc, stdin, stdout, stderr, env

class StatRes:
    _fields = ("st_mode", "st_ino", "st_dev", "st_nlink", "st_uid", "st_gid", "st_size", "st_atime", "st_mtime", "st_ctime")
    def __init__(self, node, ino):
        self.st_mode = KINDS[node.kind] + node.perm if node.kind in KINDS else node.perm + 0o170000
        self.st_ino, self.st_dev, self.st_nlink = ino, 1, 1
        self.st_uid, self.st_gid, self.st_size = node.uid, node.gid, node.size()
        self.st_mtime_ns, self.st_ctime_ns, self.st_atime_ns = node.mtime, node.ctime, node.mtime
    @property
    def st_mtime(self): return self.st_mtime_ns / 1000000000
    @property
    def st_ctime(self): return self.st_ctime_ns / 1000000000
    @property
    def st_atime(self): return self.st_atime_ns / 1000000000
    def __getitem__(self, i): return getattr(self, self._fields[i])

class Entry:
    """passwd/group/shadow entry: attributes and tuple access."""
    def __init__(self, **kw):
        self._names = list(kw)
        self.__dict__.update(kw)
    def __getitem__(self, i): return self.__dict__[self._names[i]]
    def __iter__(self): return iter([self.__dict__[n] for n in self._names])

def check_text(s):
    """What the C layer of Python does with a text argument."""
    if isinstance(s, bytes):
        return s
    b = s.encode("utf-8", "surrogateescape")
    if "\0" in s:
        raise ValueError("embedded null byte")
    return b

class World:
    def __init__(self, users=(), groups=(), env=None, proc=None):
        self.nodes = {}                 # path -> Node
        self.users, self.groups = list(users), list(groups)
        self.env = dict(env or {})
        self.proc = proc or Proc()
        self.executed = []              # Executed
        self.log = []                   # changes of the file system
        self.calls = []                 # names of modelled calls
        self.fault = None               # callable(name) that may raise
        self.program = None             # callable(Executed) -> (stdout, stderr, returncode)
        self.exec_error = None          # callable(argv) -> errno or None
        self.spawned = 0
        self.channel_reads = 0
        self.channel_writes = []
        self.now = 1000
    def copy(self):
        w = World([u.copy() for u in self.users], [g.copy() for g in self.groups], self.env, self.proc.fork())
        w.nodes = {p: n.copy() for p, n in self.nodes.items()}
        w.now = self.now
        return w

    # -- faults
    def syscall(self, name):
        self.calls.append(name)
        if self.fault is not None:
            self.fault(name)

    # -- paths
    def find(self, path):
        """The node entry (path key) equal to the given path, or None."""
        for p in self.nodes:
            if p == path:
                return p
        return None
    def clean(self, path):
        if isinstance(path, bytes):
            path = path.decode("utf-8", "surrogateescape")
        check_text(path)
        if len(path) == 0:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        if not path.startswith("/"):
            path = os.path.join(self.proc.cwd, path)
        if isinstance(path, str):
            path = os.path.normpath(path)
        return path
    def resolve(self, path, follow=True):
        """(key or None, final path) after following links."""
        path = self.clean(path)
        for _ in range(10):
            k = self.find(path)
            if k is None and type(path) is str:
                # a directory on the way may be a link
                for q in self.nodes:
                    if self.nodes[q].kind == "link" and type(q) is str and path.startswith(q + "/"):
                        t = self.nodes[q].target
                        path = os.path.normpath(os.path.join(os.path.dirname(q), t) + path[len(q):])
                        break
                else:
                    return k, path
                continue
            if k is None or not follow or self.nodes[k].kind != "link":
                return k, path
            t = self.nodes[k].target
            path = t if t.startswith("/") else os.path.join(os.path.dirname(path), t)
            if isinstance(path, str):
                path = os.path.normpath(path)
        raise OSError(errno.ELOOP, "Too many levels of symbolic links")
    def need(self, path, follow=True):
        k, p = self.resolve(path, follow)
        if k is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        return self.nodes[k]
    def parent_ok(self, path):
        d = os.path.dirname(path)
        k = self.find(d)
        if k is None:
            return d == "/"
        n = self.nodes[k]
        if n.kind == "link":
            k2, _ = self.resolve(d)
            return k2 is not None and self.nodes[k2].kind == "dir"
        return n.kind == "dir"

    # -- permissions (the model grants root everything and owners their own files)
    def root(self): return self.proc.uid == 0
    def may_change(self, node):
        if not self.root() and node.uid != self.proc.uid:
            raise PermissionError(errno.EPERM, "Operation not permitted")

    # -- system calls
    def stat(self, path, follow=True):
        self.syscall("stat" if follow else "lstat")
        k, p = self.resolve(path, follow)
        if k is None:
            if p == "/":
                return StatRes(Node("dir", 0o755), 1)
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        return StatRes(self.nodes[k], 1 + list(self.nodes).index(k))
    def readlink(self, path):
        self.syscall("readlink")
        k, p = self.resolve(path, False)
        if k is None: raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if self.nodes[k].kind != "link": raise OSError(errno.EINVAL, "Invalid argument", path)
        return self.nodes[k].target
    def listdir(self, path):
        self.syscall("listdir")
        k, p = self.resolve(path, True)
        if k is None: raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if self.nodes[k].kind != "dir": raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        pre = k + "/"
        return [x[len(pre):] for x in self.nodes if x.startswith(pre) and "/" not in x[len(pre):]]
    def open(self, path, mode):
        self.syscall("open")
        k, p = self.resolve(path, True)
        write = "w" in mode or "a" in mode or "+" in mode or "x" in mode
        if k is None:
            if not write or ("r" in mode):
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            if not self.parent_ok(p):
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            n = Node("file", 0o666 & ~self.proc.umask, self.proc.uid, self.proc.gid, b"")
            self.nodes[p] = n
            self.log.append(("create", p))
            k = p
        else:
            n = self.nodes[k]
            if n.kind == "dir":
                raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
            if "x" in mode:
                raise FileExistsError(errno.EEXIST, "File exists", path)
            if n.kind != "file":
                raise OSError(errno.ENXIO, "No such device or address", path)
            if "w" in mode:
                n.content = b""
                self.log.append(("write", k))
        return FileObj(self, k, n, mode)
    def chmod(self, path, mode, follow=True):
        self.syscall("chmod")
        n = self.need(path, follow)
        self.may_change(n)
        if isinstance(mode, int) and not -2**31 <= mode < 2**32:
            raise OverflowError("Python int too large to convert to C int")
        self.log.append(("chmod", path))
        n.perm = mode & 0o7777
        if not self.root() and n.kind != "dir" and n.gid != self.proc.gid and n.gid not in self.proc.groups:
            n.perm = n.perm & ~0o2000
    def chown(self, path, uid, gid, follow=True):
        self.syscall("chown")
        n = self.need(path, follow)
        self.do_chown(n, uid, gid, path)
    def do_chown(self, n, uid, gid, path):
        if not self.root():
            self.may_change(n)
            if not (uid == -1 or uid == n.uid) or not (gid == -1 or gid == n.gid or gid in self.proc.groups or gid == self.proc.gid):
                raise PermissionError(errno.EPERM, "Operation not permitted")
        self.log.append(("chown", path))
        if not (uid == -1):
            n.uid = uid
        if not (gid == -1):
            n.gid = gid
        if n.kind != "dir" and n.kind != "link":
            n.perm = drop_suid(n.perm)
    def umask(self, mask):
        old = self.proc.umask
        self.proc.umask = mask & 0o777
        return old
    def setresuid(self, r, e, s):
        self.syscall("setresuid")
        p = self.proc
        if not self.root():
            for v in (r, e, s):
                if not (v == -1 or v == p.ruid or v == p.uid or v == p.suid):
                    raise PermissionError(errno.EPERM, "Operation not permitted")
        if not (r == -1): p.ruid = r
        if not (e == -1): p.uid = e
        if not (s == -1): p.suid = s
    def setresgid(self, r, e, s):
        self.syscall("setresgid")
        p = self.proc
        if not self.root():
            for v in (r, e, s):
                if not (v == -1 or v == p.rgid or v == p.gid or v == p.sgid):
                    raise PermissionError(errno.EPERM, "Operation not permitted")
        if not (r == -1): p.rgid = r
        if not (e == -1): p.gid = e
        if not (s == -1): p.sgid = s
    def setuid(self, u):
        if self.root(): self.setresuid(u, u, u)
        else: self.setresuid(-1, u, -1)
    def setgid(self, g):
        if self.root(): self.setresgid(g, g, g)
        else: self.setresgid(-1, g, -1)
    def setgroups(self, groups):
        self.syscall("setgroups")
        if not self.root():
            raise PermissionError(errno.EPERM, "Operation not permitted")
        self.proc.groups = list(groups)
    def initgroups(self, name, gid):
        gs = [gid]
        for g in self.groups:
            if name in g.members:
                gs.append(g.gid)
        self.setgroups(gs)
    def chdir(self, path):
        self.syscall("chdir")
        k, p = self.resolve(path, True)
        if k is None and not (p == "/"):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if k is not None and self.nodes[k].kind != "dir":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        self.proc.cwd = p
    def unlink(self, path):
        self.syscall("unlink")
        k, p = self.resolve(path, False)
        if k is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if self.nodes[k].kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        self.log.append(("unlink", k))
        del self.nodes[k]
    def rename(self, a, b):
        self.syscall("rename")
        ka, pa = self.resolve(a, False)
        if ka is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        kb, pb = self.resolve(b, False)
        if kb is None and not self.parent_ok(pb):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", b)
        if kb is not None and self.nodes[kb].kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", b)
        n = self.nodes[ka]
        del self.nodes[ka]
        if kb is not None:
            del self.nodes[kb]
        self.nodes[pb] = n
        self.log.append(("rename", pb))

    # -- accounts
    def getpwnam(self, name):
        check_text(name)
        for u in self.users:
            if u.name == name:
                return self.pw(u)
        raise KeyError("getpwnam(): name not found")
    def getpwuid(self, uid):
        for u in self.users:
            if u.uid == uid:
                return self.pw(u)
        raise KeyError("getpwuid(): uid not found")
    def pw(self, u):
        return Entry(pw_name=u.name, pw_passwd="x", pw_uid=u.uid, pw_gid=u.gid, pw_gecos=u.gecos, pw_dir=u.home, pw_shell=u.shell)
    def getpwall(self): return [self.pw(u) for u in self.users]
    def getgrnam(self, name):
        check_text(name)
        for g in self.groups:
            if g.name == name:
                return self.gr(g)
        raise KeyError("getgrnam(): name not found")
    def getgrgid(self, gid):
        for g in self.groups:
            if g.gid == gid:
                return self.gr(g)
        raise KeyError("getgrgid(): gid not found")
    def gr(self, g):
        return Entry(gr_name=g.name, gr_passwd="x", gr_gid=g.gid, gr_mem=list(g.members))
    def getgrall(self): return [self.gr(g) for g in self.groups]
    def getspnam(self, name):
        check_text(name)
        for u in self.users:
            if u.name == name and u.pw_hash is not None:
                return Entry(sp_namp=u.name, sp_pwdp=u.pw_hash)
        raise KeyError("getspnam(): name not found")
    def getenv(self, key, default=None):
        if isinstance(key, str) or hasattr(key, "encode"):
            key.encode("utf-8", "surrogateescape")
        for k in self.env:
            if k == key:
                return self.env[k]
        return default

def drop_suid(perm):
    """The mode of a regular file after a change of ownership (Linux)."""
    perm = perm & ~0o4000
    return ite((perm & 0o0010) != 0, perm & ~0o2000, perm)

class FileObj:
    """An open file."""
    def __init__(self, world, path, node, mode):
        self.world, self.path, self.node, self.mode, self.closed = world, path, node, mode, False
        self.binary = "b" in mode
        self.pos_read = False
        self.name = path
    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.world.syscall("read")
        if self.pos_read:
            return b"" if self.binary else ""
        if not (n is None or n == -1):
            r = self.node.content[getattr(self, "off", 0):getattr(self, "off", 0) + n]
            self.off = getattr(self, "off", 0) + n
            return r
        off = getattr(self, "off", 0)
        self.pos_read = True
        c = self.node.content[off:] if off else self.node.content
        if self.binary:
            return c
        t = c.decode("utf-8")
        return t.replace("\r\n", "\n").replace("\r", "\n")
    def __iter__(self):
        return iter(self.read().splitlines(True))
    def write(self, data):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if "r" in self.mode and "+" not in self.mode:
            raise OSError("not writable")
        self.world.syscall("write")
        if not self.binary:
            data = data.encode("utf-8")
        self.node.content = self.node.content + data
        self.world.log.append(("write", self.path))
        if not self.world.root():
            self.node.perm = drop_suid(self.node.perm)
        return len(data)
    def flush(self): pass
    def fileno(self): return FakeFd(self.path)
    def close(self):
        self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class FakeFd:
    def __init__(self, path): self.path = path
