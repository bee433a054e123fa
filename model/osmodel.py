"""Routes the operating system interface of Python to the active model world.
Imported before fora: replaces functions of os, os.path, io, pwd, grp, spwd and subprocess by wrappers that
fall through to the real ones while no world is active."""

import builtins
import errno
import grp
import io
import os
import pwd
import subprocess
import sys
import threading
from model.world import World, Executed, FakeFd, check_text

W = None                    # the active world
REAL_PREFIXES = ("/repo/", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/", "/usr/", "/opt/", "/lib/")
EXTRA_REAL = []             # scratch directories of harnesses
_real = {}

class Unsafe(BaseException):
    """Code under test tried something with effects on the real machine."""

def active():
    return W

def set_world(w):
    global W
    old, W = W, w
    return old

def path_of(p):
    if isinstance(p, FakeFd):
        return p.path
    return os.fspath(p) if not isinstance(p, int) else p

def is_real_path(p):
    return isinstance(p, str) and (p.startswith(REAL_PREFIXES) or any(p.startswith(x) for x in EXTRA_REAL) or type(p) is str and p.startswith("<") and p.endswith(">"))

def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if W is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if any(c in mode for c in "wax+"):
            raise Unsafe(f"open of descriptor {file}")
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = path_of(file)
    if is_real_path(p):
        if any(c in mode for c in "wax+") and not any(p.startswith(x) for x in EXTRA_REAL):
            raise Unsafe(f"write to {p}")
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    return W.open(p, mode)

def _stat(path, *, dir_fd=None, follow_symlinks=True):
    if W is None or isinstance(path, int) or is_real_path(path_of(path)):
        return _real["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    return W.stat(path_of(path), True if follow_symlinks else False)
def _lstat(path, *, dir_fd=None):
    if W is None or is_real_path(path_of(path)):
        return _real["lstat"](path, dir_fd=dir_fd)
    return W.stat(path_of(path), False)
def _chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if W is None:
        return _real["chmod"](path, mode, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    W.chmod(path_of(path), mode, True if follow_symlinks else False)
def _fchmod(fd, mode):
    if W is None: return _real["fchmod"](fd, mode)
    W.chmod(path_of(fd), mode)
def _chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
    if W is None:
        return _real["chown"](path, uid, gid, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    W.chown(path_of(path), uid, gid, True if follow_symlinks else False)
def _fchown(fd, uid, gid):
    if W is None: return _real["fchown"](fd, uid, gid)
    W.chown(path_of(fd), uid, gid)
def _lchown(path, uid, gid):
    if W is None: return _real["lchown"](path, uid, gid)
    W.chown(path_of(path), uid, gid, False)
def _umask(m):
    if W is None: return _real["umask"](m)
    return W.umask(m)
def _unlink(path, *, dir_fd=None):
    if W is None: return _real["unlink"](path, dir_fd=dir_fd)
    W.unlink(path_of(path))
def _rename(a, b, **k):
    if W is None: return _real["rename"](a, b, **k)
    W.rename(path_of(a), path_of(b))
def _replace(a, b, **k):
    if W is None: return _real["replace"](a, b, **k)
    W.rename(path_of(a), path_of(b))
def _chdir(path):
    if W is None or is_real_path(path_of(path)): return _real["chdir"](path)
    W.chdir(path_of(path))
def _getcwd():
    if W is None: return _real["getcwd"]()
    return W.proc.cwd
def _access(path, mode, **k):
    if W is None or is_real_path(path_of(path)): return _real["access"](path, mode, **k)
    try:
        W.stat(path_of(path))
        return True
    except OSError:
        return False
def _mk_id(name, get):
    def f():
        if W is None: return _real[name]()
        return get(W.proc)
    return f
def _mk_set(name, meth):
    def f(*a):
        if W is None: return _real[name](*a)
        return getattr(W, meth)(*a)
    return f
def _setreuid(r, e):
    if W is None: return _real["setreuid"](r, e)
    W.setresuid(r, e, e)
def _setregid(r, e):
    if W is None: return _real["setregid"](r, e)
    W.setresgid(r, e, e)
def _getgroups():
    if W is None: return _real["getgroups"]()
    return list(W.proc.groups)
def _getgrouplist(user, gid):
    if W is None: return _real["getgrouplist"](user, gid)
    return [gid] + [g.gid for g in W.groups if user in g.members]
def _getenv(key, default=None):
    if W is None: return _real["getenv"](key, default)
    return W.getenv(key, default)

def _mk_stat_pred(name, pred, follow):
    def f(path):
        if W is None or isinstance(path, int) or is_real_path(path_of(path)):
            return _real["path." + name](path)
        try:
            s = W.stat(path_of(path), follow)
        except (OSError, ValueError):
            return False
        return pred(s.st_mode)
    f.__name__ = name
    return f

import stat as _stat_mod

class _Entry:
    """os.DirEntry"""
    def __init__(self, d, name):
        self.name, self.path = name, os.path.join(d, name)
    def __fspath__(self): return self.path
    def stat(self, *, follow_symlinks=True): return W.stat(self.path, follow_symlinks)
    def _is(self, pred, follow):
        try: return pred(W.stat(self.path, follow).st_mode)
        except FileNotFoundError: return False
    def is_dir(self, *, follow_symlinks=True): return self._is(_stat_mod.S_ISDIR, follow_symlinks)
    def is_file(self, *, follow_symlinks=True): return self._is(_stat_mod.S_ISREG, follow_symlinks)
    def is_symlink(self): return self._is(_stat_mod.S_ISLNK, False)
    def is_junction(self): return False
    def inode(self): return W.stat(self.path, False).st_ino
class _Scan(list):
    def __enter__(self): return self
    def __exit__(self, *a): return None
    def close(self): pass
    def __next__(self):
        if not self: raise StopIteration
        return self.pop(0)
    def __iter__(self): return self
def _listdir(path="."):
    if W is None or isinstance(path, int) or is_real_path(path_of(path)): return _real["listdir"](path)
    return W.listdir(path_of(path))
def _scandir(path="."):
    if W is None or isinstance(path, int) or is_real_path(path_of(path)): return _real["scandir"](path)
    return _Scan(_Entry(path_of(path), n) for n in W.listdir(path_of(path)))

def _readlink(path, *, dir_fd=None):
    if W is None or is_real_path(path_of(path)): return _real["readlink"](path, dir_fd=dir_fd)
    return W.readlink(path_of(path))

def _get_data(self, path):
    """Source files of a world can be loaded as modules."""
    if W is None or is_real_path(path): return _real["get_data"](self, path)
    with W.open(path, "rb") as f:
        return f.read()
def _path_stats(self, path):
    if W is None or is_real_path(path): return _real["path_stats"](self, path)
    raise OSError(errno.ENOENT, "no cached modules in a world", path)

def _mk_acct(name):
    def f(*a):
        if W is None: return _real[name](*a)
        return getattr(W, name)(*a)
    f.__name__ = name
    return f

class EnvProxy:
    """os.environ"""
    def __init__(self, real): object.__setattr__(self, "_env", real)
    def get(self, key, default=None):
        return self._env.get(key, default) if W is None else W.getenv(key, default)
    def __getitem__(self, key):
        if W is None: return self._env[key]
        v = W.getenv(key)
        if v is None: raise KeyError(key)
        return v
    def __contains__(self, key):
        return key in self._env if W is None else W.getenv(key) is not None
    def __setitem__(self, k, v): self._env[k] = v
    def __delitem__(self, k): del self._env[k]
    def __iter__(self): return iter(self._env)
    def __len__(self): return len(self._env)
    def __getattr__(self, n): return getattr(self._env, n)

# ---------------------------------------------------------------- processes

def child_setup(w, cwd, umask, extra_groups, group, user, preexec_fn):
    """The order of CPython's child_exec()."""
    if cwd is not None:
        w.chdir(path_of(cwd))
    if umask is not None and not (umask < 0):
        w.umask(umask)
    if extra_groups is not None:
        w.setgroups([_gid(w, g) for g in extra_groups])
    if group is not None:
        g = _gid(w, group)
        w.setresgid(g, g, g)
    if user is not None:
        u = _uid(w, user)
        w.setresuid(u, u, u)
    if preexec_fn is not None:
        try:
            preexec_fn()
        except Exception:
            raise subprocess.SubprocessError("Exception occurred in preexec_fn.")

def _uid(w, u): return w.getpwnam(u).pw_uid if isinstance(u, str) else u
def _gid(w, g): return w.getgrnam(g).gr_gid if isinstance(g, str) else g

def spawn(args, stdin_data, stdin, stdout, stderr, cwd=None, preexec_fn=None, user=None, group=None, extra_groups=None, umask=-1, env=None, shell=False, executable=None, **k):
    """Model of fork+exec+wait. Returns (stdout, stderr, returncode); captured streams are None unless piped."""
    w = W
    if isinstance(args, (str, bytes)) or hasattr(args, "encode"):
        args = [args]
    args = list(args)
    if shell:
        args = ["/bin/sh", "-c"] + args
    if len(args) == 0:
        raise IndexError("list index out of range")
    argv = [check_text(a) for a in args]
    w.syscall("fork")
    parent = w.proc
    w.proc = parent.fork()
    try:
        child_setup(w, cwd, umask, extra_groups, group, user, preexec_fn)
        w.syscall("exec")
        if w.exec_error is not None:
            e = w.exec_error(argv)
            if e is not None:
                raise OSError(e, "exec failed", args[0])
        ex = Executed(argv, w.proc, (stdin, stdin_data), stdout, stderr, env)
        w.executed.append(ex)
    finally:
        w.proc = parent
    out, err, rc = w.program(ex) if w.program is not None else (b"", b"", 0)
    if stdin is None:
        w.channel_reads += 1
    res_out = res_err = None
    if stdout == subprocess.PIPE: res_out = out
    elif stdout is None: w.channel_writes.append(("stdout", out))
    if stderr == subprocess.PIPE: res_err = err
    elif stderr == subprocess.STDOUT:
        if stdout == subprocess.PIPE: res_out = out + err
        elif stdout is None: w.channel_writes.append(("stdout", err))
    if stdout is not None and not isinstance(stdout, int) and getattr(stdout, "is_channel", False):
        w.channel_writes.append(("stdout", out))
    return res_out, res_err, rc

def _run(*popenargs, input=None, capture_output=False, timeout=None, check=False, **kwargs):
    if W is None:
        return _real["run"](*popenargs, input=input, capture_output=capture_output, timeout=timeout, check=check, **kwargs)
    if input is not None:
        if kwargs.get("stdin") is not None:
            raise ValueError("stdin and input arguments may not both be used.")
        kwargs["stdin"] = subprocess.PIPE
    if capture_output:
        if kwargs.get("stdout") is not None or kwargs.get("stderr") is not None:
            raise ValueError("stdout and stderr arguments may not be used with capture_output.")
        kwargs["stdout"] = subprocess.PIPE
        kwargs["stderr"] = subprocess.PIPE
    args = popenargs[0] if popenargs else kwargs.pop("args")
    stdin, stdout, stderr = kwargs.pop("stdin", None), kwargs.pop("stdout", None), kwargs.pop("stderr", None)
    out, err, rc = spawn(args, input, stdin, stdout, stderr, **kwargs)
    if check and rc != 0:
        raise subprocess.CalledProcessError(rc, args, output=out, stderr=err)
    return subprocess.CompletedProcess(args, rc, out, err)

class ModelPopen:
    """subprocess.Popen inside a world: either a spawned dispatcher (world.popen hook) or a modelled program."""
    def __init__(self, args, stdin=None, stdout=None, stderr=None, **k):
        self.args, self._io, self._k = args, (stdin, stdout, stderr), k
        self.returncode = None
        self.pid = 4242
        self.stdin = self.stdout = self.stderr = None
        self._done = None
        if stdin == subprocess.PIPE:
            self.stdin = _InSink()
        if stdin != subprocess.PIPE:
            self._finish(None)
    def _finish(self, data):
        if self._done is None:
            self._done = spawn(self.args, data, *self._io, **self._k)
    def communicate(self, input=None, timeout=None):
        self._finish(input if input is not None else (self.stdin.data if self.stdin else None))
        self.returncode = self._done[2]
        return self._done[0], self._done[1]
    def wait(self, timeout=None):
        self._finish(self.stdin.data if self.stdin else None)
        self.returncode = self._done[2]
        return self.returncode
    def poll(self):
        return self.returncode
    def __enter__(self): return self
    def __exit__(self, *a): self.wait()
    def kill(self): pass
    terminate = kill

class _InSink:
    def __init__(self): self.data = b""
    def write(self, d): self.data = self.data + d
    def flush(self): pass
    def close(self): pass

class _PopenMeta(type):
    def __call__(cls, *a, **k):
        if cls is PopenProxy:
            if W is None:
                return _real["Popen"](*a, **k)
            hook = getattr(W, "popen", None)
            return hook(*a, **k) if hook is not None else ModelPopen(*a, **k)
        return type.__call__(cls, *a, **k)
    def __instancecheck__(cls, o):
        return isinstance(o, (_real["Popen"], ModelPopen))
    def __getitem__(cls, x): return cls

class PopenProxy(metaclass=_PopenMeta):
    pass

def _check_output(*a, **k):
    if W is None: return _real["check_output"](*a, **k)
    return _run(*a, stdout=subprocess.PIPE, check=True, **k).stdout
def _call(*a, **k):
    if W is None: return _real["call"](*a, **k)
    return _run(*a, **k).returncode
def _check_call(*a, **k):
    if W is None: return _real["check_call"](*a, **k)
    return _run(*a, check=True, **k).returncode

# ---------------------------------------------------------------- installation

_installed = False

def install():
    global _installed
    if _installed:
        return
    _installed = True
    def patch(mod, name, f, key=None):
        _real[key or name] = getattr(mod, name)
        setattr(mod, name, f)
    patch(builtins, "open", _open)
    io.open = _open
    for n, f in (("stat", _stat), ("lstat", _lstat), ("chmod", _chmod), ("fchmod", _fchmod), ("chown", _chown), ("fchown", _fchown), ("lchown", _lchown), ("umask", _umask),
                 ("unlink", _unlink), ("remove", _unlink), ("rename", _rename), ("replace", _replace), ("chdir", _chdir), ("getcwd", _getcwd), ("access", _access),
                 ("setreuid", _setreuid), ("setregid", _setregid), ("getgroups", _getgroups), ("getgrouplist", _getgrouplist), ("getenv", _getenv), ("listdir", _listdir), ("scandir", _scandir), ("readlink", _readlink)):
        patch(os, n, f)
    import importlib.machinery
    patch(importlib.machinery.SourceFileLoader, "get_data", _get_data)
    patch(importlib.machinery.SourceFileLoader, "path_stats", _path_stats)
    for n, get in (("getuid", lambda p: p.ruid), ("geteuid", lambda p: p.uid), ("getgid", lambda p: p.rgid), ("getegid", lambda p: p.gid)):
        patch(os, n, _mk_id(n, get))
    for n in ("setresuid", "setresgid", "setuid", "setgid", "setgroups", "initgroups"):
        patch(os, n, _mk_set(n, n))
    patch(os, "seteuid", _mk_set("seteuid", "setuid"))
    patch(os, "setegid", _mk_set("setegid", "setgid"))
    os.environ = EnvProxy(os.environ)
    for n, pred, follow in (("isdir", _stat_mod.S_ISDIR, True), ("isfile", _stat_mod.S_ISREG, True), ("islink", _stat_mod.S_ISLNK, False),
                            ("exists", lambda m: True, True), ("lexists", lambda m: True, False)):
        patch(os.path, n, _mk_stat_pred(n, pred, follow), key="path." + n)
    for n in ("getpwnam", "getpwuid", "getpwall"):
        patch(pwd, n, _mk_acct(n))
    for n in ("getgrnam", "getgrgid", "getgrall"):
        patch(grp, n, _mk_acct(n))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import spwd
    patch(spwd, "getspnam", _mk_acct("getspnam"))
    for n, f in (("run", _run), ("Popen", PopenProxy), ("check_output", _check_output), ("call", _call), ("check_call", _check_call)):
        patch(subprocess, n, f)
    sys.addaudithook(_audit)

GUARD = False               # set while harness code runs

_BLOCK = ("os.remove", "os.rename", "os.rmdir", "os.chmod", "os.chown", "os.lchown", "os.truncate", "os.link", "os.symlink", "os.mkdir", "shutil.rmtree", "shutil.move",
          "shutil.chown", "subprocess.Popen", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.system", "os.kill", "os.killpg", "signal.pthread_kill",
          "socket.connect", "socket.bind", "pty.spawn", "os.utime", "os.setxattr", "os.chroot", "os.mount")

def _audit(event, args):
    if not GUARD:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            p = path if isinstance(path, str) else path.decode("utf-8", "replace") if isinstance(path, bytes) else None
            if p is None or any(p.startswith(x) for x in EXTRA_REAL) or p == "/dev/null":
                return
            raise Unsafe(f"open for writing: {p}")
    elif event in _BLOCK:
        if args and isinstance(args[0], (str, bytes)):
            p = args[0] if isinstance(args[0], str) else args[0].decode("utf-8", "replace")
            if any(p.startswith(x) for x in EXTRA_REAL):
                return
        raise Unsafe(f"{event} {args!r:.200}")

def guard(on):
    global GUARD
    old, GUARD = GUARD, on
    return old

install()
