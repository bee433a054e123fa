"""The dispatcher process: the real dispatcher source runs in a second thread that is strictly
alternated with the client (at any time exactly one of them runs)."""

import subprocess
import sys
import threading
from model import osmodel
from model.pipe import Pipe, Reader, Writer

class Hang(BaseException):
    """Client and dispatcher wait for each other forever."""

class Killed(BaseException):
    """Unwinds the dispatcher thread."""

class Std:
    def __init__(self, buffer):
        self.buffer = buffer
        self.encoding = "utf-8"
    def write(self, s): return len(s)
    def flush(self): pass
    def fileno(self): return 99
    def isatty(self): return False

class ChannelOut(Writer):
    """The dispatcher's standard output: what it flushes reaches the client."""
    is_channel = True
    on_flush = None
    def flush(self):
        if self.on_flush is not None and len(self.pending):
            self.on_flush()
        super().flush()

class Dispatcher:
    """A dispatcher process attached to two pipes. `entry` executes the dispatcher program."""
    def __init__(self, world, entry, argv=()):
        self.world, self.entry, self.argv = world, entry, list(argv)
        self.c2s, self.s2c = Pipe(), Pipe()
        self.stdin, self.stdout = Reader(self.c2s), ChannelOut(self.s2c)
        self.returncode = None
        self.crash = None           # uncaught exception of the dispatcher
        self.steer = None
        self.started = self.finished = self.killed = False
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.c2s.wait = self._server_wait
        self.s2c.wait = self._client_wait
        self.blocked = False
        self.on_wait = None         # called when the dispatcher is about to wait for input
        world.channel_in = self.c2s
    # -- dispatcher side
    def _main(self):
        self.go.acquire()
        try:
            if not self.killed:
                self.entry()
            self.returncode = 0
        except SystemExit as e:
            self.returncode = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Killed:
            if self.returncode is None:
                self.returncode = -15
        except Exception as e:
            self.crash = e
            self.returncode = 1
        except BaseException as e:
            self.steer = e
            self.returncode = 1
        try:
            # interpreter exit flushes standard output
            if not self.killed and self.steer is None and not self.stdout.closed:
                self.stdout.flush()
        except Exception:
            pass
        self.finished = True
        self.s2c.eof = True
        self.c2s.broken = True
        self.back.release()
    def _server_wait(self):
        # the dispatcher needs more input: let the client continue
        if self.killed:
            raise Killed()
        if self.on_wait is not None:
            self.on_wait()
        self.blocked = True
        self.back.release()
        self.go.acquire()
        self.blocked = False
        if self.killed:
            raise Killed()
        return True
    # -- client side
    def resume(self):
        """Run the dispatcher until it waits for input or ends."""
        if self.finished:
            return
        if not self.started:
            self.started = True
            t = threading.Thread(target=self._main, daemon=True)
            t.start()
        saved = (sys.stdin, sys.stdout, sys.stderr, sys.argv)
        old = osmodel.set_world(self.world)
        sys.stdin, sys.stdout, sys.stderr = Std(self.stdin), Std(self.stdout), Std(None)
        sys.argv = ["dispatcher"] + self.argv
        try:
            self.go.release()
            self.back.acquire()
        finally:
            sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
            osmodel.set_world(old)
        if self.steer is not None:
            s, self.steer = self.steer, None
            raise s
    def _client_wait(self):
        if self.finished:
            return False
        had = self.s2c.written
        self.resume()
        if self.finished:
            return True
        if self.s2c.written == had:
            raise Hang("the dispatcher waits for more input while the client waits for an answer")
        return True
    def kill(self, returncode=-15):
        if self.finished:
            return
        self.killed = True
        if self.returncode is None:
            self.returncode = returncode
        if self.started:
            self.resume()
        self.finished = True
        self.s2c.eof = True
        self.c2s.broken = True
    dispose = kill

class Process:
    """What subprocess.Popen returns for a dispatcher."""
    def __init__(self, d, args=None):
        self.d, self.args, self.pid = d, args, 77
        self.stdin, self.stdout, self.stderr = Writer(d.c2s), Reader(d.s2c), None
        self.returncode = None
        self.waited = self.terminated = False
    def poll(self):
        if self.d.finished:
            self.returncode = self.d.returncode
        return self.returncode
    def wait(self, timeout=None):
        if not self.d.finished:
            if not self.d.c2s.eof:
                # the dispatcher only ends by itself when told to or at the end of its input
                self.d.resume()
                if not self.d.finished:
                    if timeout is not None:
                        raise subprocess.TimeoutExpired(self.args, timeout)
                    raise Hang("waiting for a dispatcher that was not told to end")
            while not self.d.finished:
                self.d.resume()
        self.waited = True
        self.returncode = self.d.returncode
        return self.returncode
    def terminate(self):
        self.terminated = True
        self.d.kill()
    kill = terminate
    def send_signal(self, s): self.terminate()
    def communicate(self, input=None, timeout=None):
        self.stdin.close()
        self.wait(timeout)
        return self.stdout.read(), None
    def __enter__(self): return self
    def __exit__(self, *a):
        self.stdin.close()
        self.wait()
