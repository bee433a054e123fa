"""In-memory byte streams that carry symbolic content."""

class Closed(Exception):
    pass

class Pipe:
    """One direction of a byte stream. `wait` is called when a reader needs more data."""
    def __init__(self):
        self.buf = b""
        self.written = 0            # number of writes
        self.eof = False            # no more data will come
        self.broken = False         # the reading end is gone
        self.wait = None

class Writer:
    """File-like object for the writing end (buffered: data is visible after flush)."""
    def __init__(self, pipe, autoflush=False):
        self.pipe, self.pending, self.closed, self.autoflush = pipe, b"", False, autoflush
    def write(self, data):
        if self.closed:
            raise ValueError("write to closed file")
        self.pending = self.pending + data
        return len(data)
    def flush(self):
        if self.closed:
            raise ValueError("flush of closed file")
        if self.pipe.broken:
            raise BrokenPipeError(32, "Broken pipe")
        if len(self.pending):
            self.pipe.buf = self.pipe.buf + self.pending
            self.pipe.written += 1
            self.pending = b""
    def close(self):
        if self.closed:
            return
        try:
            if len(self.pending):
                self.flush()
        finally:
            self.closed = True
            self.pipe.eof = True
    def writable(self): return True
    def readable(self): return False
    def fileno(self): raise OSError("in-memory stream")

class Reader:
    """File-like object for the reading end."""
    def __init__(self, pipe):
        self.pipe, self.closed = pipe, False
    def _fill(self, n):
        # n: wanted number of bytes or None for everything
        while not self.pipe.eof:
            if n is not None and not (len(self.pipe.buf) < n):
                return
            if self.pipe.wait is None or not self.pipe.wait():
                return
    def read(self, n=-1):
        if self.closed:
            raise ValueError("read of closed file")
        if n is None or n == -1:
            self._fill(None)
            r, self.pipe.buf = self.pipe.buf, b""
            return r
        self._fill(n)
        buf = self.pipe.buf
        r = buf[:n]
        self.pipe.buf = buf[n:]
        return r
    def read1(self, n=-1): return self.read(n)
    def readinto(self, b): raise OSError("readinto is not modelled")
    def readline(self): raise OSError("readline is not modelled")
    def close(self):
        self.closed = True
        self.pipe.broken = True
    def readable(self): return True
    def writable(self): return False
    def fileno(self): raise OSError("in-memory stream")
