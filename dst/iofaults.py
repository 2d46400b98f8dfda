"""A disk that fails: hands one file to whoever opens it, with short reads, errors and lost bytes."""
import builtins
import errno
import io
import os


class Raw(io.RawIOBase):
    def __init__(self, disk):
        self.disk = disk
        self.pos = 0
        disk.live += 1

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.disk.data) + off)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        d = self.disk
        n = min(len(b), len(d.data) - self.pos)
        if d.short and n > 0:
            n = min(n, d.rng.randint(1, d.short))
            d.fired["short_read"] = d.fired.get("short_read", 0) + 1
        if d.fail_at is not None and self.pos + n > d.fail_at and d.left > 0:
            n = d.fail_at - self.pos
            if n <= 0:
                d.left -= 1
                d.fired["read_error"] = d.fired.get("read_error", 0) + 1
                raise OSError(d.err, os.strerror(d.err))
        b[:n] = d.data[self.pos:self.pos + n]
        self.pos += n
        d.reads += 1
        return n

    def close(self):
        if not self.closed:
            self.disk.live -= 1
        super().close()


class Disk:
    """While active, opening `path` in this process goes through the simulated device."""

    def __init__(self, path, data, rng, short=0, fail_at=None, err=errno.EIO, times=1, open_error=None):
        self.path, self.data, self.rng = os.path.abspath(path), data, rng
        self.short, self.fail_at, self.err, self.left = short, fail_at, err, times
        self.open_error = open_error
        self.fired = {}
        self.live = self.opens = self.reads = 0

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            mine = os.path.abspath(os.fspath(file)) == self.path
        except TypeError:
            mine = False
        if not mine:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        if any(c in mode for c in "wax+"):
            self.fired["written"] = 1
            raise OSError(errno.EROFS, "read-only file system")
        if self.open_error is not None:
            self.fired["open_error"] = self.fired.get("open_error", 0) + 1
            raise OSError(self.open_error, os.strerror(self.open_error), str(file))
        if buffering == 0 and "b" in mode:
            return Raw(self)
        buf = io.BufferedReader(Raw(self), buffer_size=max(16, self.rng.choice([16, 64, 512, 8192])))
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline)

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self._open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real
        return False
