"""Simulated disk.  Files live in memory under /simdisk/.  `open` is replaced
while a run executes: the real io.TextIOWrapper / io.BufferedReader /
io.BufferedWriter work on a raw file whose every system call is decided by the
plan: short reads and writes, EINTR, ENOSPC, EIO, errors at close, and a crash
at a byte offset after which nothing more reaches the disk."""
import builtins
import errno
import io
import os
import sys

from .core import HarnessError, InjectedBase

PREFIX = "/simdisk/"
_real_open = builtins.open


class Crash(InjectedBase):
    """The simulated machine stops here."""


ERRNOS = frozenset(errno.errorcode.values())


def _errno(fault, default):
    return getattr(errno, fault["err"]) if fault.get("err") else default


class SimDisk:
    def __init__(self, ctx):
        self.ctx = ctx
        self.files = {}
        self.epoch = 0
        self.next_fault = None      # plan entry for the next open
        self.nth = 1
        self.rename_err = 0
        self.os_errors = 0          # errors handed to the program since armed
        self.opened = 0
        self.live = 0               # raw files not closed
        self.last = None

    # faults of one open:
    #   chunk: most bytes moved by one system call (0 = no limit)
    #   buf: buffer size of the python layers
    #   eintr: every n-th call is interrupted
    #   kind/at: name of an errno at byte offset, CLOSE (error at close),
    #            CRASH at byte offset, OPEN (open itself fails),
    #            RENAME (renaming and replacing files fail until armed again)
    #   err: errno of OPEN, CLOSE and RENAME
    #   nth: the fault meets the nth file opened, not the first
    def arm(self, fault):
        self.next_fault = dict(fault or {})
        self.nth = self.next_fault.get("nth", 1)
        self.rename_err = _errno(fault, errno.EIO) if self.next_fault.get("kind") == "RENAME" else 0
        self.os_errors = 0

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        f = self.next_fault or {}
        self.nth -= 1
        if self.nth > 0:
            f = {}
        else:
            self.next_fault = None
        self.opened += 1
        mode0 = mode.replace("b", "").replace("t", "")
        if mode0 not in ("r", "w", "a", "x", "r+", "w+"):
            raise ValueError("invalid mode: %r" % mode)
        if f.get("kind") == "OPEN":
            self.ctx.fault("open-error")
            self.os_errors += 1
            e = _errno(f, errno.EACCES)
            raise OSError(e, os.strerror(e), path)
        if mode0 in ("r", "r+") and path not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if mode0 == "x" and path in self.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        if mode0[0] in "wx":
            self.files[path] = bytearray()
        self.files.setdefault(path, bytearray())
        raw = SimRaw(self, path, mode0, f)
        self.last = raw
        size = f.get("buf") or 8192
        if "+" in mode0:
            b = io.BufferedRandom(raw, size)
        elif mode0[0] == "r":
            b = io.BufferedReader(raw, size)
        else:
            b = io.BufferedWriter(raw, size)
        if "b" in mode:
            return b
        t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline)
        t._CHUNK_SIZE = max(1, size)
        t.mode = mode
        return t


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, mode, fault):
        super().__init__()
        self.disk, self.path, self.fmode, self.f = disk, path, mode, fault
        self.name = path
        self.epoch = disk.epoch
        self.pos = len(disk.files[path]) if mode[0] == "a" else 0
        self.calls = 0
        self.errors = 0             # errors handed to the program
        self.closed_ok = None
        self.moved = 0
        disk.live += 1

    def _dead(self):
        return self.epoch != self.disk.epoch

    def readable(self):
        return self.fmode[0] == "r" or "+" in self.fmode

    def writable(self):
        return self.fmode[0] != "r" or "+" in self.fmode

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        base = 0 if whence == 0 else self.pos if whence == 1 else len(self.disk.files[self.path])
        self.pos = base + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if not self._dead():
            del self.disk.files[self.path][size:]
        return size

    def _tick(self, what):
        self.calls += 1
        d = self.disk
        d.ctx.simtime += 1
        n = self.f.get("eintr", 0)
        if n and self.calls % (n + 1) == 0:
            d.ctx.fault("EINTR")
            raise InterruptedError(errno.EINTR, os.strerror(errno.EINTR))

    def _limit(self, n):
        c = self.f.get("chunk", 0)
        if c and n > c:
            self.disk.ctx.fault("short-" + ("read" if self.fmode[0] == "r" else "write"))
            n = c
        return n

    def _error(self, e):
        self.errors += 1
        self.disk.os_errors += 1
        self.disk.ctx.fault(errno.errorcode[e])
        raise OSError(e, os.strerror(e), self.path)

    def readinto(self, buf):
        if self._dead():
            raise OSError(errno.EIO, "dead")
        self._tick("read")
        data = self.disk.files[self.path]
        n = self._limit(min(len(buf), len(data) - self.pos))
        at = self.f.get("at", 0)
        if self.f.get("kind") == "EIO":
            if self.pos >= at:
                self._error(errno.EIO)
            n = min(n, at - self.pos)
        n = max(n, 0)
        buf[:n] = data[self.pos:self.pos + n]
        self.pos += n
        self.moved += n
        return n

    def write(self, buf):
        if self._dead():
            raise OSError(errno.EIO, "dead")
        self._tick("write")
        b = bytes(buf)
        n = self._limit(len(b))
        kind, at = self.f.get("kind"), self.f.get("at", 0)
        data = self.disk.files[self.path]
        if kind == "CRASH" or kind in ERRNOS:
            room = max(0, at - self.moved)
            if room < n:
                n = room
                if n == 0 or kind == "CRASH":
                    if kind == "CRASH":
                        data[self.pos:self.pos + n] = b[:n]
                        self.disk.epoch += 1
                        self.disk.ctx.fault("crash")
                        raise Crash()
                    self._error(getattr(errno, kind))
                self.disk.ctx.fault("partial-write")
        data[self.pos:self.pos + n] = b[:n]
        self.pos += n
        self.moved += n
        return n

    def close(self):
        if self.closed:
            return
        super().close()
        self.disk.live -= 1
        if self._dead():
            return
        if self.f.get("kind") == "CLOSE" and self.writable():
            # the delayed write back fails: the tail never reached the disk
            data = self.disk.files[self.path]
            del data[min(len(data), self.f.get("at", 0)):]
            self._error(_errno(self.f, errno.EIO))
        self.closed_ok = True


class mounted:
    """Context manager: route file operations under /simdisk/ to the disk."""

    NAMES = ("replace", "rename", "remove", "unlink")

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        disk = self.disk
        self.saved = (builtins.open, io.open, sys.unraisablehook, sys.stdout)
        self.saved_os = {n: getattr(os, n) for n in self.NAMES}
        self.saved_exists = os.path.exists

        def sim_open(file, mode="r", *a, **kw):
            try:
                p = os.fspath(file) if not isinstance(file, int) else None
            except TypeError:
                p = None
            if isinstance(p, str) and p.startswith(PREFIX):
                return disk.open(p, mode, *a, **kw)
            return _real_open(file, mode, *a, **kw)

        def wrap(name):
            real = self.saved_os[name]

            def f(src, *a, **kw):
                p = os.fspath(src)
                if not (isinstance(p, str) and p.startswith(PREFIX)):
                    return real(src, *a, **kw)
                if p not in disk.files:
                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
                if disk.rename_err and name in ("replace", "rename"):
                    disk.os_errors += 1
                    disk.ctx.fault("rename-error")
                    raise OSError(disk.rename_err, os.strerror(disk.rename_err), p)
                data = disk.files.pop(p)
                if name in ("replace", "rename"):
                    disk.files[os.fspath(a[0])] = data
            return f
        builtins.open = io.open = sim_open
        for n in self.NAMES:
            setattr(os, n, wrap(n))
        os.path.exists = lambda p: (os.fspath(p) in disk.files if isinstance(p, (str, os.PathLike))
                                    and os.fspath(p).startswith(PREFIX) else self.saved_exists(p))
        sys.unraisablehook = lambda a: None
        # the program's chatter is not part of the property
        sys.stdout = _Null()
        return disk

    def __exit__(self, *exc):
        builtins.open, io.open, sys.unraisablehook, sys.stdout = self.saved
        for n, f in self.saved_os.items():
            setattr(os, n, f)
        os.path.exists = self.saved_exists
        return False


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


class BadStream(io.TextIOBase):
    """A text stream given by the caller that fails after n characters."""

    def __init__(self, n, exc):
        self.n, self.exc, self.text = n, exc, []
        self.name = "stream"

    def writable(self):
        return True

    def write(self, s):
        if self.n is not None:
            self.n -= len(s)
            if self.n < 0:
                raise self.exc
        self.text.append(s)
        return len(s)
