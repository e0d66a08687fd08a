"""A simulated disk: real files in a scratch directory behind a raw layer that can fail.

``Disk`` replaces the built-in ``open`` while it is in force.  Files opened for
writing inside its directory go through ``Raw``; everything else is untouched."""
import builtins
import errno
import io
import os

from . import faults

_open = io.open

ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
       "EROFS": errno.EROFS, "EFBIG": errno.EFBIG}


def oserror(name, path=None):
    e = OSError(ERR[name], os.strerror(ERR[name]), path)
    e.__verif__ = True
    return e


class Raw(io.FileIO):
    def __init__(self, disk, path, mode, opener=None):
        super().__init__(path, mode, opener=opener)
        self.disk = disk

    def write(self, b):
        d = self.disk
        m = memoryview(b).cast("B")
        n = len(m)
        d.writes += 1
        d.events.append(("write", n))
        f = d.fault
        if f is not None and f["at"] == "write" and d.written + n > f["n"] and (not d.fired or f.get("stays")):
            k = max(0, min(n, f["n"] - d.written))
            if f["kind"] == "short":
                if k == 0:
                    k = 1
                d.fire("short write")
            elif f["kind"] == "EINTR":
                d.fire("EINTR")
                raise InterruptedError(errno.EINTR, "Interrupted system call")
            elif k and f["kind"] in ("ENOSPC", "EDQUOT", "EFBIG"):
                pass                            # the part that fits is written; the next write fails
            else:
                d.fire(f["kind"])
                if f["kind"] in ("KeyboardInterrupt", "MemoryError", "SystemExit"):
                    raise faults.make(f["kind"])
                raise oserror(f["kind"])
            m = m[:k]
        k = super().write(m)
        d.written += k
        return k

    def close(self):
        first = not self.closed
        super().close()
        d = self.disk
        f = d.fault
        if first and f is not None and f["at"] == "close" and not d.fired:
            d.fire(f["kind"] + " at close")
            raise oserror(f["kind"])


class Disk:
    """fault: None or {"at": open|write|close, "kind": ..., "n": bytes until it, "stays": disk stays full}."""

    def __init__(self, directory, fault=None):
        self.dir = os.path.realpath(directory)
        self.fault = fault
        self.fired = None
        self.writes = self.written = self.opened = 0
        self.events = []

    def fire(self, what):
        self.fired = what

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not set(mode) & set("wxa+"):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.realpath(os.fspath(file))
        if not isinstance(path, str) or not path.startswith(self.dir + "/"):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opened += 1
        self.events.append(("open", os.path.basename(path), mode))
        f = self.fault
        if f is not None and f["at"] == "open" and not self.fired:
            self.fire(f["kind"] + " at open")
            raise oserror(f["kind"], str(file))
        text = "b" not in mode
        raw = Raw(self, file, mode.replace("b", "").replace("t", ""), opener)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 4096
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline)
        t.mode = mode
        return t

    def __enter__(self):
        import _io
        self.old = builtins.open, io.open, _io.open
        builtins.open = io.open = _io.open = self.open
        return self

    def __exit__(self, *a):
        import _io
        builtins.open, io.open, _io.open = self.old
