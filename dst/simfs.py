"""A simulated disk and a simulated wall clock.

The disk replaces `open` (and the few `os` calls around it) in the modules that save and load.  Python's real
text and buffering layers run on top; below them the disk decides for every operation whether it works, fails
(full disk, I/O error), writes only a part of the bytes it is given, or is the instant at which the process
dies.  Each file has what the process sees (`now`) and what survives a crash (`durable`).

A plan is a list of faults {"op": n-th disk operation, "kind": ...}; an operation is an open for writing, a raw
write or a close.
"""
import errno
import io
import posixpath


class SimCrash(BaseException):
    """the process dies here."""


class File:
    __slots__ = ("now", "durable", "synced")

    def __init__(self):
        self.now = bytearray()
        self.durable = None  # None: the file does not exist after a crash

    def sync(self):
        self.durable = bytes(self.now)


class Raw(io.RawIOBase):
    def __init__(self, disk, path, f, write, read):
        self.disk, self.path, self.f, self.w, self.r = disk, path, f, write, read
        self.pos = 0
        self.epoch = disk.epoch
        disk.fds += 1
        self.fd = 1000000 + disk.fds
        disk.open_files[self.fd] = f

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = off + (0 if whence == 0 else self.pos if whence == 1 else len(self.f.now))
        return self.pos

    def truncate(self, size=None):
        del self.f.now[self.pos if size is None else size:]
        return len(self.f.now)

    def readinto(self, b):
        data = bytes(self.f.now[self.pos:self.pos + len(b)])
        b[: len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, b):
        b = bytes(b)
        n = len(b)
        if self.epoch != self.disk.epoch or self.disk.dead:
            return n  # written by a process that has died
        if self.disk.full:
            raise OSError(errno.ENOSPC, "nospace")
        fault = self.disk.step("write", self.path)
        if fault:
            k = fault["kind"]
            if k == "short" and n > 1:
                n = max(1, int(n * fault.get("at", 0.5)))
            elif k in ("nospace", "ioerror"):
                part = int(n * fault.get("at", 0.5))
                self.put(b[:part])
                self.disk.full = k == "nospace"
                raise OSError(errno.ENOSPC if k == "nospace" else errno.EIO, k)
            elif k == "crash":
                self.put(b[: int(n * fault.get("at", 0.5))])
                raise SimCrash()
        self.put(b[:n])
        return n

    def put(self, b):
        self.f.now[self.pos:self.pos + len(b)] = b
        self.pos += len(b)

    def close(self):
        if not self.closed:
            super().close()
            if self.w and self.epoch == self.disk.epoch:
                fault = self.disk.step("close", self.path)
                if fault and fault["kind"] in ("nospace", "ioerror"):
                    raise OSError(errno.EIO, "close")
                if fault and fault["kind"] == "crash":
                    raise SimCrash()


class Disk:
    def __init__(self, plan=(), locale="utf-8"):
        self.files = {}
        self.dirs = set()
        self.plan = {f["op"]: f for f in plan}
        self.n = 0
        self.ops = []
        self.fired = []
        self.locale = locale
        self.dead = False
        self.full = False
        self.epoch = 0
        self.fds = 0
        self.open_files = {}

    # --- faults
    def step(self, what, path):
        if self.dead:
            return None
        i = self.n
        self.n += 1
        self.ops.append((what, path))
        f = self.plan.get(i)
        if f is None:
            return None
        if what == "open" and f["kind"] == "short":
            return None
        self.fired.append(f["kind"] + "_" + what)
        if f["kind"] == "crash":
            self.dead = True
        return f

    def sync(self):
        for f in self.files.values():
            f.sync()

    def restart(self, surviving):
        """what is on the disk after the crash: `surviving` decides for data that was not yet durable."""
        for p in list(self.files):
            f = self.files[p]
            if bytes(f.now) != f.durable:
                if surviving == "old":
                    if f.durable is None:
                        del self.files[p]
                        continue
                    f.now = bytearray(f.durable)
                elif surviving == "empty":
                    f.now = bytearray()
                elif surviving == "lost_block" and len(f.now) > 8:
                    n = len(f.now)
                    lo, hi = n // 3, max(n // 3 + 4, 2 * n // 3)
                    f.now[lo:hi] = b"\0" * (hi - lo)
            f.sync()
        self.dead = False
        self.full = False
        self.epoch += 1
        self.plan = {}

    # --- what the code under test sees
    def fsync(self, fd):
        f = self.open_files.get(fd if isinstance(fd, int) else fd.fileno())
        if f is not None:
            f.sync()

    def norm(self, p):
        return posixpath.normpath(str(p))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = self.norm(file)
        write = any(c in mode for c in "wax+")
        if write:
            fault = self.step("open", p)
            if fault:
                if fault["kind"] == "crash":
                    raise SimCrash()
                if fault["kind"] in ("nospace", "ioerror"):
                    raise OSError(errno.ENOSPC, "No space left on device", p)
        if "r" in mode and p not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        if "x" in mode and p in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", p)
        f = self.files.setdefault(p, File())
        if "w" in mode:
            f.now = bytearray()
        raw = Raw(self, p, f, write, "r" in mode or "+" in mode)
        if "a" in mode:
            raw.seek(0, 2)
        if write and "r" not in mode:
            buf = io.BufferedWriter(raw, 512)
        elif write:
            buf = io.BufferedRandom(raw)
        else:
            buf = io.BufferedReader(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding or self.locale, errors=errors, newline=newline)

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs or any(q.startswith(p + "/") for q in self.files)

    def isfile(self, p):
        return self.norm(p) in self.files

    def isdir(self, p):
        return self.exists(p) and not self.isfile(p)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        self.dirs.add(self.norm(p))

    def listdir(self, p="."):
        p = self.norm(p) + "/"
        return sorted({q[len(p):].split("/")[0] for q in list(self.files) + list(self.dirs) if q.startswith(p)})

    def replace(self, a, b):
        a, b = self.norm(a), self.norm(b)
        fault = self.step("rename", a)
        if fault and fault["kind"] == "crash":
            raise SimCrash()
        if fault and fault["kind"] in ("nospace", "ioerror"):
            raise OSError(errno.EIO, "rename", a)
        self.files[b] = self.files.pop(a)

    rename = replace

    def remove(self, p):
        p = self.norm(p)
        if p not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        del self.files[p]

    unlink = remove


class _OsPath:
    def __init__(self, disk, real):
        self._d, self._r = disk, real

    def __getattr__(self, k):
        if k in ("exists", "isfile", "isdir"):
            return getattr(self._d, k)
        return getattr(self._r, k)


class FakeOs:
    def __init__(self, disk, real):
        self._d, self._r = disk, real
        self.path = _OsPath(disk, real.path)

    def __getattr__(self, k):
        if k in ("makedirs", "listdir", "replace", "rename", "remove", "unlink"):
            return getattr(self._d, k)
        if k == "mkdir":
            return self._d.makedirs
        if k in ("fsync", "fdatasync"):
            return self._d.fsync
        if k == "sync":
            return self._d.sync
        return getattr(self._r, k)


class Clock:
    """wall clock and monotonic clock of the simulated machine; `now` may stand still or jump."""

    def __init__(self, start=1.7e9):
        self.now = start
        self.mono = 0.0

    def advance(self, dt):
        self.now += dt
        self.mono += max(0.0, dt)

    def time(self):
        return self.now

    def perf_counter(self):
        self.mono += 1e-6
        return self.mono

    monotonic = perf_counter

    def strftime(self, fmt, t=None):
        import time
        return time.strftime(fmt, time.gmtime(self.now) if t is None else t)

    def localtime(self, s=None):
        import time
        return time.gmtime(self.now if s is None else s)

    gmtime = localtime

    def __getattr__(self, k):
        import time
        return getattr(time, k)


class patched:
    """with patched(disk, clock): the saving and loading code of prodsys sees the simulated disk and clock."""

    def __init__(self, disk, clock):
        self.disk, self.clock = disk, clock

    def __enter__(self):
        import builtins
        import os
        import pathlib
        import sys
        import time
        import pandas.io.common as pc
        self.saved = []
        d = self.disk

        def put(obj, name, val):
            self.saved.append((obj, name, obj.__dict__.get(name, self)))
            setattr(obj, name, val)
        import prodsys.optimization  # noqa: F401
        fake = FakeOs(d, os)
        for name, mod in list(sys.modules.items()):
            if not (name == "prodsys" or name.startswith("prodsys.")) or mod is None:
                continue
            put(mod, "open", d.open)
            g = mod.__dict__
            if g.get("os") is os:
                put(mod, "os", fake)
            for k in ("exists", "isfile", "isdir", "listdir", "makedirs", "replace", "rename", "remove"):
                if g.get(k) is not None and g.get(k) in (getattr(os, k, None), getattr(os.path, k, None)):
                    put(mod, k, getattr(d, k))
            if g.get("time") is time:
                put(mod, "time", self.clock)
            for k in ("strftime", "perf_counter"):
                if g.get(k) is getattr(time, k):
                    put(mod, k, getattr(self.clock, k))
            if g.get("Path") is pathlib.Path:
                put(mod, "Path", _path_class(d))
            if g.get("pathlib") is pathlib:
                put(mod, "pathlib", _Pathlib(d))
            import tempfile
            if g.get("tempfile") is tempfile:
                put(mod, "tempfile", _Tempfile(d))
        import pydantic.deprecated.parse as dp
        put(dp, "Path", _path_class(d))
        put(pc, "open", d.open)
        put(pc, "check_parent_directory", lambda path: None)
        return self

    def __exit__(self, *a):
        for obj, name, old in reversed(self.saved):
            if old is self:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        return False


def _path_class(d):
    import pathlib

    class P(pathlib.PurePosixPath):
        def exists(self):
            return d.exists(self)

        def is_file(self):
            return d.isfile(self)

        def is_dir(self):
            return d.isdir(self)

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            d.makedirs(self)

        def open(self, mode="r", **kw):
            return d.open(self, mode, **kw)

        def read_text(self, encoding=None, errors=None):
            with d.open(self, "r", encoding=encoding, errors=errors) as f:
                return f.read()

        def write_text(self, data, encoding=None, errors=None, newline=None):
            with d.open(self, "w", encoding=encoding, errors=errors, newline=newline) as f:
                return f.write(data)

        def read_bytes(self):
            with d.open(self, "rb") as f:
                return f.read()

        def write_bytes(self, data):
            with d.open(self, "wb") as f:
                return f.write(data)

        def unlink(self, missing_ok=False):
            d.remove(self)

        def replace(self, target):
            d.replace(self, target)
            return P(target)

        rename = replace

        def iterdir(self):
            return iter([self / x for x in d.listdir(self)])

    return P


class _Pathlib:
    def __init__(self, d):
        self.Path = _path_class(d)

    def __getattr__(self, k):
        import pathlib
        return getattr(pathlib, k)


class _Tempfile:
    def __init__(self, d):
        self.d, self.n = d, 0

    def NamedTemporaryFile(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix="", prefix="tmp", dir=".", delete=True, **kw):
        self.n += 1
        name = f"{dir}/{prefix or 'tmp'}{self.n}{suffix or ''}"
        f = self.d.open(name, mode.replace("+", ""), encoding=encoding, newline=newline)
        try:
            f.name
        except AttributeError:
            pass
        return _Named(f, name)

    def __getattr__(self, k):
        import tempfile
        return getattr(tempfile, k)


class _Named:
    def __init__(self, f, name):
        self._f, self.name = f, name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()

    def __getattr__(self, k):
        return getattr(self._f, k)
