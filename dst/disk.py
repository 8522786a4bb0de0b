"""The disk seam: a simulated disk under the real Python I/O stack.

``builtins.open`` / ``io.open`` are replaced for paths inside a scratch directory
that the run creates and removes.  The raw layer below Python's own buffering and
text decoding is ours: it injects short writes, short reads, ENOSPC after k
bytes, EIO on read or write, errors reported only by close(), open failures and
process death at an arbitrary byte.  Everything the raw layer accepted is on the
scratch disk; whatever sat in a Python buffer when the process died is lost.
Other file-system calls (os.replace, tempfile, ...) act on the scratch directory
for real, so code that writes elsewhere first and renames keeps working.
"""
import builtins
import contextlib
import errno
import io
import os
import shutil
import tempfile

from .core import SimCrash

_real_open = io.open

WRITE_FAULTS = ["enospc", "eio_write", "close_err", "open_err", "crash", "short_write"]
MAX_SHORTS = 300  # per open file; later calls are served whole
READ_FAULTS = ["eio_read", "open_err_r", "short_read"]


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, rawmode, plan):
        super().__init__()
        self._disk = disk
        self._f = io.FileIO(path, rawmode)
        self._plan = plan
        self._written = 0
        self._read = 0
        self._shorts = 0
        self._incarnation = disk.incarnation
        self.name = path
        self.mode = rawmode
        self._closing = False

    # -- capability
    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        if self._dead():
            return 0
        return self._f.truncate(size) if size is not None else self._f.truncate()

    def _dead(self):
        return self._incarnation != self._disk.incarnation

    # -- data
    def write(self, b):
        data = bytes(b)
        self._disk.point("disk-write")
        if self._dead():
            return len(data)  # the process that owned this buffer no longer exists
        if not data:
            return 0
        disk, plan = self._disk, self._plan
        kind, at = plan.get("kind"), plan.get("at", 0)
        if kind in ("enospc", "eio_write", "crash") and not plan.get("spent"):
            room = at - self._written
            if len(data) > room:
                if room > 0:
                    n = self._f.write(data[:room])
                    self._written += n
                    if kind != "crash":
                        return n
                if kind == "crash":
                    disk.crash()
                if kind == "eio_write":
                    plan["spent"] = True
                disk.fired(kind)
                disk.write_failed = True
                code = errno.ENOSPC if kind == "enospc" else errno.EIO
                raise OSError(code, os.strerror(code), self.name)
        if kind == "short_write" and len(data) > 1 and self._shorts < MAX_SHORTS:
            self._shorts += 1
            n = max(1, min(len(data) - 1, at or 1))
            disk.fired(kind)
            data = data[:n]
        n = self._f.write(data)
        self._written += n
        return n

    def readinto(self, b):
        self._disk.point("disk-read")
        disk, plan = self._disk, self._plan
        kind, at = plan.get("kind"), plan.get("at", 0)
        if kind == "eio_read" and self._read >= at and not plan.get("spent"):
            plan["spent"] = True
            disk.fired(kind)
            disk.read_failed = True
            raise OSError(errno.EIO, os.strerror(errno.EIO), self.name)
        view = memoryview(b).cast("B")
        if kind == "eio_read":
            view = view[: max(1, at - self._read)]
        if kind == "short_read" and len(view) > 1 and self._shorts < MAX_SHORTS:
            self._shorts += 1
            disk.fired(kind)
            view = view[: max(1, at)]
        n = self._f.readinto(view)
        self._read += n or 0
        return n

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self._f.close()
        plan = self._plan
        if plan.get("kind") == "close_err" and not plan.get("spent") and not self._dead():
            plan["spent"] = True
            self._disk.fired("close_err")
            self._disk.write_failed = True
            raise OSError(errno.EIO, "delayed write error reported by close", self.name)
        if (
            plan.get("kind") == "crash"
            and not plan.get("spent")
            and not self._dead()
            and self._f_mode_writes()
        ):
            # died after the last byte reached the disk but before close returned
            self._disk.crash()

    def _f_mode_writes(self):
        return any(c in self.mode for c in "wax+")


class Disk:
    """One scratch directory with fault injection; see module docstring."""

    def __init__(self, ctx, callers=None):
        self.ctx = ctx
        self.callers = callers
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="dstdisk."))
        self.incarnation = 0
        self._states = {}
        self.opened = []
        self._abandoned = []

    # -- the fault plan and its effects belong to the caller whose operation runs
    @property
    def _state(self):
        tid = getattr(self.callers.local, "tid", None) if self.callers is not None else None
        return self._states.setdefault(tid, {"plan": {}, "w": False, "r": False})

    plan = property(lambda self: self._state["plan"], lambda self, v: self._state.__setitem__("plan", v))
    write_failed = property(lambda self: self._state["w"], lambda self, v: self._state.__setitem__("w", v))
    read_failed = property(lambda self: self._state["r"], lambda self, v: self._state.__setitem__("r", v))

    def point(self, label):
        """Every disk request is a point where another caller may run."""
        if self.callers is not None:
            self.callers.point(label)

    # -- faults
    def arm(self, plan):
        """Install the fault plan for the next operation (None: none)."""
        self.plan = dict(plan) if plan else {}
        self.write_failed = False
        self.read_failed = False

    def disarm(self):
        self.plan = {}

    def fired(self, kind):
        self.ctx.fault("disk." + kind)
        self.plan["fired"] = True
        self.ctx.log("disk-fault", kind)

    def crash(self):
        self.plan["spent"] = True
        self.fired("crash")
        self.incarnation += 1
        raise SimCrash("process died")

    def path(self, name):
        return os.path.join(self.root, name)

    # -- seam
    def _mine(self, file):
        if isinstance(file, int):
            return None
        try:
            p = os.fsdecode(os.fspath(file))
        except TypeError:
            return None
        p = os.path.realpath(os.path.join(os.getcwd(), p))
        return p if p.startswith(self.root + os.sep) else None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        path = self._mine(file)
        if path is None or opener is not None:
            return _real_open(file, mode, buffering, encoding, errors, newline,
                              closefd, opener)
        return self._open(path, mode, buffering, encoding, errors, newline)

    def _open(self, path, mode, buffering, encoding, errors, newline):
        self.point("disk-open")
        binary = "b" in mode
        base = mode.replace("b", "").replace("t", "")
        writing = any(c in base for c in "wax+")
        plan = self.plan
        kind = plan.get("kind")
        if (kind == "open_err" and writing or kind == "open_err_r" and not writing) and (
            not plan.get("spent")
        ):
            plan["spent"] = True
            self.fired(kind)
            self.write_failed = self.write_failed or writing
            self.read_failed = self.read_failed or not writing
            code = plan.get("errno", errno.EACCES)
            raise OSError(code, os.strerror(code), path)
        raw = SimRaw(self, path, base, plan)
        self.opened.append((os.path.basename(path), mode))
        if binary and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = plan.get("bufsize") or 8192
        if "+" in base:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        text.mode = mode
        if plan.get("bufsize"):
            text._CHUNK_SIZE = plan["bufsize"]  # a legal tuning knob: requests reach the disk early
        return text

    @contextlib.contextmanager
    def mounted(self):
        old = builtins.open, io.open
        builtins.open = self.open
        io.open = self.open
        cwd = os.getcwd()
        os.chdir(self.root)
        try:
            yield self
        finally:
            builtins.open, io.open = old
            os.chdir(cwd)
            self.incarnation += 1  # buffers flushed by garbage collection go nowhere
            shutil.rmtree(self.root, ignore_errors=True)


def gen_write_fault(rng, size_hint=200):
    kind = rng.choice(WRITE_FAULTS)
    plan = {"kind": kind}
    if kind in ("enospc", "eio_write", "crash"):
        plan["at"] = rng.choice([0, 1, 2, rng.randrange(size_hint), rng.randrange(size_hint),
                                 rng.randrange(4 * size_hint)])
    if kind == "short_write":
        plan["at"] = rng.choice([1, 1, 3, 7, 64])
    if kind == "open_err":
        plan["errno"] = rng.choice([errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EIO])
    if rng.random() < 0.5:
        plan["bufsize"] = rng.choice([1, 2, 16, 64])
    return plan


def gen_read_fault(rng, size_hint=200):
    kind = rng.choice(READ_FAULTS)
    plan = {"kind": kind}
    if kind == "eio_read":
        plan["at"] = rng.choice([0, 1, rng.randrange(size_hint)])
    if kind == "short_read":
        plan["at"] = rng.choice([1, 1, 3, 7, 64])
    if kind == "open_err_r":
        plan["errno"] = rng.choice([errno.EACCES, errno.EMFILE, errno.EIO])
    if rng.random() < 0.5:
        plan["bufsize"] = rng.choice([1, 2, 16, 64])
    return plan
