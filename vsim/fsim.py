"""Simulated storage.

Files whose path lies under the run's scratch root are opened through this
module instead of the operating system's open(): a FileIO subclass sits at the
bottom of the usual Python I/O stack and decides, from the plan alone, which
call fails, how many bytes a call transfers, which platform default encoding
and line separator are in force, and at which byte the process "crashes"
(from then on nothing reaches the file any more).

Faults are a list of dicts {"op": "open|write|read|close", "nth": k, "kind":...}
counted over the operations of that kind since the last arm(); byte-positioned
faults use {"op": "bytes", "at": k, "kind": "enospc|crash"}.
"""
import builtins
import errno
import io
import os

_real_open = io.open


class SimCrash(BaseException):
    """The simulated process dies here."""


KINDS = {
    "eacces": errno.EACCES, "emfile": errno.EMFILE, "enospc": errno.ENOSPC,
    "eio": errno.EIO, "edquot": errno.EDQUOT, "erofs": errno.EROFS,
}


class FS:
    def __init__(self, root, env):
        self.root = os.path.realpath(root)
        self.env = env
        self.knobs = {"bufsize": 8192, "chunk": 8192, "encoding": "utf-8", "linesep": "\n",
                      "wmax": 0, "rmax": 0}
        self.faults = []
        self.n = {"open": 0, "write": 0, "read": 0, "close": 0}
        self.bytes = 0
        self.crashed = False
        self.epoch = 0
        self.fired = []
        self.byte_budget = {}      # kind -> absolute byte position
        self.ops = 0

    def configure(self, knobs):
        self.knobs.update(knobs or {})

    def arm(self, faults):
        """Install the faults for what follows; counting restarts. Files left
        open by earlier operations (a failed save held by its exception) are
        not subject to them: their late close is not part of what follows."""
        self.epoch += 1
        self.faults = [dict(f) for f in (faults or [])]
        self.n = {k: 0 for k in self.n}
        self.bytes = 0
        self.fired = []

    def disarm(self):
        self.arm([])

    def restart(self):
        """A new process: the disk works again."""
        self.crashed = False
        self.disarm()

    def _fire(self, f, what):
        self.fired.append(f)
        self.env.fault("fs_%s_%s" % (f["op"], f["kind"]))
        self.env.log("fault", f["op"], f["kind"], what)

    def hit(self, op, raw=None):
        """Account one operation; raise if a fault is due at it."""
        if self.crashed:
            if op == "open":
                raise SimCrash("dead process opened a file")
            return None
        if raw is not None and raw._epoch != self.epoch:
            return None
        self.ops += 1
        k = self.n[op]
        self.n[op] = k + 1
        for f in self.faults:
            if f["op"] == op and (f.get("nth", 0) == k or (f.get("sticky") and k >= f.get("nth", 0))):
                return f
        return None

    # ------------------------------------------------------------------
    def owns(self, file):
        if isinstance(file, int):
            return False
        try:
            path = os.fspath(file)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.abspath(path)
        return path == self.root or path.startswith(self.root + os.sep)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if opener is not None or not self.owns(file):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.abspath(os.fsdecode(os.fspath(file)))
        m = mode.replace("t", "")
        binary = "b" in m
        m = m.replace("b", "")
        f = self.hit("open")
        if f is not None:
            self._fire(f, os.path.basename(path))
            if f["kind"] == "crash":
                self.crashed = True
                raise SimCrash("crash at open")
            e = KINDS[f["kind"]]
            raise OSError(e, os.strerror(e), path)
        raw = SimRaw(path, m, self)
        try:
            bufsize = self.knobs["bufsize"] if buffering in (-1, 1) else buffering
            if bufsize == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            if "+" in m:
                buf = io.BufferedRandom(raw, bufsize)
            elif raw.writable():
                buf = io.BufferedWriter(raw, bufsize)
            else:
                buf = io.BufferedReader(raw, bufsize)
            if binary:
                return buf
            enc = encoding
            if enc is None or enc == "locale":
                enc = self.knobs["encoding"]
            nl = newline
            if nl is None and self.knobs["linesep"] != "\n" and not raw.readable():
                nl = self.knobs["linesep"]
            text = io.TextIOWrapper(buf, enc, errors, nl, line_buffering=(buffering == 1))
            text.mode = mode
            try:
                text._CHUNK_SIZE = max(1, self.knobs["chunk"])
            except Exception:
                pass
            return text
        except BaseException:
            raw.close()
            raise


class SimRaw(io.FileIO):
    def __init__(self, path, mode, fs):
        self._fs = fs
        self._epoch = fs.epoch
        self._path = path
        self._done = False
        super().__init__(path, mode)

    def write(self, b):
        fs = self._fs
        if fs.crashed:
            return memoryview(b).nbytes      # goes nowhere: the process is dead
        n = memoryview(b).nbytes
        f = fs.hit("write", self)
        if f is not None:
            k = f["kind"]
            if k == "short":
                m = max(1, min(n, f.get("bytes", 1)))
                if m < n:
                    fs._fire(f, m)
                n = m
            elif k == "eintr":
                fs._fire(f, 0)
                raise InterruptedError(errno.EINTR, "interrupted")
            elif k == "crash":
                fs._fire(f, fs.bytes)
                fs.crashed = True
                raise SimCrash("crash at write")
            else:
                fs._fire(f, fs.bytes)
                raise OSError(KINDS[k], os.strerror(KINDS[k]), self._path)
        elif fs.knobs.get("wmax"):
            n = max(1, min(n, fs.knobs["wmax"]))
        mine = self._epoch == fs.epoch
        for f in fs.faults if mine else []:
            if f["op"] == "bytes" and fs.bytes + n > f["at"]:
                room = f["at"] - fs.bytes
                if f["kind"] == "crash":
                    if room > 0:
                        super().write(memoryview(b).cast("B")[:room])
                        fs.bytes += room
                    fs._fire(f, fs.bytes)
                    fs.crashed = True
                    raise SimCrash("crash at byte %d" % fs.bytes)
                if room <= 0:
                    fs._fire(f, fs.bytes)
                    raise OSError(KINDS[f["kind"]], os.strerror(KINDS[f["kind"]]), self._path)
                n = room
        r = super().write(memoryview(b).cast("B")[:n]) if n else 0
        if mine:
            fs.bytes += r or 0
        return r

    def _limit(self, n):
        fs = self._fs
        f = fs.hit("read", self)
        if f is not None:
            k = f["kind"]
            if k == "short":
                fs._fire(f, 1)
                return max(1, min(n, f.get("bytes", 1)))
            if k == "eintr":
                fs._fire(f, 0)
                raise InterruptedError(errno.EINTR, "interrupted")
            if k == "crash":
                fs._fire(f, 0)
                fs.crashed = True
                raise SimCrash("crash at read")
            fs._fire(f, 0)
            raise OSError(KINDS[k], os.strerror(KINDS[k]), self._path)
        if fs.knobs.get("rmax"):
            return max(1, min(n, fs.knobs["rmax"]))
        return n

    def readinto(self, b):
        mv = memoryview(b).cast("B")
        if mv.nbytes == 0:
            return 0
        return super().readinto(mv[:self._limit(mv.nbytes)])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return super().read(self._limit(size)) if size else b""

    def readall(self):
        out = []
        while True:
            try:
                d = super().read(self._limit(65536))
            except InterruptedError:
                continue
            if not d:
                return b"".join(out)
            out.append(d)

    def truncate(self, size=None):
        if self._fs.crashed:
            return 0
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        fs = self._fs
        w = not self._done and self.writable()
        self._done = True
        f = fs.hit("close", self) if w and not fs.crashed else None
        super().close()
        if f is not None:
            fs._fire(f, 0)
            if f["kind"] == "crash":
                fs.crashed = True
                raise SimCrash("crash at close")
            raise OSError(KINDS[f["kind"]], os.strerror(KINDS[f["kind"]]), self._path)


_current = None


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = _current
    if fs is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    return fs.open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def install(fs):
    global _current
    _current = fs
    builtins.open = _open
    io.open = _open


def real_bytes(path):
    with _real_open(path, "rb") as f:
        return f.read()


def real_write(path, data):
    with _real_open(path, "wb") as f:
        f.write(data)
