"""Simulated storage.

Files live in a real scratch directory (so code that uses any file API works),
but Python-level ``open`` on paths below it goes through a raw layer that
injects faults at exact byte positions.  A "kill" raises SimCrash out of the
write and freezes the directory as it was at that instant: data still in the
program's buffers is lost, whatever clean-up code does while the exception
unwinds is undone by ``restore_after_crash``."""
import builtins
import errno
import io
import os
import shutil

from sim.core import SimCrash

_orig_open = None
_active = None

ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
       "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT}


def _is_write(mode):
    return any(c in mode for c in "wax+")


class SimRaw(io.FileIO):
    """Raw file with faults.  A plan is a dict with keys: op (open|write|read|close),
    at (byte offset in this stream), err."""

    def __init__(self, fs, name, mode, plans, opener=None):
        self._fs = fs
        self._plans = plans
        self._done = 0
        self._rdone = 0
        self._dead = False
        super().__init__(name, mode, opener=opener)

    def write(self, b):
        if self._dead:
            return len(b)
        view = memoryview(b).cast("B")
        n = len(view)
        for p in self._plans:
            if p["op"] != "write" or p.get("used"):
                continue
            at = max(0, p["at"] - self._done)
            if at < n:
                if p["err"] == "short":      # legal partial write
                    if n > 1:
                        p["used"] = True
                        self._fs.sim.fault("fs_short_write")
                        n = max(1, at)
                        view = view[:n]
                    continue
                p["used"] = True
                if at:
                    super().write(view[:at])
                    self._done += at
                if p["err"] == "kill":
                    self._dead = True
                    self._fs.crash()
                if p["err"] == "interrupt":
                    self._fs.sim.fault("fs_interrupt_in_write")
                    raise KeyboardInterrupt()
                # a full disk stays full for this stream
                if p["err"] in ("ENOSPC", "EDQUOT"):
                    p["used"] = False
                    p["at"] = self._done
                self._fs.sim.fault("fs_write_" + p["err"])
                raise OSError(ERR[p["err"]], "simulated " + p["err"])
        w = super().write(view)
        self._done += w
        return w

    def readinto(self, b):
        for p in self._plans:
            if p["op"] != "read" or p.get("used"):
                continue
            at = p["at"] - self._rdone
            if p["err"] == "short":
                if len(b) > 1:
                    self._fs.sim.faults["fs_short_read"] += 1
                    b = memoryview(b).cast("B")[: max(1, p["at"])]
                continue
            if at <= 0:
                p["used"] = True
                self._fs.sim.fault("fs_read_" + p["err"])
                if p["err"] == "interrupt":
                    raise KeyboardInterrupt()
                raise OSError(ERR[p["err"]], "simulated " + p["err"])
            if at < len(b):
                b = memoryview(b).cast("B")[:at]
        n = super().readinto(b)
        self._rdone += n or 0
        return n

    def readall(self):
        out = bytearray()
        while True:
            buf = bytearray(8192)
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def close(self):
        if self.closed:
            return
        plans = self._plans
        super().close()
        for p in plans:
            if p["op"] == "close" and not p.get("used"):
                p["used"] = True
                if p["err"] == "kill":
                    self._fs.crash()
                self._fs.sim.fault("fs_close_" + p["err"])
                raise OSError(ERR[p["err"]], "simulated " + p["err"])


class FS:
    """``plans``: list of dicts {op, err, at?, match?, nth?}; ``nth`` counts the opens that
    match (write plans count opens for writing, read plans opens for reading)."""

    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.plans = []
        self.counts = {}
        self.crashed = None
        self.opened = []      # (kind, relative path)
        self.on_open = None

    def set_plans(self, plans):
        self.plans = [dict(p) for p in (plans or [])]
        self.counts = {}
        self.opened = []

    def inside(self, path):
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(path)))
        except TypeError:
            return None
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def crash(self):
        self.sim.fault("fs_kill")
        self.freeze()
        raise SimCrash()

    def freeze(self):
        """Remember the directory as of now."""
        snap = self.root.rstrip("/") + ".crash"
        shutil.rmtree(snap, ignore_errors=True)
        shutil.copytree(self.root, snap, symlinks=True)
        self.crashed = snap

    def restore_after_crash(self):
        if self.crashed is None:
            return False
        for name in os.listdir(self.root):
            p = os.path.join(self.root, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        for name in os.listdir(self.crashed):
            os.rename(os.path.join(self.crashed, name), os.path.join(self.root, name))
        shutil.rmtree(self.crashed)
        self.crashed = None
        return True

    def _select(self, path, mode):
        rel = os.path.relpath(path, self.root)
        kind = "w" if _is_write(mode) else "r"
        self.opened.append((kind, rel))
        out = []
        for i, p in enumerate(self.plans):
            if p.get("match") and p["match"] not in rel:
                continue
            wants = {"write": "w", "read": "r", "close": "w", "open": None, "openw": "w", "openr": "r"}[p["op"]]
            if wants is not None and wants != kind:
                continue
            c = self.counts.get(i, 0)
            self.counts[i] = c + 1
            if c != p.get("nth", 0):
                continue
            if p["op"] in ("open", "openw", "openr"):
                self.sim.fault("fs_open_" + p["err"])
                if p["err"] == "kill":
                    self.freeze()
                    raise SimCrash()
                raise OSError(ERR[p["err"]], "simulated " + p["err"], path)
            out.append(p)
        return out

    def __enter__(self):
        global _active
        install()
        _active = self
        return self

    def __exit__(self, *a):
        global _active
        _active = None


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = _active
    path = fs.inside(file) if fs is not None and not isinstance(file, int) else None
    if path is None:
        return _orig_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    plans = fs._select(path, mode)
    raw = SimRaw(fs, path, raw_mode, plans, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        # small buffers make every byte position reachable as a fault point
        size = buffering if buffering > 1 else 512
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw, size)
        elif _is_write(raw_mode):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def install():
    global _orig_open
    if _orig_open is None:
        _orig_open = io.open
        builtins.open = _sim_open
        io.open = _sim_open


def real_open(*a, **k):
    return (_orig_open or io.open)(*a, **k)
