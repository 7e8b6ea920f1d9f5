"""Simulated child processes: stands in for subprocess.Popen, so that
check_output / run / call / Popen of the code under test all end up here."""
import errno
import io
import os
import signal
import subprocess

from sim import fakeprog
from sim.core import HarnessError, SimCrash

_RealPopen = subprocess.Popen
_world = None


class World:
    """``programs``: basename -> function(argv) -> (stdout bytes, stderr bytes, code).
    ``plans``: list of dicts for the 1st, 2nd, ... spawn (missing: healthy)."""

    def __init__(self, sim, programs, plans=(), clock=None, sched=None):
        self.sim, self.programs, self.plans, self.clock, self.sched = sim, programs, plans if hasattr(plans, "current") else list(plans), clock, sched
        self.procs = []
        self.spawned = 0

    def __enter__(self):
        global _world
        _world = self
        subprocess.Popen = FakePopen
        return self

    def __exit__(self, *a):
        global _world
        _world = None
        subprocess.Popen = _RealPopen

    def orphans(self):
        """Children that still run (nobody waited for them and nobody killed them)."""
        return [p for p in self.procs if not p.finished and not p.killed]

    def unreaped(self):
        return [p for p in self.procs if not p.reaped]


class FakePopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        w = self.world = _world
        if w is None:
            raise HarnessError(f"unexpected child process {args}")
        if isinstance(args, (str, bytes)) or shell:
            import shlex
            a = os.fsdecode(args) if not isinstance(args, (list, tuple)) else " ".join(map(os.fsdecode, args))
            argv = shlex.split(a)
        else:
            argv = [os.fsdecode(os.fspath(a)) for a in args]
        self.args = args
        self.argv = argv
        self.plan = w.plans[w.spawned] if w.spawned < len(w.plans) else None
        self.plan = dict(self.plan or {})
        w.spawned += 1
        self.pid = 100000 + w.spawned
        self.returncode = None
        self.finished = False    # the program ended
        self.killed = False
        self.reaped = False
        self.text = bool(text or universal_newlines or encoding or errors)
        self.encoding = encoding or "utf-8"
        self.errors = errors or "strict"
        self._out_pipe = stdout == subprocess.PIPE
        self._err_to_out = stderr == subprocess.STDOUT
        self._err_pipe = stderr == subprocess.PIPE
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None
        self.stdout = self.stderr = None
        self._out = self._err = b""
        self._elapsed = 0.0
        if w.sched:
            w.sched.point("spawn")
        kind = self.plan.get("kind", "ok")
        if kind == "spawn_error":
            w.sim.fault("proc_spawn_" + self.plan["err"])
            code = getattr(errno, self.plan["err"])
            cls = {errno.ENOENT: FileNotFoundError, errno.EACCES: PermissionError}.get(code, OSError)
            raise cls(code, os.strerror(code), argv[0])
        if kind == "interrupt_spawn":
            w.sim.fault("proc_interrupt_at_spawn")
            raise KeyboardInterrupt()
        prog = w.programs.get(os.path.basename(argv[0]))
        if prog is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        self.prog = prog
        w.procs.append(self)
        if self.plan.get("read", "early") == "early":
            self._execute()
        # handing out raw pipes makes the program finish first
        if self._out_pipe and self.plan.get("pipes_now"):
            pass

    # -- the program itself
    def _execute(self):
        if hasattr(self, "_ran"):
            return
        self._ran = True
        out, err, code = self.prog(self.argv)
        self.natural = (out, err, code)
        self.seen = fakeprog.LAST.pop(tuple(self.argv), None)
        p = self.plan
        kind = p.get("kind", "ok")
        if kind == "exit":
            out, err, code = p.get("out", "").encode(), p.get("errtext", "").encode("utf8", "surrogateescape"), p["code"]
        elif kind == "exit_after_output":
            err, code = p.get("errtext", "").encode("utf8", "surrogateescape"), p["code"]
        elif kind == "signal":
            out = out[: p.get("keep", 0)]
            err, code = b"", -p["sig"]
        elif kind == "output":
            out, err, code = p["out"].encode("utf-8", "surrogateescape"), b"", 0
        elif kind == "bytes":
            out, err, code = bytes(p["bytes"]), b"", 0
        elif kind == "stderr_noise":
            err = p["errtext"].encode("utf8", "surrogateescape")
        if kind not in ("ok", "interrupt_wait"):
            self.world.sim.fault("proc_" + kind)
        self._out, self._err, self._code = out, err, code

    def _finish(self):
        if self.finished:
            return
        if self.killed:
            self.finished = True
            self._code = -signal.SIGKILL
            self._out = b""
            self._err = b""
            return
        self._execute()
        self.finished = True

    def _wait_point(self, timeout=None):
        w = self.world
        if w.sched:
            w.sched.point("wait")
        if self.plan.get("kind") == "interrupt_wait" and not self.plan.get("used"):
            self.plan["used"] = True
            w.sim.fault("proc_interrupt_while_waiting")
            raise KeyboardInterrupt()
        left = self.plan.get("duration", 0.0) - self._elapsed
        if left > 0 and not self.finished and not self.killed:
            if timeout is not None and timeout < left:
                self._elapsed += timeout
                if w.clock:
                    w.clock.advance(timeout, 0.0)   # the child computes, not this process
                raise subprocess.TimeoutExpired(self.args, timeout)
            self._elapsed += left
            if w.clock:
                w.clock.advance(left, 0.0)

    def _conv(self, data):
        if self.text:
            return data.decode(self.encoding, self.errors).replace("\r\n", "\n")
        return data

    def communicate(self, input=None, timeout=None):
        if not self.finished:
            self._wait_point(timeout)
            self._finish()
        self.returncode = self._code
        self.reaped = True
        out, err = self._out, self._err
        if self._err_to_out and self._out_pipe:
            out = err + out
        o = self._conv(out) if self._out_pipe else None
        e = self._conv(err) if self._err_pipe else None
        return o, e

    def wait(self, timeout=None):
        if not self.finished:
            self._wait_point(timeout)
            self._finish()
        self.returncode = self._code
        self.reaped = True
        return self.returncode

    def poll(self):
        if self.finished:
            self.returncode = self._code
            self.reaped = True
        elif self.plan.get("duration", 0.0) <= self._elapsed or self.killed:
            self._finish()
            self.returncode = self._code
            self.reaped = True
        return self.returncode

    def kill(self):
        if not self.finished:
            self.killed = True

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, tb):
        if exc_type is KeyboardInterrupt and not self.killed:
            return   # like the real one: do not block a second time on Ctrl-C
        self.wait()

    def __getattribute__(self, name):
        if name in ("stdout", "stderr"):
            d = object.__getattribute__(self, "__dict__")
            if d.get(name) is None and d.get("_out_pipe" if name == "stdout" else "_err_pipe"):
                self._finish()
                o = self._err + self._out if (name == "stdout" and self._err_to_out) else (
                    self._out if name == "stdout" else self._err)
                b = io.BytesIO(o)
                d[name] = io.TextIOWrapper(b, self.encoding, self.errors) if self.text else b
            return d.get(name)
        return object.__getattribute__(self, name)
