"""Sim: everything one session (one interpreter) shares with its episodes."""
import collections
import hashlib
import json
import os
import shutil
import tempfile


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """The simulator itself could not do its work: never reported as a violation."""


class SimCrash(BaseException):
    """The simulated process is killed at this instant."""


class Injected(Exception):
    """An ordinary exception injected by the simulator."""


class InjectedWithOutput(Injected):
    """An injected exception which carries a program's output."""

    def __init__(self, message, output):
        super().__init__(message)
        self.output = output


def _canon(x):
    """A stable, exact text for event payloads."""
    if isinstance(x, float):
        return x.hex() if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (str, int, bool, type(None))):
        return repr(x)
    if isinstance(x, bytes):
        return "b:" + hashlib.sha256(x).hexdigest()[:16]
    if isinstance(x, dict):
        return "{" + ",".join(f"{_canon(k)}:{_canon(x[k])}" for k in sorted(x, key=repr)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(_canon(v) for v in x) + "]"
    if hasattr(x, "tobytes") and hasattr(x, "dtype"):
        return f"a:{x.dtype}:{getattr(x, 'shape', ())}:" + hashlib.sha256(x.tobytes()).hexdigest()[:16]
    return f"<{type(x).__name__}>"


class Sim:
    def __init__(self, keep_log=False):
        base = os.environ.get("SIM_TMP", "/tmp")
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="bmisim-", dir=base))
        self.keep_log = keep_log
        self.faults = collections.Counter()   # fault kinds that really fired
        self.probes = collections.Counter()   # rare conditions that were reached
        self.shared = {}                      # caches that live as long as the session
        self.golden = None                    # reference values computed in other processes
        self.steps = 0                        # yield points / lines executed under control
        self.sim_seconds = 0.0
        self._n = 0
        self.begin()

    # -- episodes
    def begin(self):
        self.log = []
        self._hash = hashlib.sha256()
        self.pending = None
        self.nontrivial = False
        self.ep_faults = collections.Counter()
        self._n += 1
        self.scratch = os.path.join(self.root, f"e{self._n}")
        os.mkdir(self.scratch)

    def end(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def digest(self):
        return self._hash.hexdigest()[:20]

    def event(self, *what):
        text = _canon(what)
        self._hash.update(text.encode() + b"\n")
        if self.keep_log:
            self.log.append(text)

    def fault(self, kind):
        """A fault fired (not merely configured)."""
        self.faults[kind] += 1
        self.ep_faults[kind] += 1
        self.nontrivial = True
        self.event("fault", kind)

    def probe(self, name):
        self.probes[name] += 1

    def fail(self, kind, message):
        v = Violation(kind, message)
        if self.pending is None:
            self.pending = v
        raise v

    def check(self, cond, kind, message):
        if not cond:
            self.fail(kind, message() if callable(message) else message)


def dumps(x):
    return json.dumps(x, sort_keys=True)
