"""Control at the granularity of single lines (or bytecodes) of the code under test.

Uses sys.monitoring, so code outside /repo runs at full speed.  A *controller*
receives every step; it can raise (an interrupt, an allocation failure, a
kill arriving exactly there) or switch to another simulated thread."""
import gc
import sys
import threading
import types

from sim.core import HarnessError

_M = sys.monitoring
_TOOL = 4
_prefixes = ()
_codes = set()
_controller = None
_grain = "line"
BUDGET = 30_000_000       # lines of the code under test in one run; exceeding it is "no progress"
_left = BUDGET
_sim = None


def start_budget(sim):
    global _left, _sim
    _left, _sim = BUDGET, sim


def _exhausted():
    from sim.core import Violation
    v = Violation("no-progress", f"no end after {BUDGET} steps of the code under test")
    if _sim is not None and _sim.pending is None:
        _sim.pending = v
    raise v


def _walk(code):
    if code in _codes:
        return
    _codes.add(code)
    _M.set_local_events(_TOOL, code, _M.events.LINE if _grain == "line" else _M.events.INSTRUCTION)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c)


def _py_start(code, offset):
    if code.co_filename.startswith(_prefixes):
        _walk(code)
    return _M.DISABLE


def _line(code, line):
    global _left
    _left -= 1
    if _left < 0:
        _exhausted()
    c = _controller
    if c is not None:
        c.on_step(code, line)


def _instr(code, offset):
    c = _controller
    if c is not None:
        c.on_step(code, offset)


def install(prefixes):
    """Call once, after bmi was imported."""
    global _prefixes
    _prefixes = tuple(prefixes)
    _M.use_tool_id(_TOOL, "bmisim")
    _M.register_callback(_TOOL, _M.events.PY_START, _py_start)
    _M.register_callback(_TOOL, _M.events.LINE, _line)
    _M.register_callback(_TOOL, _M.events.INSTRUCTION, _instr)
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(_prefixes):
            _walk(f.__code__)
    _M.set_events(_TOOL, _M.events.PY_START)


def set_grain(grain):
    global _grain
    if grain == _grain:
        return
    _grain = grain
    ev = _M.events.LINE if grain == "line" else _M.events.INSTRUCTION
    for c in _codes:
        _M.set_local_events(_TOOL, c, ev)


class Controlled:
    def __init__(self, controller, grain="line"):
        self.c, self.grain = controller, grain

    def __enter__(self):
        global _controller
        if _controller is not None:
            raise HarnessError("nested controllers")
        set_grain(self.grain)
        _controller = self.c
        return self.c

    def __exit__(self, *a):
        global _controller
        _controller = None
        set_grain("line")


class Steps(int):
    """A number of steps, with the first steps at which every place of the code was reached."""
    places = ()


class Counter:
    """Counts the steps of an operation (and remembers where they were)."""
    KEEP = 32

    def __init__(self):
        self.n = 0
        self.at = {}
        self.ident = threading.get_ident()

    def on_step(self, code, where):
        if threading.get_ident() == self.ident:
            seen = self.at.get((code, where))
            if seen is None:
                self.at[code, where] = [self.n]
            elif len(seen) < self.KEEP:
                seen.append(self.n)
            self.n += 1

    def steps(self):
        s = Steps(self.n)
        s.places = list(self.at.values())
        return s


class Injector:
    """Raises ``make()`` at the ``at``-th step (0-based) of the operation."""

    def __init__(self, sim, at, make, kind):
        self.sim, self.at, self.make, self.kind = sim, at, make, kind
        self.n = 0
        self.fired = None
        self.ident = threading.get_ident()

    def on_step(self, code, where):
        if threading.get_ident() != self.ident:
            return
        n = self.n
        self.n += 1
        if n == self.at:
            self.fired = f"{code.co_filename.rsplit('/', 1)[-1]}:{code.co_qualname}:{where}"
            self.sim.fault(self.kind)
            raise self.make()


class Pauses:
    """Calls ``fn(i)`` at the i-th of the given steps of the operation."""

    def __init__(self, at, fn):
        self.at, self.fn, self.n = sorted(at), fn, 0
        self.done = 0
        self.ident = threading.get_ident()

    def on_step(self, code, where):
        if threading.get_ident() != self.ident:
            return
        while self.done < len(self.at) and self.n >= self.at[self.done]:
            self.done += 1
            self.fn(self.done - 1)
        self.n += 1


def count_steps(fn, grain="line"):
    c = Counter()
    with Controlled(c, grain):
        fn()
    return c.steps()


def place(spec, total):
    """Position of an injection: {"frac": f} or {"end": k} or {"at": n}, or by the place of the
    code ({"loc": f, "occ": g}: any place that was reached is as likely as any other)."""
    if "at" in spec:
        return spec["at"]
    if "loc" in spec:
        places = getattr(total, "places", ())
        if not places:
            return min(max(0, total - 1), int(spec["loc"] * total))
        p = places[min(len(places) - 1, int(spec["loc"] * len(places)))]
        return p[min(len(p) - 1, int(spec["occ"] * len(p)))]
    if "end" in spec:
        return max(0, total - 1 - spec["end"])
    return min(max(0, total - 1), int(spec["frac"] * total))
