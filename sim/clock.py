"""Virtual time.  Installed before bmi is imported; while active, every clock
of the ``time`` module reads simulated time, advanced only by the simulator."""
import time as _time

_real = {}
_state = None
_NAMES = ["time", "monotonic", "perf_counter", "process_time", "thread_time", "sleep",
          "time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"]


class Clock:
    def __init__(self, sim, wall=1.7e9, mono=1000.0):
        self.sim = sim
        self.mono = mono
        self.wall_offset = wall - mono
        self.cpu = 3.0

    def advance(self, dt, cpu=None):
        self.mono += dt
        self.cpu += dt if cpu is None else cpu
        self.sim.sim_seconds += dt

    def jump_wall(self, dt):
        self.wall_offset += dt
        self.sim.fault("wall_clock_jump_back" if dt < 0 else "wall_clock_jump_forward")

    def __enter__(self):
        global _state
        _state = self
        return self

    def __exit__(self, *a):
        global _state
        _state = None


def _mk(name):
    real = _real[name]

    def shim(*args):
        c = _state
        if c is None:
            return real(*args)
        if name == "sleep":
            c.advance(args[0], cpu=0.0)
            return None
        base = name.removesuffix("_ns")
        if base == "time":
            v = c.mono + c.wall_offset
        elif base in ("monotonic", "perf_counter"):
            v = c.mono
        else:
            v = c.cpu
        return int(v * 1e9) if name.endswith("_ns") else v

    shim.__name__ = name
    return shim


def install():
    if _real:
        return
    for n in _NAMES:
        _real[n] = getattr(_time, n)
    for n in _NAMES:
        setattr(_time, n, _mk(n))


def real(name="perf_counter"):
    return _real.get(name) or getattr(_time, name)
