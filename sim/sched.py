"""Cooperative scheduling of real threads: exactly one runs, and which one is
decided only by the recorded list of preemptions."""
import sys
import threading
import traceback

from sim.core import HarnessError, Violation

_RealLock = threading.Lock
_RealRLock = threading.RLock
_RealThread = threading.Thread
_current = None

_UNSAFE = ("/jax/", "/jaxlib/", "/equinox/", "/optax/", "/numpyro/", "/tensorflow_probability/", "/joblib/",
           "/pandas/", "importlib")


def _safe_to_park():
    """Do not park a thread while a library that may hold internal locks is below it on the stack."""
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        for u in _UNSAFE:
            if u in name:
                return False
        f = f.f_back
    return True


class _T:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked_on = None
        self.result = None
        self.error = None
        self.ident = None
        self.steps = 0


class Sched:
    """``preempts``: sorted list of [global step, target index]; ``order``: run order."""

    def __init__(self, sim, preempts=(), max_steps=3_000_000, own=()):
        """``own``: list of [thread, step of that thread, target]."""
        self.sim = sim
        self.own = {}
        for w, step, target in own:
            self.own.setdefault(w, []).append([step, target])
        for v in self.own.values():
            v.sort(reverse=True)
        self.preempts = sorted([list(p) for p in preempts])
        self.threads = []
        self.step = 0
        self.max_steps = max_steps
        self.by_ident = {}
        self.trace = []
        self.main = threading.Semaphore(0)
        self.next_p = 0
        self.switches = 0
        self.inject = {}      # thread idx -> (step within the thread, make, kind)
        self.abort = None

    def aim(self, hot, traces):
        """Preemptions by the place of the code; ``hot``: list of [thread, place, occurrence, target]
        with fractions, ``traces``: thread -> mon.Steps of what it does."""
        from sim import mon
        for w, loc, occ, target in hot:
            if traces.get(w):
                self.own.setdefault(w, []).append([mon.place({"loc": loc, "occ": occ}, traces[w]), target])
        for v in self.own.values():
            v.sort(reverse=True)

    def spawn(self, fn):
        t = _T(len(self.threads), fn)
        self.threads.append(t)
        return t

    # -- called by the monitoring callback, in the running thread
    def on_step(self, code, where):
        t = self.by_ident.get(threading.get_ident())
        if t is None:
            return
        self.step += 1
        t.steps += 1
        if self.step > self.max_steps:
            self.abort = self.abort or Violation("no-progress", f"no end after {self.step} steps")
            raise self.abort
        inj = self.inject.get(t.idx)
        if inj is not None and t.steps - 1 >= inj[0]:
            del self.inject[t.idx]
            self.sim.fault(inj[2])
            raise inj[1]()
        if self.next_p < len(self.preempts) and self.step >= self.preempts[self.next_p][0] and _safe_to_park():
            target = self.preempts[self.next_p][1]
            self.next_p += 1
            self.switch_from(t, target, f"{code.co_qualname}:{where}")
            return
        own = self.own.get(t.idx)
        if own and t.steps - 1 >= own[-1][0] and _safe_to_park():
            self.switch_from(t, own.pop()[1], f"{code.co_qualname}:{where}")

    def point(self, label):
        """Explicit yield point (simulated I/O)."""
        t = self.by_ident.get(threading.get_ident())
        if t is None:
            return
        self.step += 1
        t.steps += 1
        if self.next_p < len(self.preempts) and self.step >= self.preempts[self.next_p][0]:
            target = self.preempts[self.next_p][1]
            self.next_p += 1
            self.switch_from(t, target, label)

    def _runnable(self):
        return [t for t in self.threads if not t.done and (t.blocked_on is None or not t.blocked_on.held())]

    def switch_from(self, t, target, where):
        run = [u for u in self._runnable() if u is not t]
        if not run:
            return
        u = next((u for u in run if u.idx == target), run[target % len(run)])
        self.switches += 1
        self.sim.nontrivial = True
        self.trace.append([self.step, t.idx, u.idx, where])
        self.sim.event("switch", t.idx, u.idx, t.steps)
        u.sem.release()
        t.sem.acquire()
        if self.abort:
            raise self.abort

    def block(self, t, lock):
        t.blocked_on = lock
        while lock.held():
            run = [u for u in self._runnable() if u is not t]
            if not run:
                self.abort = Violation("deadlock", "all threads wait for locks")
                for u in self.threads:
                    if not u.done and u is not t:
                        u.sem.release()
                raise self.abort
            self.switches += 1
            run[0].sem.release()
            t.sem.acquire()
            if self.abort:
                raise self.abort
        t.blocked_on = None

    def _body(self, t):
        t.ident = threading.get_ident()
        self.by_ident[t.ident] = t
        t.sem.acquire()
        try:
            if not self.abort:
                t.result = t.fn()
        except BaseException as e:  # noqa: the outcome of the worker
            t.error = e
            t.error_tb = traceback.format_exc()
        t.done = True
        run = self._runnable()
        if run:
            nxt = next((u for u in run if u.idx > t.idx), run[0])
            nxt.sem.release()
        elif all(u.done for u in self.threads):
            self.main.release()
        else:
            self.abort = Violation("deadlock", "remaining threads wait for locks that nobody will release")
            for u in self.threads:
                if not u.done:
                    u.sem.release()

    def run(self, first=0, timeout=240):
        global _current
        _current = self
        ts = [_RealThread(target=self._body, args=(t,), daemon=True) for t in self.threads]
        for th in ts:
            th.start()
        self.threads[first].sem.release()
        ok = self.main.acquire(timeout=timeout)
        _current = None
        if not ok and not self.abort:
            raise HarnessError("scheduler stalled: a thread blocks outside the simulator")
        for th in ts:
            th.join(10)
        if self.abort:
            raise self.abort
        self.sim.steps += self.step
        return [(t.result, t.error) for t in self.threads]


class SimLock:
    """Stands in for threading.Lock / RLock created by the code under test."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._count = 0
        self._real = _RealLock()

    def held(self):
        return self._owner is not None

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            with self._real:
                if self._owner is None or (self._re and self._owner == me):
                    self._owner = me
                    self._count += 1
                    return True
            if not blocking:
                return False
            s = _current
            t = s.by_ident.get(me) if s else None
            if t is None:
                if self._owner == me:
                    raise Violation("deadlock", "lock acquired twice by one thread")
                import time
                time.sleep(0.001)
                continue
            if self._owner == me:
                raise Violation("deadlock", "lock acquired twice by one thread")
            s.block(t, self)

    def release(self):
        self._count -= 1
        if self._count <= 0:
            self._count = 0
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _from_target(prefixes):
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(prefixes)


def install_locks(prefixes):
    prefixes = tuple(prefixes)

    def lock():
        return SimLock(False) if _from_target(prefixes) else _RealLock()

    def rlock():
        return SimLock(True) if _from_target(prefixes) else _RealRLock()

    threading.Lock = lock
    threading.RLock = rlock
