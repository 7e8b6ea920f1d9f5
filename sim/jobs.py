"""joblib under the simulator's control: jobs of a Parallel call run one at a
time, in an order decided by the scenario, and may fail."""
import joblib
from joblib._parallel_backends import ThreadingBackend
from joblib.parallel import register_parallel_backend

_ctl = None


class _Done:
    def __init__(self, value):
        self.value = value

    def get(self, timeout=None):
        if isinstance(self.value, BaseException):
            raise self.value
        return self.value


class JobControl:
    """``perm``: integers used to pick the next job of each call; ``fail``: index of the
    job (counted over the episode) that raises."""

    def __init__(self, sim, perm=(), fail=None, make=None, workers=None):
        self.sim, self.perm, self.fail, self.make = sim, list(perm), fail, make
        self.workers = workers
        self.n = 0
        self.calls = 0

    def __enter__(self):
        global _ctl
        _ctl = self
        return self

    def __exit__(self, *a):
        global _ctl
        _ctl = None


def _parallel_call(self, iterable):
    """Replacement for joblib.Parallel.__call__ (list-returning, all backends)."""
    ctl = _ctl
    jobs = list(iterable)
    if ctl is None:
        return [f(*a, **k) for f, a, k in jobs]
    ctl.calls += 1
    out = [None] * len(jobs)
    left = list(range(len(jobs)))
    if len(left) > 1:
        ctl.sim.nontrivial = True
        ctl.sim.probe("parallel_call_with_several_jobs")
    order = []
    while left:
        c = ctl.perm[ctl.n % len(ctl.perm)] if ctl.perm else 0
        i = left.pop(c % len(left))
        order.append(i)
        n = ctl.n
        ctl.n += 1
        if ctl.fail is not None and n == ctl.fail:
            ctl.sim.fault("parallel_job_fails")
            raise ctl.make()
        f, a, k = jobs[i]
        out[i] = f(*a, **k)
    ctl.sim.event("jobs", tuple(order))
    return out


def install():
    joblib.Parallel.__call__ = _parallel_call
    joblib.Parallel._bmisim = True
    # effective_n_jobs must not depend on the machine
    import joblib.parallel as jp
    import joblib._parallel_backends as jb
    jp.cpu_count = jb.cpu_count = lambda *a, **k: 4
