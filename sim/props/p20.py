"""P20: a call leaves the process that hosts it as it was, and does not depend on how it was set up."""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import pathlib
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from sim.props import ests, tasks
from sim.props.common import call, g_where, listdir, write_csv

TIERS = {"quick": {"sessions": 8, "episodes": 80}, "thorough": {"sessions": 32, "episodes": 400, "timeout": 1700}}
LISTS = ("ops",)
MIN_LEN = {"ops": 1}
OPTIONAL = ("inject", "fault", "bad", "watch")
INFO = {
    "rule": "Each run: a host process with random settings of its own (floating-point error handling, print options, warning filters, states of the global "
            "generators, environment, working directory, import path, signal handlers, standard streams, pandas and sklearn options, decimal context, "
            "recursion limit, umask, logging, collector) makes 1-8 calls: estimates by 23 configurations through all entry points, samples of 85+ tasks "
            "and samplers, ground truth, saving and reading samples, metadata and records; healthy, rejected, interrupted at any line, or meeting a "
            "failing disk or program. After every call each setting, open file, thread, temporary file and new file is looked at; in part of the calls an "
            "observer also looks before every line. Values and file contents are compared with those under default settings.",
    "real": "estimators, samplers, tasks, run_estimator, files",
    "stub": "R/Julia programs, joblib's scheduler, NUTS, raw file layer, delivery of interrupts",
    "assumptions": ["verbose training draws a progress bar on the error stream: not used here"],
}
HOW = ("KeyboardInterrupt", "MemoryError")
GMM = len(ests.CATALOGUE)
MONTE_CARLO = ("mixture-float64", "bend", "mc-key")        # their ground truth is estimated


def g_host(rng):
    h = {}
    for name, pick in (("err", lambda: {k: rng.pick(["ignore", "warn", "ignore", "call"]) for k in ("divide", "over", "under", "invalid")}),
                       ("print", lambda: {"precision": rng.pick([2, 3, 12]), "threshold": rng.pick([5, 20, 1000]), "suppress": rng.chance(0.5), "linewidth": rng.pick([20, 75])}),
                       ("warn", lambda: [rng.pick(["ignore", "always", "default", "once"]) for _ in range(rng.randrange(1, 4))]),
                       ("env", lambda: rng.pick(["1", "", "ü"])), ("threads", lambda: {k: rng.pick([None, "3", "7"]) for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS", "LOKY_MAX_CPU_COUNT", "JULIA_NUM_THREADS")}), ("cwd", lambda: rng.pick(["plain", "with space", "ü"])), ("path", lambda: rng.randrange(3)),
                       ("signals", lambda: rng.pick([["SIGINT"], ["SIGTERM", "SIGALRM"], ["SIGINT", "SIGUSR1"]])), ("streams", lambda: True),
                       ("pandas", lambda: {"display.precision": rng.pick([1, 3]), "display.max_rows": 4, "mode.chained_assignment": rng.pick([None, "warn", "raise"]), "display.float_format": None}),
                       ("sklearn", lambda: {"assume_finite": rng.chance(0.5), "working_memory": rng.pick([64, 1024])}),
                       ("decimal", lambda: rng.pick([3, 50])), ("recursion", lambda: rng.pick([2500, 4000])), ("umask", lambda: rng.pick([0o27, 0o77, 0])),
                       ("logging", lambda: rng.pick([10, 30, 50])), ("gc", lambda: rng.pick(["off", [300, 5, 5]]))):
        if rng.chance(0.45):
            h[name] = pick()
    h["seed"] = rng.randrange(10**6)
    return h


def gen(rng, session, i, tier):
    neural = rng.chance(0.12)
    ops = []
    for _ in range(rng.log_int(1, 4 if neural else 8)):
        k = rng.weighted([("est", 8), ("sample", 4), ("mi", 2), ("save", 2), ("meta", 1), ("dump", 1), ("read", 1.5)])
        op = {"op": k}
        if k == "est":
            op["i"] = rng.randrange(GMM + 1 if neural else 16)
            op["d"] = rng.randrange(3)
            if neural:
                op["steps"] = rng.randrange(1, 6)
            op["via"] = rng.weighted([("est", 4), ("info", 2), ("run", 3)])
            if rng.chance(0.2) and op["via"] != "run":
                op["bad"] = rng.pick(ests.BAD)
            if op["i"] < GMM and ests.family(op["i"]) in ests.EXTERNAL and rng.chance(0.5):
                from sim.props.p06 import g_plan
                op["plan"] = g_plan(rng)
        else:
            op["obj"] = 8 * rng.randrange(13) + session % 8
            if k == "mi" and rng.chance(0.5):
                op["obj"] = MONTE_CARLO[session % 3]
            op["n"] = rng.pick([9, 12])
            op["seed"] = rng.pick([0, 3, 11])
        if k in ("save", "meta", "dump", "read"):
            op["as"] = rng.pick(["str", "path", "rel"])
            if rng.chance(0.35):
                op["fault"] = {"nth": 0, "op": "read", "at": rng.pick([0, 3, 40]), "err": rng.pick(["EIO", "interrupt"])} if k == "read" else \
                              {"nth": 0, "op": "write", "at": rng.log_int(1, 600) - 1, "err": rng.pick(["EIO", "ENOSPC", "interrupt"])}
        if "fault" not in op and "bad" not in op and rng.chance(0.4):
            op["inject"] = {**g_where(rng), "exc": rng.pick(HOW), "grain": rng.pick(["line", "line", "instr"])}
        if "inject" not in op and rng.chance(0.5):
            op["watch"] = True
        ops.append(op)
    return {"host": g_host(rng), "ops": ops}


def shrink(sc):
    for k in sc["host"]:
        if k != "seed":
            yield {**sc, "host": {a: b for a, b in sc["host"].items() if a != k}}


def prepare(sim):
    from sim import jobs
    from sim.props import mcmc
    import jax
    jax.numpy.zeros(2).block_until_ready()
    jobs.install()
    mcmc.install()


# ---------------------------------------------------------------- the host

class Noise:
    """Somebody else's handlers."""

    def signal(self, *a):
        pass

    def show(self, *a, **k):
        pass

    def err(self, *a):
        pass


class Host(contextlib.ExitStack):
    def __init__(self, sim, h):
        super().__init__()
        self.sim, self.h, self.noise = sim, h, Noise()

    def set(self, fn, old, new):
        fn(new)
        self.callback(fn, old)

    def __enter__(self):
        super().__enter__()
        h = self.h
        w = warnings.filters[:]
        self.callback(lambda: warnings.filters.__setitem__(slice(None), w))
        self.callback(setattr, warnings, "showwarning", warnings.showwarning)
        warnings.showwarning = self.noise.show
        for k, action in enumerate(h.get("warn", [])):
            warnings.filterwarnings(action, message=f"host{k}")
        if "err" in h:
            self.callback(np.seterrcall, np.geterrcall())
            self.callback(lambda e=np.geterr(): np.seterr(**e))
            np.seterrcall(self.noise.err)
            np.seterr(**h["err"])
        if "print" in h:
            self.callback(lambda o=np.get_printoptions(): np.set_printoptions(**o))
            np.set_printoptions(**h["print"])
        for k, v in h.get("threads", {}).items():
            self.callback(os.environ.__setitem__, k, os.environ[k]) if k in os.environ else self.callback(os.environ.pop, k, None)
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        if "env" in h:
            os.environ["BMISIM_HOST"] = h["env"]
            self.callback(os.environ.pop, "BMISIM_HOST", None)
        home = os.getcwd()
        self.room = os.path.join(self.sim.scratch, h.get("cwd", "cwd"))
        os.mkdir(self.room)
        os.chdir(self.room)
        self.callback(os.chdir, home)
        if "path" in h:
            p = sys.path[:]
            self.callback(lambda: sys.path.__setitem__(slice(None), p))
            sys.path.insert(h["path"], "/nonexistent/host")
        for s in h.get("signals", []):
            self.callback(signal.signal, getattr(signal, s), signal.signal(getattr(signal, s), self.noise.signal))
        self.callback(setattr, sys, "stdout", sys.stdout)
        self.callback(setattr, sys, "stderr", sys.stderr)
        self.out = sys.stdout = io.StringIO()
        if h.get("streams"):
            sys.stderr = io.StringIO()
        if "pandas" in h:
            import pandas as pd
            for k, v in h["pandas"].items():
                self.callback(pd.set_option, k, pd.get_option(k))
                pd.set_option(k, v)
        if "sklearn" in h:
            import sklearn
            c = sklearn.get_config()
            self.callback(lambda: sklearn.set_config(**{k: c[k] for k in h["sklearn"]}))
            sklearn.set_config(**h["sklearn"])
        if "decimal" in h:
            self.set(lambda p: setattr(decimal.getcontext(), "prec", p), decimal.getcontext().prec, h["decimal"])
        if "recursion" in h:
            self.set(sys.setrecursionlimit, sys.getrecursionlimit(), h["recursion"])
        if "umask" in h:
            self.callback(os.umask, os.umask(h["umask"]))
        if "logging" in h:
            root = logging.getLogger()
            self.set(root.setLevel, root.level, h["logging"])
        if "gc" in h:
            self.callback(lambda t=gc.get_threshold(): gc.set_threshold(*t))
            self.callback(gc.enable)
            gc.disable() if h["gc"] == "off" else gc.set_threshold(*h["gc"])
        self.tmp = os.path.join(self.sim.scratch, "tmp")
        os.mkdir(self.tmp)
        self.set(lambda t: setattr(tempfile, "tempdir", t), tempfile.tempdir, self.tmp)
        self.callback(np.random.set_state, np.random.get_state())
        self.callback(random.setstate, random.getstate())
        np.random.seed(h["seed"])
        random.seed(h["seed"])
        return self


def generators():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:], random.getstate()


def cheap():
    """Settings that other threads see, cheap enough to look at before every line."""
    s = np.random.get_state()
    return {"numpy generator": (s[2], int(s[1][0]), int(s[1][-1]), s[3:]), "cwd": os.getcwd(), "environment": len(os.environ), "standard streams": (id(sys.stdout), id(sys.stderr)),
            "SIGINT": signal.getsignal(signal.SIGINT), "temporary directory": tempfile.tempdir, "recursion limit": sys.getrecursionlimit(), "collector": gc.isenabled()}


def full(host):
    import jax
    import pandas as pd
    import sklearn
    import yaml
    opts = {k: (id(v) if callable(v) else v) for k, v in np.get_printoptions().items()}
    return {
        "generators": generators(),
        "numpy error handling": (sorted(np.geterr().items()), np.geterrcall()),
        "numpy print options": repr(sorted(opts.items())),
        "warning filters": [(f[0], getattr(f[1], "pattern", f[1]), f[2], getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters],
        "warnings.showwarning": warnings.showwarning,
        "environment": dict(os.environ),
        "cwd": os.getcwd(),
        "sys.path": sys.path[:],
        "signal handlers": [signal.getsignal(getattr(signal, s)) for s in ("SIGINT", "SIGTERM", "SIGALRM", "SIGUSR1", "SIGPIPE", "SIGCHLD")],
        "alarms": (signal.getitimer(signal.ITIMER_REAL), signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF)),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "standard output": host.out.getvalue(),
        "pandas options": [(k, repr(pd.get_option(k))) for k in ("display.precision", "display.max_rows", "display.max_columns", "display.width", "display.float_format",
                                                               "mode.chained_assignment", "mode.copy_on_write", "mode.use_inf_as_na", "compute.use_bottleneck", "compute.use_numexpr")],
        "sklearn configuration": sorted(sklearn.get_config().items()),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "logging": (logging.getLogger().level, [id(x) for x in logging.getLogger().handlers], logging.root.manager.disable, logging.getLevelName(logging.getLogger("jax").level)),
        "collector": (gc.isenabled(), gc.get_threshold()),
        "temporary directory": (tempfile.tempdir, tempfile.template),
        "limits": [resource.getrlimit(getattr(resource, n)) for n in ("RLIMIT_DATA", "RLIMIT_AS", "RLIMIT_NOFILE", "RLIMIT_CPU", "RLIMIT_STACK")],
        "umask": mask(),
        "JAX configuration": sorted((k, repr(v)) for k, v in jax.config.values.items()),
        "YAML types": [sorted(map(repr, getattr(c, a))) for c, a in ((yaml.SafeDumper, "yaml_representers"), (yaml.Dumper, "yaml_representers"), (yaml.SafeDumper, "yaml_multi_representers"),
                                                                      (yaml.SafeLoader, "yaml_constructors"), (yaml.SafeLoader, "yaml_implicit_resolvers"))],
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), sys.gettrace(), sys.getprofile()),
        "threads": sorted(t.name for t in threading.enumerate() if not t.daemon),
        "open files": files(host),
    }


def mask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def files(host):
    """Descriptors of files under the scratch directory, deleted ones, and pipes."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t.startswith((host.sim.scratch, "pipe:")) or "(deleted)" in t and "jax" not in t:
            out.append(t)
    return sorted(out)


def short(v):
    return repr(v)[:160]


class Watch:
    """Looks at the process-wide settings before every line of the code under test."""

    def __init__(self, before):
        self.before, self.seen, self.busy, self.n = before, None, False, 0
        self.ident = threading.get_ident()

    def on_step(self, code, where):
        if self.busy or self.seen or threading.get_ident() != self.ident:
            return
        self.n += 1
        if self.n > 400 and self.n % 29:
            return
        self.busy = True
        try:
            now = cheap()
            for k, v in self.before.items():
                if now[k] != v:
                    self.seen = (f"{code.co_filename.rsplit('/', 1)[-1]}:{where}", k, v, now[k])
        finally:
            self.busy = False


# ---------------------------------------------------------------- operations

def build(i, steps=None):
    if i == GMM:
        from bmi.estimators.external.gmm import GMMEstimator
        return GMMEstimator(n_components=2, mcmc_num_warmup=2, mcmc_num_samples=3, mi_estimate_num_samples=12)
    return ests.build(i, max_n_steps=steps) if steps and ests.family(i) in ests.NEURAL else ests.build(i)


class Made:
    """The files an operation may leave."""


def operation(sim, op, room, est=None, obj=None):
    """() -> comparable value"""
    from bmi.benchmark import run_estimator
    from bmi.utils import read_sample, save_sample
    k = op["op"]
    if k == "est":
        x, y = ests.data(op["d"])
        if op.get("bad"):
            x, y = ests.spoil(x, y, op["bad"])

        def fn():
            if op["via"] == "est":
                return float(est.estimate(x, y))
            if op["via"] == "info":
                return float(est.estimate_with_info(x, y).mi_estimate)
            path = os.path.join(room, "sample.csv")
            if not os.path.exists(path):
                write_csv(path, x, y)
            r = run_estimator(estimator=est, estimator_id="e", sample_path=path, task_id="t")
            if not r.success:
                raise RuntimeError(f"run failed: {r.additional_information}")
            return float(r.mi_estimate)
        return fn
    if k == "sample":
        return lambda: tuple(np.asarray(a) for a in obj.sample(op["n"], op["seed"]))
    if k == "mi":
        return lambda: float(obj.mutual_information if hasattr(obj, "save_metadata") else obj.mutual_information())
    path = {"str": os.path.join(room, "made.txt"), "path": pathlib.Path(room) / "made.txt", "rel": "made.txt"}[op["as"]]

    def text():
        from sim.fs import real_open
        with real_open(os.path.join(room, "made.txt"), "rb") as f:
            return f.read()
    if k == "save":
        def fn():
            save_sample(path, *ests.data(op["seed"] % 3))
            return text()
    elif k == "meta":
        def fn():
            obj.save_metadata(path)
            return text()
    elif k == "dump":
        from bmi.benchmark.result import RunResult
        r = RunResult(estimator_id="e", task_id="t", seed=3, n_samples=7, mi_estimate=np.float64(0.1) + op["seed"], time_in_seconds=0.1234567891234, success=True,
                      additional_information={"a": np.arange(op["seed"] + 3) / 7, "b": np.float32(1 / 3), "c": [1e-5, float("nan")], "d": {"e": "ü\n"}})

        def fn():
            r.dump(path)
            return text()
    else:
        p = os.path.join(room, "made.txt")

        def fn():
            if not os.path.exists(p):
                write_csv(p, *ests.data(op["seed"] % 3))
            return tuple(np.asarray(a) for a in read_sample(path))
    return fn


def equal(op, a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(tasks.same_array(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return abs(a - b) <= 1e-4 * max(1, abs(b)) or a != a and b != b or a == b
    return a == b


def subject(sim, op, objs):
    """(estimator, task or sampler), or None when the operation makes no sense."""
    if op["op"] == "est":
        key = ("e", op["i"], op.get("steps"))
        if key not in objs or op["i"] == GMM:
            objs[key] = build(op["i"], op.get("steps"))
        return objs[key], None
    cat = tasks.get(sim)
    e = cat[tasks.index(sim, op["obj"])]
    if e.name not in objs:
        objs[e.name] = e.build()[0]
    return None, objs[e.name]


def applicable(op, obj):
    return op["op"] != "meta" or hasattr(obj, "save_metadata")


def reference(sim, op):
    """Value under default settings, with objects of its own, before the host is set up."""
    if op.get("bad") or op.get("plan"):
        return None
    key = ("p20", op["op"], op.get("i"), op.get("d"), op.get("via") == "run", op.get("obj") and tasks.index(sim, op["obj"]), op.get("n"), op.get("seed"), op.get("steps"))
    if key not in sim.shared:
        room = os.path.join(sim.scratch, f"ref{len(sim.shared)}")
        os.mkdir(room)
        est, obj = subject(sim, op, {})
        home = os.getcwd()
        os.chdir(room)
        try:
            with ests.world(sim):
                sim.shared[key] = call(operation(sim, op, room, est, obj)) if applicable(op, obj) else None
        finally:
            os.chdir(home)
    return sim.shared[key]


def run(sc, sim):
    from sim import fakeprog, fs as simfs, jobs, mon, proc
    refs = [reference(sim, op) for op in sc["ops"]]
    totals = sim.shared.setdefault("totals", {})
    sim.nontrivial = True
    objs = {}
    for op in sc["ops"]:
        subject(sim, op, objs)
    fs = simfs.FS(sim, sim.scratch)
    with Host(sim, sc["host"]) as host, fs:
        for n, op in enumerate(sc["ops"]):
            est, obj = subject(sim, op, objs)
            if not applicable(op, obj):
                continue
            room = os.path.join(host.room, f"op{n}")
            os.mkdir(room)
            os.chdir(room)
            inj = op.get("inject")
            key = (op["op"], op.get("i"), op.get("d"), op.get("via"), op.get("obj"), op.get("n"), op.get("seed"), inj["grain"] if inj else None, repr(op.get("plan")))
            if inj and key not in totals:
                side = os.path.join(sim.scratch, "side")
                os.mkdir(side)
                os.chdir(side)
                totals[key] = 1000
                with proc.World(sim, fakeprog.programs(), [op["plan"]] if op.get("plan") else []), jobs.JobControl(sim, perm=[2, 0, 1, 3]), contextlib.suppress(Exception, KeyboardInterrupt):
                    totals[key] = mon.count_steps(operation(sim, op, side, *subject(sim, op, {})), inj["grain"])
                os.chdir(room)
                shutil.rmtree(side)
            with proc.World(sim, fakeprog.programs(), [op["plan"]] if op.get("plan") else []), jobs.JobControl(sim, perm=[2, 0, 1, 3]):
                fn = operation(sim, op, room, est, obj)
                c = w = None
                before = full(host)
                if inj:
                    c = mon.Injector(sim, mon.place(inj, totals[key]), {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[inj["exc"]], "raise_" + inj["exc"])
                elif op.get("watch"):
                    c = w = Watch(cheap())
                fs.set_plans([op["fault"]] if op.get("fault") else [])
                if c is not None:
                    with mon.Controlled(c, inj["grain"] if inj else "line"):
                        o = call(fn)
                else:
                    o = call(fn)
                fs.set_plans([])
            how = f"op {n} {op}: {o!r}"
            ok, value, failed = o.ok, o.value, type(o.exc).__name__
            o = fn = None
            sim.event(n, op["op"], ok, failed, w.n if w else None)
            if w is not None and w.seen:
                sim.fail("changed-meanwhile", f"during {how}, at {w.seen[0]}: {w.seen[1]} was {short(w.seen[2])} and is {short(w.seen[3])}")
            after = full(host)
            if excess(before, after) or after["threads"] != before["threads"] or listdir(host.tmp):
                gc.collect()              # an exception kept alive by the interpreter may still own its file
                after = full(host)
            if not excess(before, after):
                after["open files"] = before["open files"]
            for k in before:
                if before[k] != after[k]:
                    sim.fail("host-changed", f"{k} before: {short(diff(before[k], after[k]))}, after: {short(diff(after[k], before[k]))}; {how}")
            sim.check(not listdir(host.tmp), "temp-left", lambda: f"temporary files {listdir(host.tmp)} left by {how}")
            os.chdir(host.room)
            new = set(listdir(room)) - {"sample.csv", "made.txt"}
            sim.check(not new, "files-left", lambda: f"files {sorted(new)} left by {how}")
            outside = {p for p in listdir(sim.scratch) if not p.startswith(os.path.relpath(host.room, sim.scratch) + os.sep) and not p.startswith("ref")}
            sim.check(not outside, "files-left", lambda: f"files {sorted(outside)} left by {how}")
            sim.probe("calls_after_which_the_host_was_unchanged")
            if w is not None:
                sim.probe("lines_observed")
            ref = refs[n]
            if ok and ref is not None and not inj and not op.get("fault"):
                sim.check(ref.ok and equal(op, value, ref.value), "depends-on-host", lambda: f"{how}; under default settings {ref!r}")
                sim.probe("values_compared_with_default_settings")
            elif not ok and ref is not None and not inj and not op.get("fault"):
                sim.check(not ref.ok, "depends-on-host", lambda: f"{how}; under default settings {ref!r}")


def excess(before, after):
    left = list(before["open files"])
    return [t for t in after["open files"] if not (t in left and left.remove(t) is None)]


def diff(a, b):
    """What a has and b has not."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        d = [x for x in a if x not in b]
        return d or a
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: v for k, v in a.items() if k not in b or b[k] != v}
    return a
