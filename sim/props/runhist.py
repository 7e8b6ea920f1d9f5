"""Histories of benchmark runs against a small model of run_estimator (P01, P02, P03).

A run op: {"est": {...}, "sample": k, "task": str, "seed": int|None, "info": dict|None (P01)
or "shared": index of a dictionary shared by several runs (P02)}."""
import copy
import math
import os
import re
import subprocess

import numpy as np

from sim.core import Injected, InjectedWithOutput, SimCrash
from sim.props.common import call, eqf, g_where, listed, pair, write_csv

TEXTS = ["boom", "", "it's \"both\" quotes", "line one\nline two", "colon: brace { [", "ünïcødé ✓", "100% {x}", "nan", "#", "None",
         "very long " * 40, "first paragraph\n\nsecond paragraph", "  padded  ", "tab\there", "a\r\nb", "ends with a newline\n"]
MARK = re.compile(r"~m\d{6}")
ORDINARY = ["ValueError", "ValueError", "RuntimeError", "RuntimeError", "MemoryError", "MemoryError", "MemoryError", "ZeroDivisionError", "LinAlgError", "AssertionError", "OSError", "KeyError",
            "StopIteration", "TimeoutError", "ImportError", "NotImplementedError", "RecursionError", "Injected", "WithOutput", "FloatingPointError",
            "CalledProcessError", "TimeoutExpired", "UnicodeDecodeError", "TypeError", "BrokenPipeError", "ChildProcessError", "Warning"]
ESCAPING = ["KeyboardInterrupt", "KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "SimCrash", "GeneratorExit"]


OUTPUTS = {"long": b"line of the program's log\n" * 300, "bytes": b"caf\xe9 \xff\xfe stopped\n", "empty": b"", "none": None, "str": "text of the program"}


def make_exc(name, text, out=None):
    if name == "LinAlgError":
        return np.linalg.LinAlgError(text)
    if name == "Injected":
        return Injected(text)
    if name == "WithOutput":
        return InjectedWithOutput(text, "program said: " + text)
    if name == "SimCrash":
        return SimCrash()
    if out and name in ("CalledProcessError", "TimeoutExpired"):
        return subprocess.CalledProcessError(3, ["prog"], output=OUTPUTS[out]) if name == "CalledProcessError" else subprocess.TimeoutExpired(["prog"], 3.0, output=OUTPUTS[out])
    if name == "CalledProcessError":
        return subprocess.CalledProcessError(3, ["prog"], output=b"child output " + text.encode())
    if name == "TimeoutExpired":
        return subprocess.TimeoutExpired(["prog"], 3.0, output=b"partial " + text.encode())
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf8", b"\xff", 0, 1, text)
    cls = getattr(__import__("builtins"), name)
    return cls(text)


def g_fail(rng, escaping=0.2, wordless=0.0):
    f = {"exc": rng.pick(ESCAPING) if rng.chance(escaping) else rng.pick(ORDINARY), "text": "" if rng.chance(wordless) else rng.pick(TEXTS)}
    if f["text"] and rng.chance(0.5):
        f["text"] += f" ~m{rng.randrange(1000000):06d}"  # tells this failure's text from every other one's
    if f["exc"] in ("CalledProcessError", "TimeoutExpired") and rng.chance(0.6):
        f["out"] = rng.pick(list(OUTPUTS))
    return f


def g_value(rng):
    return rng.pick([0.0, 1.25, -0.3, 1e-300, 12345.678, "nan", "inf", "-inf", 0.1, 3])


def g_info(rng, depth=0):
    keys = ["a", "n_steps", "history", "note", "error", "warnings", "subprocess_output", "mi", "seed"]
    out = {}
    for _ in range(rng.randrange(1, 4)):
        k = rng.pick(keys)
        out[k] = rng.pick([1, 0.5, "text", True, None, [1, 2], [[1, 0.5]], {"x": 1}, "", "caller"])
    return out


# neural estimators with tiny trainings: (class, settings); their records come with the most information
NEURAL = [("InfoNCEEstimator", dict(max_n_steps=4, test_every_n_steps=1)), ("DonskerVaradhanEstimator", dict(max_n_steps=11, test_every_n_steps=2, learning_rate=0.3)),
          ("MINEEstimator", dict(max_n_steps=5, test_every_n_steps=2, train_test_split=None)), ("NWJEstimator", dict(batch_size=64)),
          ("MINEEstimator", dict(max_n_steps=12, test_every_n_steps=1, learning_rate=0.5)), ("InfoNCEEstimator", dict(max_n_steps=3, test_every_n_steps=5))]
ODD = [None, "missing", "partly", "same", "zeros"]
NEURAL_DATA = [(0, 30, 1, 1), (1, 24, 2, 1)]


def build_neural(k):
    import bmi.estimators as E
    name, kw = NEURAL[k]
    return getattr(E, name), {"batch_size": 6, "hidden_layers": (3,), "verbose": False, **kw}


def neural_reference(k, d):
    """What a fresh estimator returns in this process."""
    import jax
    cls, kw = build_neural(k)
    from sim import mon
    with jax.disable_jit():
        c = mon.Counter()
        with mon.Controlled(c):
            r = cls(**kw).estimate_with_info(*pair(*NEURAL_DATA[d]))
    return {"steps": c.n, "value": float(r.mi_estimate).hex(), "info": plain(r.additional_information)}


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x.item() if hasattr(x, "item") else x


KINDS = [("stub", 5), ("stub_info", 4), ("func", 3), ("real", 3), ("external", 3), ("garbage", 1)]


def g_est(rng, p_fail, kinds=KINDS, timed=False):
    kind = rng.weighted(kinds)
    e = {"kind": kind}
    if kind in ("stub", "stub_info", "func"):
        e["value"] = g_value(rng)
        e["as"] = rng.pick(["float", "float", "np64", "np32", "jax", "0d"]) if kind != "stub_info" else "float"
        if kind == "stub_info":
            e["info"] = g_info(rng) if rng.chance(0.7) else {}
            e["reported"] = rng.pick([None, None, 0.0, 0.0, 2.5, 1e-7, 3600.0])
        if rng.chance(p_fail):
            e["fail"] = g_fail(rng)
            e["when"] = rng.pick(["before", "after"])
        if not timed and rng.chance(0.3):     # what the same object does differs from one call to the next
            e["calls"] = [{"value": g_value(rng), "info": g_info(rng) if rng.chance(0.7) else {}, "fail": g_fail(rng, 0.1, 0.3) if rng.chance(0.5) else None}
                          for _ in range(rng.randrange(1, 4))]
        if rng.chance(0.12):    # an estimator that benchmarks another one
            e["nested"] = {"value": g_value(rng), "dt": rng.pick([0.0, 0.5, 3600.0]), "info": g_info(rng), "fail": g_fail(rng, 0.0) if rng.chance(0.4) else None}
    elif kind == "neural":
        e["name"] = rng.randrange(len(NEURAL))
        e["d"] = rng.randrange(len(NEURAL_DATA))
        if rng.chance(max(p_fail, 0.6)):
            e["inject"] = dict(g_fail(rng, 0.4), **g_where(rng), grain="line")
    elif kind == "garbage":
        e["returns"] = rng.pick(["none", "str", "list", "object", "badresult", "complex"])
    elif kind == "real":
        e["name"] = rng.pick(["ksg", "cca", "hist", "kde", "ksgslow"])
        if rng.chance(p_fail):
            if rng.chance(0.3):
                e["name"], e["toobig"] = "ksg", True
            else:
                e["inject"] = dict(g_fail(rng), frac=rng.frac(), grain=rng.pick(["line", "line", "instr"]))
    else:
        e["name"] = rng.pick(["r_ksg", "r_lnn", "r_bnsl", "j_ksg", "j_hist", "j_transfer", "j_kernel"])
        e["plan"] = g_plan(rng) if rng.chance(max(p_fail, 0.3)) else {"kind": "ok"}
    return e


def g_plan(rng, interrupts=True):
    k = rng.weighted([("exit", 4), ("exit_after_output", 2), ("signal", 3), ("output", 4), ("bytes", 1), ("spawn_error", 3)]
                     + ([("interrupt_wait", 2), ("interrupt_spawn", 1)] if interrupts else []))
    p = {"kind": k}
    if k == "exit":
        p.update(code=rng.pick([1, 2, 127, 255, 3]), out=rng.pick(["", "0.5\n", "partial ", "1.0"]),
                 errtext=rng.pick(["Error in library(rmi) : there is no package called 'rmi'\n", "", "Execution halted\n", "ERROR: \"x\" isn't\n", "trace of the program\n" * 400, "caf\udce9 \udcff stopped\n"]))
    elif k == "exit_after_output":
        p.update(code=rng.pick([1, 139, 2]), errtext=rng.pick(["", "warning: x\n"]))
    elif k == "signal":
        p.update(sig=rng.pick([9, 11, 6, 15, 2]), keep=rng.pick([0, 2, 50]))
    elif k == "output":
        p.update(out=rng.pick(["", "\n", "NA\n", "Inf estimate\n", "[1] 0.5\n", "0.5 0.6\n", "0.5\n0.6\n", "Warning message:\nfoo\n0.5\n",
                               "0,5\n", "--", "0.5abc\n", "NULL\n", "error: it's \"bad\"\n", "1.5 nats", "0.1.2", "0x10", "0.5\n\nExecution halted\n"]))
    elif k == "bytes":
        p.update(bytes=rng.pick([[255, 254, 48], [0], [48, 46, 0, 53], [192, 128]]))
    elif k == "spawn_error":
        p.update(err=rng.pick(["ENOENT", "EACCES", "EAGAIN", "ENOMEM", "E2BIG"]))
    return p


def build_external(name):
    import bmi.estimators.external.julia_estimators as j
    import bmi.estimators.external.r_estimators as r
    return {"r_ksg": lambda: r.RKSGEstimator(variant=2, neighbors=4), "r_lnn": lambda: r.RLNNEstimator(k=3, truncation=11),
            "r_bnsl": lambda: r.RBNSLEstimator(proc=2), "j_ksg": lambda: j.JuliaKSGEstimator(variant=1, neighbors=6),
            "j_hist": lambda: j.JuliaHistogramEstimator(bins=4), "j_transfer": lambda: j.JuliaTransferEstimator(bins=3),
            "j_kernel": lambda: j.JuliaKernelEstimator(bandwidth=0.7)}[name]()


def real_cls(name):
    import bmi.estimators as E
    from bmi.estimators.ksg import KSGEnsembleFirstEstimatorSlow
    return {"ksg": (E.KSGEnsembleFirstEstimator, dict(neighborhoods=(2, 3))), "cca": (E.CCAMutualInformationEstimator, {}),
            "hist": (E.HistogramEstimator, dict(n_bins_x=3)), "kde": (E.KDEMutualInformationEstimator, dict(kernel_xy="gaussian")),
            "ksgslow": (KSGEnsembleFirstEstimatorSlow, dict(neighborhoods=(2,)))}[name]


def num(v):
    return float(v)


class World:
    """Everything the estimators of one history share."""

    def __init__(self, sim, clock=None):
        self.sim, self.clock = sim, clock
        self.samples = []

    def sample(self, k, n, dx, dy, data=None, odd=None, rewrite=None):
        while len(self.samples) <= k:
            self.samples.append(None)
        if self.samples[k] is None or rewrite is not None:
            if rewrite is not None:     # the file is written anew: other values, another size
                n = max(12, n + rewrite % 3 - 1)
            x, y = pair(k + 1000 * (1 + rewrite) if rewrite is not None else k if data is None else data, n, dx, dy)
            if odd == "missing":        # points without any value, at the end, in between, or all of them
                rows = [n - 1] if n % 3 == 0 else [0, n // 2, n // 2 + 1] if n % 3 == 1 else list(range(n))
                x[rows], y[rows] = np.nan, np.nan
            elif odd == "partly":
                x[n // 2], y[0], y[n - 1, 0] = np.nan, np.inf, -np.inf
            elif odd == "same":
                x[:], y[:] = x[0], y[0]
            elif odd == "zeros":
                x[n // 2:], y[n // 2:] = 0.0, 0.0
            path = os.path.join(self.sim.scratch, f"sample{k}.csv")
            write_csv(path, x, y)
            from sim.fs import real_open
            self.samples[k] = (path, x, y, real_open(path, "rb").read())
            if rewrite is not None:     # keeping the file's time, as a restored or synchronised file has it
                os.utime(path, ns=(10**18, 10**18))
        self.now = self.samples[k]
        return self.samples[k]

    def build(self, e, work):
        """Returns (estimator, expect) where expect is filled in while the run proceeds:
        {"exc": exception raised out of the estimator} or {"value":, "info":, "reported":}."""
        from bmi.estimators.function_wrapper import FunctionalEstimator
        from bmi.interface import BaseModel, EstimateResult, IMutualInformationPointEstimator
        import bmi.benchmark.result  # noqa
        sim, self_ = self.sim, self
        exp = {"info": {}, "reported": None, "exc": None, "returned": False}
        kind = e["kind"]

        def turn():
            turns = [e] + e.get("calls", [])
            exp["turn"] = exp.get("turn", -1) + 1
            return turns[exp["turn"] % len(turns)]

        def body():
            work("before")
            now = turn()
            f = now.get("fail")
            if f and e.get("when") == "before":
                self._raise(exp, f)
            work("main")
            if e.get("nested"):
                self.nested(e["nested"], exp)
            if f:
                self._raise(exp, f)
            work("after")
            v = num(now["value"])
            exp["value"] = v
            exp["returned"] = True
            how = e.get("as", "float")
            if how == "np64":
                return np.float64(v)
            if how == "0d":
                return np.array(v)
            if how == "np32":
                v32 = np.float32(v)
                exp["value"] = float(v32)
                return v32
            if how == "jax":
                import jax.numpy as jnp
                a = jnp.asarray(v)
                exp["value"] = float(a)
                return a
            return v

        if kind == "stub":
            class Stub(IMutualInformationPointEstimator):
                def estimate(self, x, y):
                    self_.seen(x, y)
                    return body()

                def parameters(self):
                    return BaseModel()
            return Stub(), exp
        if kind == "stub_info":
            class StubInfo(IMutualInformationPointEstimator):
                def estimate(self, x, y):
                    return body()

                def estimate_with_info(self, x, y):
                    self_.seen(x, y)
                    v = body()
                    info = copy.deepcopy(([e] + e.get("calls", []))[exp["turn"] % (1 + len(e.get("calls", [])))]["info"])
                    exp["info"], exp["reported"] = copy.deepcopy(info), e["reported"]
                    return EstimateResult(mi_estimate=v, time_in_seconds=e["reported"], additional_information=info)

                def parameters(self):
                    return BaseModel()
            return StubInfo(), exp
        if kind == "func":
            return FunctionalEstimator(lambda x, y: (self.seen(x, y), body())[1]), exp
        if kind == "garbage":
            exp["garbage"] = True
            v = {"none": None, "str": "not a number", "list": [1.0, 2.0], "object": object(), "complex": 1 + 2j, "badresult": None}[e["returns"]]

            class Garbage(IMutualInformationPointEstimator):
                def estimate(self, x, y):
                    return v

                def parameters(self):
                    return BaseModel()
            if e["returns"] == "badresult":
                Garbage.estimate_with_info = lambda self, x, y: None
            return Garbage(), exp
        if kind == "real":
            cls, kw = real_cls(e["name"])
            if e.get("toobig"):
                kw = dict(neighborhoods=(10**6,))
            world = self
            inj = e.get("inject")
            clean = []

            class Gated(cls):
                def estimate(self, x, y):
                    from sim import mon
                    base = super().estimate
                    world.seen(x, y)
                    if inj:
                        total = mon.count_steps(lambda: clean.append(float(cls(**kw).estimate(x, y))), inj["grain"])
                        c = mon.Injector(sim, mon.place(inj, total), lambda: make_exc(inj["exc"], inj["text"], inj.get("out")), "raise_" + inj["exc"])
                        try:
                            with mon.Controlled(c, inj["grain"]):
                                v = base(x, y)
                        except BaseException as ex:
                            not_swallowed(sim, inj, c, ex, cls)
                            exp["exc"] = ex
                            raise
                        # an estimator may cope with an error, but then it gives its usual answer
                        sim.check(not c.fired or near(float(v), clean[-1]), "error-became-a-number",
                                  lambda: f"{inj['exc']} at {c.fired} of {cls.__name__}: the estimate became {v!r}, without the error it is {clean[-1]!r}")
                        sim.check(not c.fired or inj["exc"] not in ESCAPING, "interrupt-swallowed", lambda: f"{inj['exc']} at {c.fired} of {cls.__name__} had no effect")
                    elif e.get("pauses"):
                        total = mon.count_steps(lambda: cls(**kw).estimate(x, y))
                        work("start")
                        with mon.Controlled(mon.Pauses([mon.place(p, total) for p in e["pauses"]], lambda k: work(("before", "main", "after")[k]))):
                            v = base(x, y)
                    else:
                        try:
                            v = base(x, y)
                        except BaseException as ex:
                            exp["exc"] = ex
                            raise
                    exp["value"], exp["returned"] = float(v), True
                    return v
            return Gated(**kw), exp
        if kind == "neural":
            import jax
            cls, kw = build_neural(e["name"])
            inj = e.get("inject")
            ref = self.sim.golden[f"{e['name']},{e['d']}"]

            class GatedNet(cls):
                def estimate_with_info(self, x, y):
                    from sim import mon
                    base = super().estimate_with_info
                    self_.seen(x, y)
                    try:
                        with jax.disable_jit():
                            if e.get("pauses"):
                                work("start")
                                total = sim.golden[f"{e['name']},{e['d']}"]["steps"]
                                with mon.Controlled(mon.Pauses([mon.place(p, total) for p in e["pauses"]], lambda k: work(("before", "main", "after")[k]))):
                                    r = base(x, y)
                                exp["own_time"] = r.time_in_seconds
                            elif not inj:
                                r = base(x, y)
                            else:
                                key = ("neural steps", e["name"], e["d"])
                                if key not in sim.shared:
                                    sim.shared[key] = mon.count_steps(lambda: cls(**kw).estimate_with_info(x, y))
                                c = mon.Injector(sim, mon.place(inj, sim.shared[key]), lambda: make_exc(inj["exc"], inj["text"], inj.get("out")), "raise_" + inj["exc"])
                                with mon.Controlled(c, inj["grain"]):
                                    r = base(x, y)
                    except BaseException as ex:
                        if inj:
                            not_swallowed(sim, inj, c, ex, cls)
                        exp["exc"] = ex
                        raise
                    if inj and c.fired:
                        sim.check(inj["exc"] not in ESCAPING, "interrupt-swallowed", lambda: f"{inj['exc']} at {c.fired} of {cls.__name__} had no effect")
                        sim.check(near(float(r.mi_estimate), float.fromhex(ref["value"])), "error-became-a-number",
                                  lambda: f"{inj['exc']} at {c.fired} of {cls.__name__}: the estimate became {r.mi_estimate!r}, without the error it is {float.fromhex(ref['value'])!r}")
                    exp.update(value=float.fromhex(ref["value"]), info=copy.deepcopy(ref["info"]), returned=True, approx=True)
                    return r
            return GatedNet(**kw), exp
        if kind == "external":
            exp["external"] = True
            return build_external(e["name"]), exp
        raise ValueError(kind)

    def nested(self, k, exp):
        """A run within a run, as a combined estimator does it."""
        from bmi.benchmark import run_estimator
        from bmi.interface import BaseModel, EstimateResult, IMutualInformationPointEstimator
        world, sim = self, self.sim

        class Inner(IMutualInformationPointEstimator):
            def estimate(self, x, y):
                return self.estimate_with_info(x, y).mi_estimate

            def estimate_with_info(self, x, y):
                if world.clock:
                    world.clock.advance(k["dt"], 0.0)
                if k["fail"]:
                    raise make_exc(k["fail"]["exc"], k["fail"]["text"], k["fail"].get("out"))
                return EstimateResult(mi_estimate=num(k["value"]), additional_information=copy.deepcopy(k["info"]))

            def parameters(self):
                return BaseModel()
        t0 = self.clock.mono if self.clock else 0.0
        r = run_estimator(estimator=Inner(), estimator_id="inner", sample_path=self.now[0], task_id="inner task", seed=5)
        if self.clock:
            exp["nested_time"] = self.clock.mono - t0
        sim.check(r.success is (k["fail"] is None) and r.estimator_id == "inner" and r.task_id == "inner task" and r.seed == 5, "nested-run",
                  lambda: f"a run within a run gave {r!r} for {k!r}")
        if not k["fail"]:
            sim.check(eqf(r.mi_estimate, num(k["value"])) and deq(dict(r.additional_information), k["info"]), "nested-run", lambda: f"a run within a run gave {r!r} for {k!r}")
            if self.clock:
                sim.check(abs(r.time_in_seconds - k["dt"]) <= 1e-6, "nested-run", lambda: f"a run within a run took {k['dt']} s, recorded {r.time_in_seconds!r}")
        sim.probe("nested_run")

    def seen(self, x, y):
        """The estimator was given the sample that is in the file now."""
        x0, y0 = self.now[1:3]
        x, y = np.asarray(x), np.asarray(y)
        ok = x.shape == x0.shape and y.shape == y0.shape and np.allclose(x, x0, rtol=1e-9, atol=0, equal_nan=True) and np.allclose(y, y0, rtol=1e-9, atol=0, equal_nan=True)
        self.sim.check(ok, "sample-not-the-file's", lambda: f"the estimator was given {x.shape} {x[:1]} {y.shape} {y[:1]}, the file holds {x0.shape} {x0[:1]} {y0.shape} {y0[:1]}")

    def _raise(self, exp, f):
        ex = make_exc(f["exc"], f["text"], f.get("out"))
        exp["exc"] = ex
        self.sim.fault("raise_" + f["exc"])
        raise ex


def not_swallowed(sim, inj, c, ex, cls):
    sim.check(not c.fired or inj["exc"] not in ESCAPING or type(ex).__name__ == inj["exc"], "interrupt-swallowed",
              lambda: f"{inj['exc']} at {c.fired} of {cls.__name__} became {type(ex).__name__}: {ex}")


def g_history(rng, shared, timed=False, max_runs=8, kinds=KINDS):
    p_fail = rng.pick([0.2, 0.4, 0.7])
    n = rng.log_int(1 if not shared else 2, max_runs)
    n_est = rng.randrange(1, 4)
    ests = [g_est(rng, p_fail, kinds) for _ in range(n_est)] if shared else None
    dims = [(rng.log_int(12, 40), rng.randrange(1, 4), rng.randrange(1, 4)) for _ in range(3)]
    dicts = [g_info(rng) if rng.chance(0.7) else {} for _ in range(rng.randrange(1, 3))]
    ops = []
    for _ in range(n):
        op = {"sample": rng.randrange(3), "task": rng.pick(["task-a", "task-b", "weird id: 'x'"]), "seed": rng.pick([None, 0, 1, 17, 2**40]),
              "id": rng.pick(["est-1", "KSG-5", "é 2"])}
        op["est"] = rng.pick(ests) if shared and rng.chance(0.6) else g_est(rng, p_fail, kinds)
        if shared:
            op["info"] = {"shared": rng.randrange(len(dicts))} if rng.chance(0.75) else {"fresh": g_info(rng)} if rng.chance(0.5) else None
            op["reuse"] = rng.chance(0.9 if op["est"].get("calls") else 0.5)
        else:
            op["info"] = {"fresh": g_info(rng)} if rng.chance(0.5) else {"fresh": {}} if rng.chance(0.2) else None
        op["kwargs"] = rng.pick(["full", "full", "min"])
        op["path"] = rng.pick(["str", "path"])
        if op["est"]["kind"] in ("stub", "stub_info", "func", "garbage") and rng.chance(0.3):
            op["odd"] = rng.pick(["missing", "missing", "partly", "same", "zeros"])
        if shared and rng.chance(0.2):
            op["client_edits_after"] = True
        if rng.chance(0.2):
            op["rewrite"] = rng.randrange(6)
        ops.append(op)
    return {"ops": ops, "dims": dims, "dicts": dicts}


def snapshot(r):
    return copy.deepcopy(r.dict())


def near(a, b):
    return eqf(a, b) or abs(a - b) <= 1e-4 * max(1.0, abs(b))


def deq(a, b, eqf=eqf):
    """Deep equality with NaN == NaN; lists and tuples alike."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(deq(a[k], b[k], eqf) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deq(x, y, eqf) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return eqf(a, b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def run_history(sc, sim, clock=None, check_time=None, work=None, isolation=False):
    from bmi.benchmark import run_estimator
    import pathlib
    from sim import fakeprog, proc
    world = World(sim, clock)
    dicts = [copy.deepcopy(d) for d in sc.get("dicts", [])]
    dicts0 = copy.deepcopy(dicts)
    kept = []       # (record, snapshot, op index)
    cache = {}
    if len(sc["ops"]) > 1:
        sim.nontrivial = True
    for i, op in enumerate(sc["ops"]):
        e = op["est"]
        if e["kind"] == "neural":
            k, n, dx, dy = NEURAL_DATA[e["d"]]
            path, x, y, raw = world.sample(100 + k, n, dx, dy, k)
        else:
            odd = op.get("odd")
            path, x, y, raw = world.sample(op["sample"] + (ODD.index(odd) * 10 if odd else 0), *sc["dims"][op["sample"]], odd=odd, rewrite=op.get("rewrite"))
        key = repr(e)
        if op.get("reuse") and key in cache:
            est, exp = cache[key]
            exp.update(info={}, reported=None, exc=None, returned=False, approx=False, nested_time=0.0)
            exp.pop("value", None)
        else:
            est, exp = world.build(e, work or (lambda where: None))
            cache[key] = (est, exp)
        info = None
        if op.get("info"):
            info = dicts[op["info"]["shared"]] if "shared" in op["info"] else copy.deepcopy(op["info"]["fresh"])
        info0 = copy.deepcopy(info)
        kw = {}
        if op["kwargs"] == "full" or info is not None:
            kw = dict(seed=op["seed"], additional_information=info)
        sample_arg = pathlib.Path(path) if op["path"] == "path" else path
        plan = e.get("plan")
        w = proc.World(sim, fakeprog.programs(), [plan] if plan else [], clock=clock)
        before = clock.mono if clock else 0.0
        with w:
            o = call(run_estimator, estimator=est, estimator_id=op["id"], sample_path=sample_arg, task_id=op["task"], **kw)
        if exp.get("external"):
            predict_external(sim, e, w, exp, x, y)
        sim.event("run", i, e["kind"], o.ok, type(o.exc).__name__, o.value.success if o.ok else None)
        exc = exp["exc"]
        if exc is not None and not isinstance(exc, Exception):
            sim.check(not o.ok, "interrupt-swallowed", lambda: f"{type(exc).__name__} during the run was turned into a record: {o.value!r}")
            sim.check(type(o.exc) is type(exc), "interrupt-changed", lambda: f"{type(exc).__name__} during the run came out as {o!r}")
            sim.probe("interrupt_propagated")
            if isolation:
                check_kept(sim, kept, dicts, dicts0)
            continue
        if not o.ok:
            sim.fail("run-raises", f"run_estimator raised instead of returning a record: {type(o.exc).__name__}: {o.exc} (estimator outcome: {exc!r})")
        r = o.value
        # identity
        for name, want in (("estimator_id", op["id"]), ("task_id", op["task"]), ("n_samples", len(x)), ("seed", kw.get("seed"))):
            sim.check(getattr(r, name) == want, "identity", lambda: f"record says {name}={getattr(r, name)!r}, the run had {want!r}")
        got = r.additional_information
        failed = exc is not None or exp.get("garbage")
        if failed:
            sim.check(r.success is False, "failure-hidden", lambda: f"the estimator raised {exc!r} but the record says success={r.success}, mi={r.mi_estimate}")
            sim.check(math.isnan(r.mi_estimate), "failure-number", lambda: f"failed run recorded the number {r.mi_estimate!r}")
            sim.check(math.isnan(r.time_in_seconds), "failure-time", lambda: f"failed run recorded the time {r.time_in_seconds!r}")
            sim.check("error" in got, "error-missing", lambda: f"failure record without error text: {got!r}")
            if exc is not None and not exp.get("loose_text"):
                sim.check(str(exc) in str(got["error"]), "error-text", lambda: f"error text {str(exc)!r} became {got['error']!r}")
            if exc is not None:
                others = set(MARK.findall(str(got))) - set(MARK.findall(repr(exc) + str(exc) + str(getattr(exc, "output", "")) + str(info0)))
                sim.check(not others, "foreign-text", lambda: f"the record of {exc!r} has text of another failure: {got!r}")
            if exc is not None and getattr(exc, "output", None) is not None:
                out = exc.output
                text = out.decode("utf8", "replace") if isinstance(out, bytes) else str(out)
                shown = str(got.get("subprocess_output", ""))
                ok = text in shown or str(out) in shown or all(part in shown for part in text.split("\n") if part.isascii() and "'" not in part)
                sim.check("subprocess_output" in got and ok, "output-missing", lambda: f"captured output {text!r} missing from the record: {got!r}")
            want_keys = set(info0 or {}) | {"error"} | ({"subprocess_output"} if getattr(exc, "output", None) is not None else set())
            for k in (info0 or {}):
                if k not in ("error", "subprocess_output"):
                    sim.check(k in got and deq(got[k], info0[k]), "caller-info", lambda: f"caller's information {k!r}: {info0[k]!r} became {got.get(k)!r}")
            if exp.get("external") or (exc is not None and hasattr(exc, "output")):
                want_keys.add("subprocess_output")
            extra = set(got) - want_keys
            sim.check(not extra, "foreign-info", lambda: f"failure record has information of unknown origin: { {k: got[k] for k in extra} }")
            sim.probe("failure_record")
        else:
            sim.check(exp["returned"] or exp.get("external"), "harness-model", "model did not see the estimator return")
            sim.check(r.success is True, "success-lost", lambda: f"the estimator returned {exp['value']!r} but the record says {r!r}")
            same = near if exp.get("approx") else eqf
            sim.check(same(r.mi_estimate, exp["value"]), "value-changed", lambda: f"the estimator returned {exp['value']!r}, recorded {r.mi_estimate!r}")
            want = {**(info0 or {}), **exp["info"]}
            sim.check(deq(plain(dict(got)) if exp.get("approx") else dict(got), want, same), "info-changed", lambda: f"information recorded {got!r}, expected {want!r}")
            if check_time:
                check_time(sim, op, exp, r, w)
            sim.probe("success_record")
        if info and info0 and listed(sc, "run-info-not-copied") and (r.additional_information is info or not deq(info, info0)) and deq(info, r.additional_information):
            # the recorded defect: a non-empty dictionary of the caller becomes the record's own; undo it, so that
            # the rest of the history shows anything else that goes wrong
            r = r.copy(update={"additional_information": copy.deepcopy(r.additional_information)})
            info.clear()
            info.update(copy.deepcopy(info0))
            sim.probe("known_finding_run_info_not_copied")
        if isolation and info is not None:
            sim.check(deq(info, info0), "caller-dict-modified", lambda: f"the caller's dictionary {info0!r} was changed to {info!r}")
        if isolation and op.get("client_edits_after") and info is not None:
            # the caller goes on using its own dictionary
            snap = snapshot(r)
            key2 = "caller-reuse"
            old = dict(info)
            info[key2] = i
            sim.check(deq(snapshot(r), snap), "record-aliases-argument", "the record changed when the caller edited its own dictionary")
            info.clear()
            sim.check(deq(snapshot(r), snap), "record-aliases-argument", "the record changed when the caller cleared its own dictionary")
            info.update(old)
        if isolation:
            kept.append((r, snapshot(r), i))
        from sim.fs import real_open
        sim.check(real_open(path, "rb").read() == raw, "sample-modified", "the sample file was changed by a run")
        if isolation:
            check_kept(sim, kept, dicts, dicts0)


def check_kept(sim, kept, dicts, dicts0):
    for r, snap, i in kept:
        sim.check(deq(snapshot(r), snap), "record-changed", lambda: f"the record of run {i} changed after a later run: {snap!r} -> {r.dict()!r}")
    for d, d0 in zip(dicts, dicts0):
        sim.check(deq(d, d0), "caller-dict-modified", lambda: f"the caller's dictionary {d0!r} was changed to {d!r}")


def predict_external(sim, e, w, exp, x, y):
    """What the (simulated) child process did decides the expected outcome."""
    plan = e.get("plan") or {"kind": "ok"}
    kind = plan["kind"]
    if kind in ("interrupt_wait", "interrupt_spawn"):
        exp["exc"] = KeyboardInterrupt()
        return
    if kind == "spawn_error":
        exp["exc"] = Injected("")
        exp["loose_text"] = True
        return
    sim.check(len(w.procs) >= 1, "program-not-run", "an external estimator returned without running its program")
    p = w.procs[-1]
    if kind in ("exit", "exit_after_output", "signal"):
        shown = (p._err + p._out).decode("utf8", "replace").strip()
        exp["exc"] = InjectedWithOutput("", shown) if shown else Injected("")
        exp["loose_text"] = True
        return
    if kind in ("output", "bytes"):
        exp["exc"] = Injected("")
        exp["loose_text"] = True
        return
    exp["value"] = float(p.natural[0])


def golden_plan(seed, tier):
    return [({"k": k, "d": d}, str(10 * k + d)) for k in range(len(NEURAL)) for d in range(len(NEURAL_DATA))]


def golden(sim, args):
    return neural_reference(args["k"], args["d"])


def golden_merge(plans, values):
    return {f"{a['k']},{a['d']}": v for (a, h), v in zip(plans, values)}, None
