"""P06: external estimators hand over the complete sample and return exactly the printed number, or fail cleanly."""
import gc
import math
import os
import pathlib
import tempfile
import threading

import numpy as np

from sim.props.common import call, eqf, listdir, rarray, write_csv
from sim.props import runhist

TIERS = {"quick": {"sessions": 8, "episodes": 320}, "thorough": {"sessions": 32, "episodes": 800, "timeout": 1500}}
LISTS = ("ops", "preempts")
MIN_LEN = {"ops": 1}
INFO = {
    "rule": "Each run: 1-6 estimations by any of the seven external estimators with random options on random samples, given as "
            "arrays or as a file, through every public entry point, one after the other or in 2-3 simulated threads. The child "
            "process succeeds, prints garbage, exits with an error, is killed by a signal, cannot be started or is interrupted; "
            "the temporary sample file meets storage faults.",
    "real": "bmi.estimators.external (R and Julia front ends), save_sample, read_sample_dims, run_estimator, subprocess.check_output/run, tempfile",
    "stub": "subprocess.Popen and the R/Julia programs behind it; raw file layer; thread scheduling",
    "assumptions": ["the fake programs follow the command line of external/rmi.R and external/mi_estimator.jl",
                    "interrupts are delivered at I/O (file writes and reads, spawning, waiting), not between arbitrary bytecodes"],
}
NUMBERS = ["0.5\n", "-0.01\n", "1e-5", "12\n", "+0.3\n", "  0.25  \n\n", "0.1234567890123456789\n", "0\n", "-0.0", "1.7976931348623157e308\n", "3.\n", ".5\n"]
AMBIG = ["nan\n", "NaN", "inf\n", "-Inf\n"]


def g_cfg(rng):
    name = rng.pick(["rksg", "rlnn", "rbnsl", "jksg", "jhist", "jtransfer", "jkernel"])
    kw = {}
    if name in ("rksg", "jksg"):
        kw = {"variant": rng.pick([1, 2]), "neighbors": rng.log_int(1, 60) if rng.chance(0.8) else rng.log_int(60, 5000)}
    elif name == "rlnn":
        kw = {"k": rng.log_int(1, 60) if rng.chance(0.8) else rng.log_int(60, 3000), "truncation": rng.log_int(1, 90) if rng.chance(0.8) else rng.log_int(90, 3000)}
    elif name == "rbnsl":
        kw = {"proc": rng.pick([1, 2, 10])}
    elif name in ("jhist", "jtransfer"):
        kw = {"bins": rng.log_int(2, 60) if rng.chance(0.8) else rng.log_int(60, 5000)}
    else:
        kw = {"bandwidth": rng.pick([0.1, 1.0, 2.5, 1 / 3, 1e-3, 12.0, 0.1 + 0.2])}
    if rng.chance(0.3):
        kw = {k: kw[k] for k in list(kw) if rng.chance(0.4)}
    return name, kw


def g_plan(rng):
    k = rng.weighted([("ok", 6), ("number", 2), ("ambig", 0.7), ("noise", 1), ("fail", 7)])
    if k == "ok":
        return {"kind": "ok"}
    if k == "number":
        return {"kind": "output", "out": rng.pick(NUMBERS)}
    if k == "ambig":
        return {"kind": "output", "out": rng.pick(AMBIG)}
    if k == "noise":
        return {"kind": "stderr_noise", "errtext": rng.pick(["Warning message:\nfoo\n", "0.75\n", "info\n"])}
    return runhist.g_plan(rng)


def g_op(rng, threads):
    name, kw = g_cfg(rng)
    n = rng.log_int(1, 60)
    if not threads and rng.chance(0.012):
        n = rng.pick([600, 1100, 2600, 5200, 10100])
    dt = rng.pick(["float64", "float64", "float64", "float32", "int64", "int32"])
    kind = "int" if dt in ("int64", "int32") else rng.pick(["normal", "tails"])
    dx, dy = (rng.randrange(1, 4), rng.randrange(1, 4)) if rng.chance(0.8) else (rng.randrange(1, 14), rng.randrange(1, 14))
    op = {"est": name, "kw": kw, "x": {"seed": rng.randrange(10**6), "n": n, "d": dx, "kind": kind, "dtype": dt},
          "y": {"seed": rng.randrange(10**6), "n": n, "d": dy, "kind": kind, "dtype": dt},
          "via": rng.weighted([("estimate", 4), ("info", 3), ("path", 3), ("run", 2)]),
          "plan": g_plan(rng), "shared_obj": rng.chance(0.4)}
    op["plan"]["duration"] = rng.pick([0.0, 0.0, 0.0, 5.0, 4000.0, 10.0**6])
    op["plan"]["read"] = rng.pick(["early", "late"])
    if op["via"] in ("path", "run"):
        op["file"] = rng.pick(["s.csv", "it's a sample.csv", "-dash.csv", "ü.csv", "sub/dir/s.csv", "noext", "--x=1.csv"])
        op["as"] = rng.pick(["str", "path", "rel"])
    else:
        op["as"] = rng.pick(["array", "array", "list", "fortran"])
    if not threads and rng.chance(0.3):
        w = rng.weighted([("write", 4), ("read", 3), ("tmp", 1)])
        if w == "tmp":
            op["tmp_missing"] = True
        else:
            at = rng.log_int(1, 1500) - 1 if w == "write" else rng.pick([0, 1, 3, 40])
            op["fault"] = {"nth": rng.pick([0, 1, 1, 1]) if w == "write" else rng.pick([0, 0, 1]), "op": w, "at": at, "err": rng.pick(["EIO", "ENOSPC", "interrupt"] if w == "write" else ["EIO", "interrupt"])}
    return op


def gen(rng, session, i, tier):
    threads = rng.pick([0, 0, 2, 3])
    ops = [g_op(rng, threads) for _ in range(max(threads, rng.log_int(1, 6)))]
    sc = {"ops": ops, "threads": threads}
    if threads:
        for k, op in enumerate(ops):
            op["thread"] = k % threads
            if op["plan"]["kind"].startswith("interrupt") and rng.chance(0.5):
                op["plan"]["kind"] = "ok"
        pool = 110 * len(ops)
        sc["preempts"] = sorted([rng.randrange(1, pool), rng.randrange(threads)] for _ in range(rng.log_int(1, 12)))
    return sc


def shrink(sc):
    if sc["threads"]:
        return
    for i, op in enumerate(sc["ops"]):
        if op["x"]["n"] > 1:
            yield {**sc, "ops": sc["ops"][:i] + [{**op, "x": {**op["x"], "n": 1}, "y": {**op["y"], "n": 1}}] + sc["ops"][i + 1:]}
        if op["plan"]["kind"] != "ok":
            yield {**sc, "ops": sc["ops"][:i] + [{**op, "plan": {"kind": "ok"}}] + sc["ops"][i + 1:]}


def classes():
    import bmi.estimators.external.julia_estimators as j
    import bmi.estimators.external.r_estimators as r
    return {"rksg": r.RKSGEstimator, "rlnn": r.RLNNEstimator, "rbnsl": r.RBNSLEstimator, "jksg": j.JuliaKSGEstimator,
            "jhist": j.JuliaHistogramEstimator, "jtransfer": j.JuliaTransferEstimator, "jkernel": j.JuliaKernelEstimator}


def options(name, params):
    """What the program must have been asked to do, given the estimator's declared parameters."""
    p = params
    if name == "rksg":
        return ("R", f"KSG{p.variant}", p.neighbors)
    if name == "rlnn":
        return ("R", "LNN", p.k, p.truncation)
    if name == "rbnsl":
        return ("R", "BNSL", p.proc)
    if name == "jksg":
        return ("julia", f"KSG{p.variant}", p.neighbors)
    if name == "jhist":
        return ("julia", "Histogram", p.bins)
    if name == "jtransfer":
        return ("julia", "Transfer", p.bins)
    return ("julia", "Kernel", p.bandwidth)


def layout(a, how):
    return a.tolist() if how == "list" else np.asfortranarray(a) if how == "fortran" else a


def run(sc, sim):
    from sim import fakeprog, proc
    from sim.fs import FS
    from sim.sched import Sched
    tmp = os.path.join(sim.scratch, "tmp")
    data = os.path.join(sim.scratch, "data")
    os.makedirs(tmp)
    os.makedirs(data)
    old_tmp, old_cwd = tempfile.tempdir, os.getcwd()
    tempfile.tempdir = tmp
    os.chdir(data)
    objs = {}
    if len(sc["ops"]) > 1:
        sim.nontrivial = True
    try:
        fs = FS(sim, sim.scratch)
        if not sc["threads"]:
            with fs:
                for k, op in enumerate(sc["ops"]):
                    prep = prepare_op(sc, sim, k, op, data, objs)
                    with proc.World(sim, fakeprog.programs(), [op["plan"]]) as w:
                        if op.get("tmp_missing"):
                            tempfile.tempdir = os.path.join(sim.scratch, "gone")
                            sim.fault("tmp_dir_missing")
                        fs.set_plans([op["fault"]] if op.get("fault") else [])
                        before = dict(sim.ep_faults)
                        o = call(prep["fn"])
                        fs.set_plans([])
                        tempfile.tempdir = tmp
                        hit = [n for n in sim.ep_faults if n.startswith("fs_") and sim.ep_faults[n] > before.get(n, 0)]
                        judge(sim, k, op, prep, o, w.procs, hit)
                        o = None
                        if listdir(tmp):      # an exception kept alive by the interpreter may still own its file
                            gc.collect()
                        sim.check(not w.orphans(), "child-left", lambda: f"a child process is still running: {w.orphans()[0].argv}")
                        sim.check(not listdir(tmp), "temp-left", lambda: f"temporary files left behind: {listdir(tmp)} (op {k}: {op})")
                        check_files(sim, data, sc, k)
        else:
            preps = [prepare_op(sc, sim, k, op, data, objs) for k, op in enumerate(sc["ops"])]
            s = Sched(sim, sc.get("preempts", []))
            outs = {}
            with proc.World(sim, fakeprog.programs(), PlanByCall(sc), sched=s) as w:
                def worker(t):
                    def body():
                        for k, op in enumerate(sc["ops"]):
                            if op["thread"] == t:
                                w.plans.current[threading.get_ident()] = k
                                outs[k] = call(preps[k]["fn"])
                    return body
                for t in range(sc["threads"]):
                    s.spawn(worker(t))
                from sim import mon
                with mon.Controlled(s):
                    res = s.run()
                for r, e in res:
                    if e is not None:
                        raise e
                for k, op in enumerate(sc["ops"]):
                    judge(sim, k, op, preps[k], outs[k], [p for p in w.procs if p.plan.get("call") == k], [])
                outs.clear()
                if listdir(tmp):
                    gc.collect()
                sim.check(not w.orphans(), "child-left", lambda: f"a child process is still running: {w.orphans()[0].argv}")
                sim.check(not listdir(tmp), "temp-left", lambda: f"temporary files left behind: {listdir(tmp)}")
                check_files(sim, data, sc, len(sc["ops"]) - 1)
    finally:
        tempfile.tempdir = old_tmp
        os.chdir(old_cwd)


class PlanByCall:
    """Plans of child processes, found by the estimation (not the order) they belong to."""

    def __init__(self, sc):
        self.sc, self.current = sc, {}

    def __iter__(self):
        return iter([self])

    def __len__(self):
        return 10**9

    def __getitem__(self, i):
        k = self.current[threading.get_ident()]
        return dict(self.sc["ops"][k]["plan"], call=k)


def prepare_op(sc, sim, k, op, data, objs):
    from bmi.benchmark import run_estimator
    from sim.fs import real_open
    x, y = rarray(op["x"]), rarray(op["y"])
    key = repr((op["est"], sorted(op["kw"].items())))
    if op["shared_obj"] and key in objs:
        est = objs[key]
    else:
        est = classes()[op["est"]](**op["kw"])
        objs[key] = est
    prep = {"x": x, "y": y, "est": est, "opts": options(op["est"], est.parameters())}
    via = op["via"]
    if via in ("path", "run"):
        base = os.path.join(data, f"d{k}", op["file"])
        os.makedirs(os.path.dirname(base), exist_ok=True)
        write_csv(base, x, y)
        prep["file"] = base
        prep["raw"] = real_open(base, "rb").read()
        arg = {"str": base, "path": pathlib.Path(base), "rel": os.path.relpath(base, data)}[op["as"]]
        if via == "path":
            prep["fn"] = lambda: est.estimate_with_info_from_path(arg).mi_estimate
        else:
            prep["fn"] = lambda: run_estimator(estimator=est, estimator_id="e", sample_path=arg, task_id="t", seed=k)
    else:
        xa, ya = layout(x, op["as"]), layout(y, op["as"])
        if via == "estimate":
            prep["fn"] = lambda: est.estimate(xa, ya)
        else:
            prep["fn"] = lambda: est.estimate_with_info(xa, ya).mi_estimate
    return prep


def check_files(sim, data, sc, upto):
    from sim.fs import real_open
    want = sorted(os.path.join(f"d{k}", op["file"]) for k, op in enumerate(sc["ops"])
                  if op["via"] in ("path", "run") and (k <= upto or sc["threads"]))
    got = listdir(data)
    sim.check(got == want, "files", lambda: f"files beside the samples: {got}, expected {want}")
    for f in want:
        k = int(f.split("/")[0][1:])
        op = sc["ops"][k]
        write_csv(os.path.join(sim.scratch, "ref.csv"), rarray(op["x"]), rarray(op["y"]))
        a = real_open(os.path.join(data, f), "rb").read()
        b = real_open(os.path.join(sim.scratch, "ref.csv"), "rb").read()
        os.unlink(os.path.join(sim.scratch, "ref.csv"))
        sim.check(a == b, "sample-modified", f"the sample file {f} was changed")


def shows(text, shown):
    """Is the program's output visible in the error?  (repr of bytes or text, any quoting)"""
    flat = "".join(c for c in shown.replace("\\n", "").replace("\\t", "") if not c.isspace() and c not in "'\"\\")
    # (what is not plain text may be shown as any replacement)
    parts = "".join(c if c.isascii() else "\n" for c in text).split("\n")
    return all("".join(c for c in part if not c.isspace() and c not in "'\"\\") in flat for part in parts)


def judge(sim, k, op, prep, o, procs, fs_hit):
    plan = op["plan"]
    kind = plan["kind"]
    if op["via"] == "run" and o.ok:
        r = o.value
        if r.success:
            from sim.props.common import Out
            o = Out(value=r.mi_estimate)
        else:
            sim.check(math.isnan(r.mi_estimate), "failure-number", lambda: f"a failed run recorded {r.mi_estimate!r}")
            o2 = type("Failed", (Exception,), {})(str(r.additional_information))
            from sim.props.common import Out
            o = Out(exc=o2)
    sim.event("call", k, op["est"], o.ok, type(o.exc).__name__)
    interrupted = isinstance(o.exc, KeyboardInterrupt)
    if "fs_interrupt_in_write" in fs_hit or any("read_interrupt" in h for h in fs_hit):
        sim.check(interrupted, "interrupt-lost", lambda: f"an interrupt during file access ended in {o!r}")
        return
    if fs_hit or (op.get("tmp_missing") and op["via"] in ("estimate", "info")):
        sim.check(not o.ok, "storage-fault-hidden", lambda: f"storage failed ({fs_hit or 'no temporary directory'}) but the estimate {o!r}")
        return
    ran = [p for p in procs if getattr(p, "_ran", False)]
    for p in procs:
        check_handover(sim, op, prep, p)
    if kind in ("interrupt_spawn", "interrupt_wait"):
        sim.check(interrupted, "interrupt-lost", lambda: f"an interrupt while running the program ended in {o!r}")
        return
    if kind == "spawn_error":
        sim.check(not o.ok, "made-up", lambda: f"the program could not be started but the estimate {o!r}")
        return
    sim.check(len(ran) >= 1, "program-not-run", lambda: f"estimating {o!r} without running the program")
    p = ran[-1]
    text = (p._err + p._out).decode("utf8", "replace")
    if kind in ("ok",) or (kind == "output" and plan["out"] in NUMBERS):
        want = float(p._out)
        sim.check(o.ok, "good-answer-lost", lambda: f"the program printed {p._out!r} but the estimate {o!r}; command {p.argv}")
        sim.check(eqf(o.value, want), "answer-changed", lambda: f"the program printed {p._out!r}, returned {o.value!r}")
        sim.probe("answer_compared")
        return
    if kind == "output" and plan["out"] in AMBIG:
        sim.check(not o.ok or eqf(o.value, float(p._out)), "answer-changed", lambda: f"the program printed {p._out!r}, returned {o.value!r}")
        return
    if kind == "stderr_noise":
        sim.check(not o.ok or eqf(o.value, float(p._out)), "answer-changed", lambda: f"the program printed {p._out!r} (stderr {p._err!r}), returned {o.value!r}")
        if o.ok:
            return
    sim.check(not o.ok, "made-up", lambda: f"the program ended with {kind} {plan}, printing {text!r}, but the estimate {o!r}")
    sim.check(isinstance(o.exc, Exception), "error-kind", lambda: f"program failure surfaced as {o!r}")
    if kind != "bytes":
        e = o.exc
        shown = str(e) + " " + (e.output.decode("utf8", "replace") if isinstance(getattr(e, "output", None), bytes) else str(getattr(e, "output", "")))
        shown += " " + str(getattr(e, "stderr", ""))
        sim.check(shows(text, shown), "output-not-shown", lambda: f"the program printed {text!r}; the error shows only {shown!r}")
    sim.probe("failure_raised")


def check_handover(sim, op, prep, p):
    """The command line and the sample as the program saw them."""
    if not hasattr(p, "natural"):
        return
    out, err, code = p.natural
    sim.check(code == 0, "bad-command", lambda: f"a working program would reject the call {p.argv}: {err.decode()!r}")
    opts, dx, dy, header, body = p.seen
    want = prep["opts"]
    sim.check(opts == want, "options", lambda: f"program was asked for {opts}, configured {want}; command {p.argv}")
    x, y = prep["x"], prep["y"]
    sim.check((dx, dy) == (x.shape[1], y.shape[1]), "dims", lambda: f"program was told dimensions {(dx, dy)}, the sample has {(x.shape[1], y.shape[1])}")
    b = np.asarray(body, dtype=float).reshape(len(body), -1)
    full = np.concatenate([x.astype(float), y.astype(float)], axis=1)
    tol = 1e-6 if x.dtype == np.float32 else 1e-12
    sim.check(b.shape == full.shape and np.allclose(b, full, rtol=tol, atol=0), "sample-handed-over",
              lambda: f"program read a sample of shape {b.shape}, the estimator was given {full.shape}" if b.shape != full.shape else
              f"program read other values, first differing row {np.argwhere(~np.isclose(b, full, rtol=tol, atol=0))[0]}")
