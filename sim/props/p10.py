"""P10: estimators are repeatable and independent of their history."""
import os
import random

import numpy as np

from sim.props import ests
from sim.props.common import call, g_where, listdir, write_csv

TIERS = {"quick": {"sessions": 8, "episodes": 60}, "thorough": {"sessions": 32, "episodes": 300, "timeout": 1500}}
LISTS = ("ops",)
MIN_LEN = {"ops": 1}
OPTIONAL = ("inject",)
INFO = {
    "rule": "Each run: 2-12 operations on up to 3 shared estimator objects (22 configurations of all estimator families): estimates by any "
            "entry point on six data sets, rejected data, interrupts or allocation failures at any line or bytecode of a call, failing "
            "external programs, and disturbance of the global random generators. Every estimate is compared with the value that a fresh "
            "object gave in other, fresh interpreters (different hash seeds and orders of evaluation).",
    "real": "all estimators of bmi.estimators, run_estimator, read_sample",
    "stub": "R/Julia programs, joblib's scheduler, delivery of interrupts",
    "assumptions": ["GMMEstimator excluded (its key advances by design)", "neural estimates compared to 1e-4 (float32), others to 1e-9"],
}


NEURAL_DATA = (0, 1, 2, 13)     # 0 and 13 are of the same size


def golden_plan(seed, tier):
    return [({"part": p, "rev": r}, h) for p, r, h in ((0, 0, "0"), (1, 0, "0"), (2, 0, "1"), (0, 1, "77"), (1, 1, "123"), (2, 1, "9"))]


def golden(sim, args):
    from sim import jobs
    jobs.install()
    order = [(i, d) for i in range(len(ests.CATALOGUE)) for d in range(len(ests.DATA)) if (i + d) % 3 == args["part"]
             and not (ests.family(i) in ests.NEURAL and d not in NEURAL_DATA)]
    if args["rev"]:
        order.reverse()
        np.random.seed(4321)
        random.seed(99)
    return ests.golden_table(sim, order)


def golden_merge(plans, values):
    out = {}
    for (args, h), v in zip(plans, values):
        for k, x in v.items():
            if k in out and not ests.agree(int(k.split(",")[0]), float.fromhex(out[k]), float.fromhex(x)):
                i, d = map(int, k.split(","))
                return out, {"kind": "process-dependent", "message": f"estimator {ests.CATALOGUE[i]} on data set {d} gave "
                             f"{float.fromhex(out[k])!r} in one fresh process and {float.fromhex(x)!r} in another (hash seed {h}, order reversed: {args['rev']})"}
            out[k] = x
    return out, None


def gen(rng, session, i, tier):
    n = rng.randrange(1, 4)
    objs = [rng.randrange(len(ests.CATALOGUE)) for _ in range(n)]
    objs = [o if ests.family(o) not in ests.NEURAL or rng.chance(0.3) else rng.randrange(16) for o in objs]
    neural = any(ests.family(o) in ests.NEURAL for o in objs)
    ops = []
    for _ in range(rng.log_int(2, 5 if neural else 12)):
        k = rng.weighted([("est", 6), ("info", 2), ("run", 1.5), ("random", 1), ("params", 0.5)])
        op = {"op": k, "obj": rng.randrange(n)}
        if k in ("est", "info", "run"):
            op["d"] = rng.pick(NEURAL_DATA) if ests.family(objs[op["obj"]]) in ests.NEURAL else rng.randrange(len(ests.DATA))
            if rng.chance(0.4):         # in the arrays (or the file) that held other data before
                op["reuse"] = True
                op["d"] = rng.pick([0, 13, op["d"]])
            if k == "run" and op["d"] == 9:      # float32 arithmetic by the other entry points
                op["d"] = 8
            op["fresh"] = rng.chance(0.2)
            f = rng.weighted([("none", 5), ("inject", 3), ("bad", 2)])
            if f == "inject":
                op["inject"] = {**g_where(rng), "exc": rng.pick(["KeyboardInterrupt", "MemoryError", "SimCrash"]), "grain": rng.pick(["line", "line", "instr"])}
            elif f == "bad" and k != "run":
                op["bad"] = rng.pick(ests.BAD)
        elif k == "random":
            op["seed"] = rng.randrange(1000)
        ops.append(op)
    ops += [{"op": rng.pick(["est", "info"]), "obj": o, "d": rng.randrange(3)} for o in range(n)]
    return {"objs": objs, "ops": ops}


def prepare(sim):
    from sim import jobs
    jobs.install()


def snapshot(est):
    p = est.parameters()
    return repr(p.dict() if hasattr(p, "dict") else p)


def run(sc, sim):
    from bmi.benchmark import run_estimator
    from sim import mon
    from sim.core import SimCrash
    objs = [ests.build(i) for i in sc["objs"]]
    params = [snapshot(o) for o in objs]
    buffers = {}
    totals = sim.shared.setdefault("totals", {})
    sim.nontrivial = len(sc["ops"]) > 1
    with ests.world(sim):
        for n, op in enumerate(sc["ops"]):
            i = sc["objs"][op["obj"]]
            if op["op"] == "random":
                np.random.seed(op["seed"])
                random.seed(op["seed"])
                np.random.normal(size=op["seed"] % 7)
                sim.probe("global_random_state_changed")
                continue
            est = ests.build(i) if op.get("fresh") else objs[op["obj"]]
            if op["op"] == "params":
                sim.check(snapshot(est) == params[op["obj"]], "params-changed", lambda: f"declared parameters changed from {params[op['obj']]} to {snapshot(est)}")
                continue
            x, y = ests.data(op["d"])
            if op.get("bad"):
                x, y = ests.spoil(x, y, op["bad"])
            elif op.get("reuse") and x.dtype == float:
                held = buffers.setdefault((x.shape, y.shape), (np.empty(x.shape), np.empty(y.shape)))
                held[0][:], held[1][:] = x, y
                x, y = held
                sim.probe("arrays_that_held_other_data")

            def fn(e=est):
                if op["op"] == "est":
                    return e.estimate(x, y)
                if op["op"] == "info":
                    return e.estimate_with_info(x, y).mi_estimate
                path = os.path.join(sim.scratch, "s.csv" if op.get("reuse") else f"s{op['d']}.csv")
                if op.get("reuse") or not os.path.exists(path):
                    write_csv(path, x, y)
                r = run_estimator(estimator=e, estimator_id="e", sample_path=path, task_id="t")
                if not r.success:
                    raise RuntimeError(f"run failed: {r.additional_information}")
                return r.mi_estimate

            inj = op.get("inject")
            fired = None
            if inj:
                key = (i, op["op"], op["d"], inj["grain"])
                if key not in totals:
                    fresh = ests.build(i)
                    totals[key] = mon.count_steps(lambda: fn(fresh), inj["grain"])
                make = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash}[inj["exc"]]
                c = mon.Injector(sim, mon.place(inj, totals[key]), make, "raise_" + inj["exc"])
                with mon.Controlled(c, inj["grain"]):
                    o = call(fn)
                fired = c.fired
            else:
                o = call(fn)
            sim.event(n, op["op"], i, o.ok, type(o.exc).__name__, fired)
            sim.check(snapshot(est) == params[op["obj"]], "params-changed", lambda: f"declared parameters changed from {params[op['obj']]} to {snapshot(est)} (op {n} {op})")
            if op.get("bad"):
                sim.probe("odd_data_accepted" if o.ok else "odd_data_rejected")
                continue
            if not o.ok:
                sim.check(fired is not None, "estimate-fails", lambda: f"op {n} {op} of {ests.CATALOGUE[i]} {o!r}")
                continue
            if fired is not None:
                continue    # swallowed by a library inside; nothing to compare
            want = float.fromhex(sim.golden[f"{i},{op['d']}"])
            sim.check(ests.agree(i, o.value, want), "not-repeatable",
                      lambda: f"op {n} {op}: {ests.CATALOGUE[i]} on data set {op['d']} gave {float(o.value)!r}; a fresh object in a fresh process gives {want!r}")
            sim.probe("compared_with_fresh_process")
