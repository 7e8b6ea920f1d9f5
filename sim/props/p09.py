"""P09: a task never changes during its life."""
import json
import os

import numpy as np

from sim.core import HarnessError, Violation
from sim.props import tasks
from sim.props.common import call, g_where, listed, nodes, put_back

TIERS = {"quick": {"sessions": 8, "episodes": 70}, "thorough": {"sessions": 40, "episodes": 700, "timeout": 1500}}
LISTS = ("ops", "preempts", "hot")
MIN_LEN = {"ops": 1}
OPTIONAL = ("inject", "fault")
INFO = {
    "rule": "Each run: 2-12 operations on one or two tasks or samplers out of more than 85 (published benchmark tasks, constructors, samplers built from "
            "mutable arguments): reading and editing metadata, parameters, samples and covariances that were handed out, editing the arrays, lists and "
            "dictionaries that were passed in, deriving transformed tasks and editing those, saving with storage faults, interrupts and allocation "
            "failures at any line (also inside the lazy Monte Carlo ground truth), rejected calls; or several simulated threads reading one new object. "
            "Ground truth, dimensions, identity, parameters and a sample are compared with those seen in other, fresh interpreters.",
    "real": "bmi.benchmark.Task, bmi.benchmark.tasks, bmi.samplers",
    "stub": "thread scheduling, delivery of interrupts, raw file layer",
    "assumptions": ["private attributes and the public attribute Task.sampler are not assigned to"],
}
N = 9


def jsonable(x):
    return json.loads(json.dumps(x, default=lambda v: np.asarray(v).tolist(), sort_keys=True))


def facts(obj, e):
    if e.task:
        m = obj.metadata
        f = {"id": obj.id, "name": obj.name, "params": jsonable(obj.params), "dims": [int(obj.dim_x), int(obj.dim_y)], "mi": float(obj.mutual_information),
             "meta": jsonable(m.dict()), "mi_sampler": float(obj.sampler.mutual_information())}
    else:
        f = {"dims": [int(obj.dim_x), int(obj.dim_y)], "mi": float(obj.mutual_information())}
        if hasattr(obj, "covariance") and hasattr(obj, "df"):
            c = call(obj.covariance)
            f["cov"] = tasks.enc(c.value) if c.ok else None
    f["sample"] = [tasks.enc(a) for a in obj.sample(N, 3)]
    return f


def differ(a, b):
    """Name of the first fact that differs."""
    for k in b:
        if k in ("mi", "mi_sampler"):
            if not (a[k] == b[k] or abs(a[k] - b[k]) <= 1e-5 * max(1, abs(b[k]))):
                return k
        elif k == "meta":
            if {x: a[k][x] for x in a[k] if x != "mi_true"} != {x: b[k][x] for x in b[k] if x != "mi_true"} or not abs(a[k]["mi_true"] - b[k]["mi_true"]) <= 1e-5 * max(1, abs(b[k]["mi_true"])):
                return k
        elif k in ("sample", "cov") and b[k] is not None and a[k] is not None:
            xs, ys = (a[k], b[k]) if k == "sample" else ([a[k]], [b[k]])
            if not all(tasks.same_array(tasks.dec(u), tasks.dec(v)) for u, v in zip(xs, ys)):
                return k
        elif a[k] != b[k]:
            return k
    return None


def show(f, k):
    return [tasks.dec(v).ravel()[:5].tolist() for v in f[k]] if k == "sample" else f[k]


def golden_plan(seed, tier):
    return [({"part": p, "parts": 8}, str(p * 11)) for p in range(8)]


def golden(sim, args):
    cat = tasks.get(sim)
    return {str(i): facts(cat[i].build()[0], cat[i]) for i in range(args["part"], len(cat), args["parts"])}


def golden_merge(plans, values):
    out = {}
    for v in values:
        out.update(v)
    for k, f in out.items():
        if "meta" in f and (f["meta"]["task_id"] != f["id"] or f["meta"]["task_params"] != f["params"] or abs(f["meta"]["mi_true"] - f["mi"]) > 1e-5 or
                            [f["meta"]["dim_x"], f["meta"]["dim_y"]] != f["dims"] or abs(f["mi"] - f["mi_sampler"]) > 1e-5):
            return out, {"kind": "inconsistent", "message": f"metadata and properties of a fresh task disagree: {f['meta']} and {[f[x] for x in ('id', 'params', 'dims', 'mi', 'mi_sampler')]}"}
    return out, None


DERIVE = ["asinh", "half_cube", "normal_cdf", "wiggly", "rescale", "uniformise", "rotate", "spiral", "concat", "transformed"]


def gen(rng, session, i, tier):
    objs = [[8 * rng.randrange(13) + session % 8, rng.chance(0.3)] for _ in range(rng.randrange(1, 3))]
    directed = tasks.EDITABLE[(session + 8 * i) % len(tasks.EDITABLE)] if i < 4 else rng.pick(tasks.EDITABLE) if rng.chance(0.25) else None
    if directed:
        objs[0][0] = directed
    if rng.chance(0.2) and not directed:
        n = rng.randrange(2, 4)
        return {"objs": objs[:1], "threads": [[rng.pick(["mi", "meta", "sample", "params", "facts"]) for _ in range(rng.randrange(1, 4))] for _ in range(n)],
                "hot": [[rng.randrange(n), rng.frac(), rng.frac(), rng.randrange(3)] for _ in range(rng.randrange(0, 8))],
                "preempts": sorted([round(rng.frac(), 5), rng.randrange(n)] for _ in range(rng.log_int(1, 16))), "ops": [1],
                "inject": {"t": rng.randrange(n), "frac": rng.frac()} if rng.chance(0.3) else None}
    ops = []
    for _ in range(rng.log_int(2, 12)):
        k = rng.weighted([("mi", 3), ("meta", 2), ("editmeta", 2), ("editparams", 2), ("editsample", 2), ("editpassed", 4), ("editcov", 0.5), ("derive", 3),
                          ("savemeta", 1), ("savesample", 1), ("bad", 1), ("sample", 2), ("facts", 2)])
        op = {"op": k, "obj": rng.randrange(len(objs)), "r": rng.randrange(10**6)}
        if k == "derive":
            op["how"] = rng.pick(DERIVE)
        if k in ("mi", "meta", "sample", "derive", "savemeta", "savesample") and rng.chance(0.35):
            op["inject"] = {**g_where(rng, 6), "exc": rng.pick(["KeyboardInterrupt", "MemoryError", "SimCrash"])}
        elif k in ("savemeta", "savesample") and rng.chance(0.5):
            op["fault"] = rng.pick([{"op": "write", "at": rng.randrange(400), "err": "ENOSPC"}, {"op": "openw", "err": "EACCES"}, {"op": "close", "err": "EIO"}])
        if k == "sample" and rng.chance(0.5):
            op["n"] = rng.pick([1, 40, 300, 1500])
        op["check"] = rng.chance(0.5)
        ops.append(op)
    if directed and i < 4:
        ops.insert(rng.randrange(len(ops) + 1), {"op": "editpassed", "obj": 0, "r": rng.randrange(10**6), "check": True})
    return {"objs": objs, "ops": ops}


def mess(x, depth=0):
    """Edit a mutable object in place, nested ones too."""
    done = 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x *= 0.25
            x += 0.5
            done = 1
    elif isinstance(x, dict):
        for v in list(x.values()):
            done += mess(v, depth + 1)
        x["added"] = 1
        if depth == 0 and len(x) > 1:
            x.pop(next(iter(x)))
        done += 1
    elif isinstance(x, list):
        for v in x:
            done += mess(v, depth + 1)
        x.append(x[0] if x else 7)
        x.reverse()
        done += 1
    elif type(x).__module__.startswith("bmi.samplers._matrix"):
        x.alpha, x.lambd = 0.01, 0.02
        done = 1
    return done


def edit(sc, sim, target, obj, e):
    """The client edits something that it passed in or was handed."""
    if not e.task or not isinstance(target, dict) or not listed(sc, "task-params-not-copied"):
        return mess(target)
    saved, before = nodes(target), jsonable(obj.params)
    done = mess(target)
    after = jsonable(obj.params)
    if after != before and after == jsonable(target):
        # the recorded defect: the dictionary is the task's own; undo the edit, so that the rest
        # of the history shows anything else that goes wrong
        put_back(saved)
        sim.probe("known_finding_task_params_not_copied")
    return done


def derive(base, how, e):
    import jax.numpy as jnp
    import bmi.benchmark.tasks as T
    import bmi.samplers as S
    from bmi.benchmark.tasks.asinh import transform_asinh_task
    if how == "concat":
        if not e.keys:
            return None
        return S.IndependentConcatenationSampler([base.sampler if e.task else base, S.BivariateNormalSampler(0.1)])
    if how == "transformed":
        return S.TransformedSampler(base.sampler if e.task else base, transform_x=jnp.tanh, transform_y=lambda y: 3 * y + 1)
    if not e.task:
        return None
    if how == "rotate" and min(base.dim_x, base.dim_y) < 3 or how == "spiral" and (base.dim_x < 2 or base.dim_y < 3) or max(base.dim_x, base.dim_y) > 10:
        return None
    f = {"asinh": transform_asinh_task, "half_cube": T.transform_half_cube_task, "normal_cdf": T.transform_normal_cdf_task, "wiggly": T.transform_wiggly_task,
         "rescale": T.transform_rescale, "uniformise": lambda t: T.transform_uniformise(t, n_quantiles=3), "rotate": T.transform_rotate_task, "spiral": T.transform_spiral_task}[how]
    return f(base)


def run(sc, sim):
    from sim import mon
    from sim.core import SimCrash
    from sim.fs import FS
    cat = tasks.get(sim)
    idx = [tasks.index(sim, o[0]) for o in sc["objs"]]
    objs, passed = [], []
    shared = sim.shared.setdefault("objects", {})
    for (o, keep), i in zip(sc["objs"], idx):
        if keep and i in shared:
            b = shared[i]
        else:
            b = cat[i].build()
            if keep:
                shared[i] = b
        objs.append(b[0])
        passed.append(b[1])
    sim.nontrivial = True
    if "threads" in sc:
        return threads(sc, sim, cat, idx[0], objs[0])
    derived = []        # (object, facts when it was new, its entry)

    def check(what):
        for i, obj in zip(idx, objs):
            f = call(facts, obj, cat[i])
            sim.check(f.ok, "unusable", lambda: f"{what}: reading {cat[i].name} {f!r}")
            k = differ(f.value, sim.golden[str(i)])
            sim.check(k is None, "changed", lambda: f"{what}: {k} of {cat[i].name} is {show(f.value, k)}, a fresh one in a fresh process has {show(sim.golden[str(i)], k)}")
            sim.probe("facts_compared")
        for d, f0, e in derived:
            f = call(facts, d, e)
            sim.check(f.ok, "unusable", lambda: f"{what}: reading {e.name} {f!r}")
            k = differ(f.value, f0)
            sim.check(k is None, "changed", lambda: f"{what}: {k} of a derived task ({e.name}) is {show(f.value, k)}, it was {show(f0, k)}")

    totals = sim.shared.setdefault("totals", {})
    fs = FS(sim, sim.scratch)
    for n, op in enumerate(sc["ops"]):
        i, obj = idx[op["obj"]], objs[op["obj"]]
        e = cat[i]
        what = f"after op {n} {op['op']} {op.get('how', '')} on {e.name}"
        k = op["op"]
        fn = None
        if k == "mi":
            fn = lambda o=obj: float(o.mutual_information if e.task else o.mutual_information())
        elif k == "meta":
            fn = lambda o=obj: o.metadata if e.task else (o.dim_x, o.dim_y)
        elif k == "sample":
            fn = lambda o=obj: o.sample(max(e.points, min(op.get("n", N), e.largest)), op["r"] % 50)
        elif k == "derive":
            fn = lambda o=obj: derive(o, op["how"], e)
        elif k == "savemeta" and e.task:
            fn = lambda o=obj: o.save_metadata(os.path.join(sim.scratch, "m.yaml"))
        elif k == "savesample" and e.task:
            fn = lambda o=obj: o.save_sample(os.path.join(sim.scratch, "s.csv"), N, op["r"] % 50)
        if fn is not None:
            fired = None
            inj = op.get("inject")
            if inj:
                key = (i, k, op.get("how"), op.get("n"))
                if key not in totals:
                    fresh = e.build()[0]
                    totals[key] = mon.count_steps(lambda: fn(fresh))
                if totals[key]:
                    make = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash}[inj["exc"]]
                    c = mon.Injector(sim, mon.place(inj, totals[key]), make, "raise_" + inj["exc"])
                    with mon.Controlled(c):
                        o = call(fn)
                    fired = c.fired
                else:
                    o = call(fn)
            elif op.get("fault"):
                fs.set_plans([op["fault"]])
                with fs:
                    o = call(fn)
                fired = bool(sim.ep_faults)
            else:
                o = call(fn)
            sim.event(n, k, i, op.get("how"), o.ok, fired)
            sim.check(o.ok or fired, "operation-fails", lambda: f"{what}: {o!r}")
            if k == "derive" and o.ok and o.value is not None:
                d = o.value
                de = tasks.Entry(f"{op['how']} of {e.name}", None, task=hasattr(d, "save_metadata"))
                f0 = call(facts, d, de)
                sim.check(f0.ok, "unusable", lambda: f"{what}: the derived object {f0!r}")
                if de.task:
                    sim.check(abs(f0.value["mi"] - sim.golden[str(i)]["mi"]) <= 1e-5 * max(1, abs(f0.value["mi"])), "derived-mi",
                              lambda: f"{what}: ground truth {f0.value['mi']} of the derived task, {sim.golden[str(i)]['mi']} of its base")
                    if op["r"] % 2:
                        edit(sc, sim, d.params, d, de)
                        edit(sc, sim, d.metadata.task_params, d, de)
                        sim.probe("derived_params_edited")
                derived.append((d, f0.value, de))
        elif k == "editmeta" and e.task:
            m = obj.metadata
            edit(sc, sim, m.task_params, obj, e)
            m.mi_true, m.task_id, m.dim_x = 77.0, "other", 55
            sim.probe("metadata_edited")
        elif k == "editparams" and e.task:
            edit(sc, sim, obj.params, obj, e)
            sim.probe("params_edited")
        elif k == "editsample":
            for a in obj.sample(N, 3):
                mess(a)
        elif k == "editcov" and hasattr(obj, "covariance"):
            c = call(obj.covariance)
            if c.ok:
                mess(c.value)
        elif k == "editpassed":
            for p in passed[op["obj"]]:
                if edit(sc, sim, p, obj, e):
                    sim.probe("passed_object_edited")
        elif k == "bad":
            o = call(obj.sample, [-1, 0, 9, 9][op["r"] % 4], [1, 1, None, "x"][op["r"] % 4])
            sim.event(n, "bad", o.ok)
        sim.event(n, k)
        if op["check"]:
            check(what)
    check("at the end")


def threads(sc, sim, cat, i, obj):
    from sim import mon
    from sim.sched import Sched
    e = cat[i]

    def do(k):
        if k == "mi":
            return {"mi": float(obj.mutual_information if e.task else obj.mutual_information())}
        if k == "sample":
            return {"sample": [tasks.enc(a) for a in obj.sample(N, 3)]}
        if k in ("meta", "params") and e.task:
            return {"params": jsonable(obj.params), "mi": float(obj.metadata.mi_true), "id": obj.id} if k == "meta" else {"params": jsonable(obj.params)}
        return facts(obj, e)

    totals = sim.shared.setdefault("tsteps", {})
    if i not in totals:
        fresh = e.build()[0]
        totals[i] = mon.count_steps(lambda: facts(fresh, e))
    total = totals[i] * sum(len(t) for t in sc["threads"]) // 2 + 4
    s = Sched(sim, [[max(1, int(f * total)), t] for f, t in sc["preempts"]])
    s.aim(sc.get("hot", []), {w: totals[i] for w in range(len(sc["threads"]))})
    logs = [[] for _ in sc["threads"]]
    for w, t in enumerate(sc["threads"]):
        def body(w=w, t=t):
            for k in t:
                logs[w].append(call(do, k))
        s.spawn(body)
    inj = sc.get("inject")
    if inj and inj["t"] < len(logs):
        s.inject[inj["t"]] = (int(inj["frac"] * totals[i]), KeyboardInterrupt, "raise_KeyboardInterrupt")
    with mon.Controlled(s):
        s.run()
    g = sim.golden[str(i)]
    for w, log in enumerate(logs):
        for o in log:
            if not o.ok:
                sim.check(isinstance(o.exc, KeyboardInterrupt), "operation-fails", lambda: f"thread {w} on {e.name}: {o!r}")
                continue
            k = differ(o.value, {x: g[x] for x in o.value})
            sim.check(k is None, "changed", lambda: f"thread {w}: {k} of {e.name} is {show(o.value, k)}, a fresh one in a fresh process has {show(g, k)}")
            sim.event(w, sorted(o.value))
    f = facts(obj, e)
    k = differ(f, g)
    sim.check(k is None, "changed", lambda: f"after concurrent use, {k} of {e.name} is {show(f, k)}, a fresh one in a fresh process has {show(g, k)}")
    sim.probe("concurrent_reads")
