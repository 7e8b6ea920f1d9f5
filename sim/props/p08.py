"""P08: sampling is a pure function of task, sample size and seed."""
import os
import random

import numpy as np

from sim.core import Violation
from sim.props import tasks
from sim.props.common import call, g_where

TIERS = {"quick": {"sessions": 8, "episodes": 80}, "thorough": {"sessions": 40, "episodes": 900, "timeout": 1500}}
LISTS = ("ops", "preempts", "hot")
MIN_LEN = {"ops": 1}
OPTIONAL = ("inject",)
INFO = {
    "rule": "Each run: 3-16 operations on 1-4 tasks and samplers out of more than 85 (all published benchmark tasks, all task constructors, all "
            "sampler families): sampling by task, sampler or saved file, by integer, NumPy integer or random key; disturbance of the global "
            "generators; estimations; ground-truth queries; rejected calls; interrupts at any line; or 2-3 simulated threads sampling the same "
            "objects. Every sample is compared with the one drawn in other, fresh interpreters (different hash seeds and orders).",
    "real": "bmi.samplers, bmi.benchmark.tasks, bmi.transforms, Task.sample, save_sample/read_sample",
    "stub": "thread scheduling, delivery of interrupts",
    "assumptions": ["seeds are in the range accepted by both NumPy and JAX (0 to 2^32-1)", "equality up to 1e-4 relative for float32 results, 1e-9 for float64"],
}
SIZES = (1, 9)
SEEDS = (0, 1, 7, 12345, 2**31, 2**32 - 1)


def combos(e):
    return [(n, s) for n in SIZES if n >= e.points for s in SEEDS]


def gkey(i, n, s):
    return f"{i},{n},{s}"


def golden_plan(seed, tier):
    return [({"part": p, "rev": r}, h) for p, r, h in ((0, 0, "0"), (1, 0, "5"), (2, 0, "1"), (3, 0, "4"), (0, 1, "77"), (1, 1, "123"), (2, 1, "9"), (3, 1, "31"))]


def golden(sim, args):
    out = {}
    cat = tasks.get(sim)
    order = [i for i in range(len(cat)) if i % 4 == args["part"]]
    if args["rev"]:
        order.reverse()
        np.random.seed(4321)
        random.seed(99)
    for i in order:
        obj, _ = cat[i].build()
        todo = combos(cat[i])
        if args["rev"]:
            todo.reverse()
        for n, s in todo:
            x, y = tasks.sample(obj, n, s)
            if args["rev"]:
                np.random.normal(size=3)
            out[gkey(i, n, s)] = [tasks.enc(x), tasks.enc(y)]
        out[f"{i}"] = [cat[i].name, int(obj.dim_x), int(obj.dim_y), combos(cat[i])]
    return out


def golden_merge(plans, values):
    out = {}
    for (args, h), v in zip(plans, values):
        for k, x in v.items():
            if k in out and "," not in k:
                if out[k] != x:
                    return out, {"kind": "process-dependent", "message": f"dimensions {out[k]} in one fresh process, {x} in another"}
            elif k in out:
                for a, b in zip(out[k], x):
                    if not tasks.same_array(tasks.dec(a), tasks.dec(b)):
                        return out, {"kind": "process-dependent", "message": f"entry,size,seed {k}: {tasks.dec(a).ravel()[:6]} in one fresh process and "
                                     f"{tasks.dec(b).ravel()[:6]} in another (hash seed {h}, order reversed and global generators seeded: {args['rev']})"}
            out[k] = x
    try:
        check_golden(out)
    except Violation as v:
        return out, {"kind": v.kind, "message": v.message}
    return out, None


def g_pair(rng):
    """Two different seeds that are alike in some way."""
    s = rng.pick([rng.randrange(1, 50), rng.randrange(1, 10**6), rng.randrange(1, 2**31)])
    how = rng.weighted([("minus", 2), ("bit", 4), ("step", 2), ("swap", 1)])
    if how == "minus":
        return [s, -s]
    if how == "bit":
        return [s, s ^ (1 << rng.randrange(32))]
    if how == "step":
        return [s, s + rng.pick([1, 2, 10, 97, 100, 997, 1000, 9973, 10**4, 65535, 10**5, 10**6])]
    return [s, int(str(s)[::-1]) if str(s) != str(s)[::-1] and int(str(s)[::-1]) < 2**32 else s + 1]


def gen(rng, session, i, tier):
    objs = [[8 * rng.randrange(13) + session % 8, rng.chance(0.5)] for _ in range(rng.randrange(1, 5))]
    if rng.chance(0.2):
        n = rng.randrange(2, 4)
        jobs = [[[rng.randrange(len(objs)), rng.pick(SIZES), rng.pick(SEEDS)] for _ in range(rng.randrange(1, 4))] for _ in range(n)]
        return {"objs": objs, "threads": jobs, "hot": [[rng.randrange(n), rng.frac(), rng.frac(), rng.randrange(3)] for _ in range(rng.randrange(0, 8))],
                "preempts": sorted([round(rng.frac(), 5), rng.randrange(n)] for _ in range(rng.log_int(1, 24))), "ops": [1],
                "inject": {"t": rng.randrange(n), "frac": rng.frac()} if rng.chance(0.25) else None}
    ops = []
    for _ in range(rng.log_int(3, 16)):
        k = rng.weighted([("sample", 8), ("save", 1), ("random", 2), ("mi", 1.5), ("bad", 1.5), ("estimate", 0.7), ("edit", 1), ("other", 1), ("large", 0.5), ("pair", 1.5)])
        op = {"op": k, "obj": rng.randrange(len(objs))}
        if k in ("sample", "save", "edit"):
            op.update(n=rng.pick(SIZES), seed=rng.pick(SEEDS), how=rng.pick(["int", "int", "np32", "np64", "key", "kw"]))
            if k == "sample" and rng.chance(0.25):
                op["inject"] = {**g_where(rng), "exc": rng.pick(["KeyboardInterrupt", "MemoryError", "SimCrash"])}
        elif k == "random":
            op["seed"] = rng.randrange(1000)
        elif k == "other":
            op.update(n=rng.pick([2, 9, 9]), seed=rng.randrange(1000))
        elif k == "large":
            op.update(n=rng.pick([50, 130, 300, 1100, 5000]), seed=rng.pick(SEEDS))
        elif k == "pair":
            op["seeds"] = g_pair(rng)
        elif k == "bad":
            op["bad"] = rng.pick(["neg", "zero", "seednone", "seedstr", "seedneg"])
        ops.append(op)
    ops += [{"op": "sample", "obj": o, "n": rng.pick(SIZES), "seed": rng.pick(SEEDS), "how": "int"} for o in range(len(objs))]
    return {"objs": objs, "ops": ops}


def make_rng(seed, how, keys):
    if how == "key" and keys:
        import jax
        return jax.random.PRNGKey(seed)
    if how == "np64":
        return np.int64(seed)
    if how == "np32":
        return np.uint32(seed)
    return seed


def compare(sim, e, i, n, s, got, what):
    x, y = got
    gx, gy = (tasks.dec(a) for a in sim.golden[gkey(i, n, s)])
    sim.check(tasks.same_array(x, gx) and tasks.same_array(y, gy), "sample-differs",
              lambda: f"{what}: {e.name}, {n} points, seed {s}: {np.asarray(x).ravel()[:5]} / {np.asarray(y).ravel()[:5]}; "
                      f"a fresh process draws {gx.ravel()[:5]} / {gy.ravel()[:5]}")
    sim.probe("compared_with_fresh_process")


def check_golden(out):
    """Shapes, declared dimensions and dependence on the seed."""
    for i in [k for k in out if "," not in k]:
        name, dx, dy, todo = out[i]
        seen = {}
        for n, s in todo:
            x, y = (tasks.dec(a) for a in out[gkey(i, n, s)])
            if x.shape != (n, dx) or y.shape != (n, dy):
                raise Violation("shape", f"{name}: {n} points with seed {s} have shapes {x.shape}, {y.shape}; declared dimensions {dx}, {dy}")
            if n > 1:
                both = (x.tobytes(), y.tobytes())
                if both in seen:
                    raise Violation("seed-ignored", f"{name}: seeds {seen[both]} and {s} give the same sample of {n} points")
                seen[both] = s
                if len({tuple(r) for r in np.hstack([x, y]).tolist()}) == 1:
                    raise Violation("constant", f"{name}: all {n} points equal with seed {s}")


def run(sc, sim):
    from sim import mon
    from sim.core import SimCrash
    cat = tasks.get(sim)
    idx = [o[0] % len(cat) for o in sc["objs"]]
    objs = []
    shared = sim.shared.setdefault("objects", {})
    for (o, keep), i in zip(sc["objs"], idx):
        if keep:
            if i not in shared:
                shared[i] = cat[i].build()[0]
            objs.append(shared[i])
        else:
            objs.append(cat[i].build()[0])
    sim.nontrivial = len(sc["ops"]) > 1
    if "threads" in sc:
        return threads(sc, sim, cat, idx, objs)
    totals = sim.shared.setdefault("totals", {})
    for k, op in enumerate(sc["ops"]):
        i, obj = idx[op["obj"]], objs[op["obj"]]
        e = cat[i]
        what = f"op {k} {op['op']}"
        if op["op"] == "random":
            np.random.seed(op["seed"])
            random.seed(op["seed"])
            np.random.normal(size=op["seed"] % 5)
            sim.probe("global_random_state_changed")
        elif op["op"] == "mi":
            o = call(lambda: obj.mutual_information if e.task else obj.mutual_information())
            sim.check(o.ok, "mi-fails", lambda: f"{what}: ground truth of {e.name} {o!r}")
            sim.event(k, "mi", float(o.value))
        elif op["op"] == "other":
            o = call(tasks.sample, obj, max(op["n"], e.points), op["seed"])
            sim.check(o.ok, "sample-fails", lambda: f"{what}: {e.name} {o!r}")
            a, b = o.value, tasks.sample(obj, max(op["n"], e.points), op["seed"])
            sim.check(tasks.same_array(a[0], b[0]) and tasks.same_array(a[1], b[1]), "sample-differs", lambda: f"{what}: {e.name}: two successive samplings differ")
        elif op["op"] == "pair":
            s, t = op["seeds"]
            if not e.keys and min(s, t) < 0:    # NumPy takes no negative seeds
                continue
            n = max(30, e.points)
            a, b = (call(tasks.sample, obj, n, v) for v in (s, t))
            sim.check(a.ok and b.ok, "sample-fails", lambda: f"{what}: {e.name}, {n} points, seeds {s} and {t}: {a!r}, {b!r}")
            same = all(np.array_equal(np.asarray(a.value[j]), np.asarray(b.value[j])) for j in (0, 1))
            sim.check(not same, "seed-ignored", lambda: f"{what}: {e.name}: seeds {s} and {t} give the same sample of {n} points")
            sim.probe("pairs_of_similar_seeds")
        elif op["op"] == "large":
            n = min(op["n"], e.largest)
            a = call(tasks.sample, obj, n, op["seed"])
            sim.check(a.ok, "sample-fails", lambda: f"{what}: {e.name}, {n} points {a!r}")
            np.random.seed(n % 97)
            random.seed(k)
            b = tasks.sample(cat[i].build()[0], n, op["seed"])
            sim.check(all(len(v) == n for v in a.value), "shape", lambda: f"{what}: {e.name}: {[len(v) for v in a.value]} points instead of {n}")
            sim.check(tasks.same_array(a.value[0], b[0]) and tasks.same_array(a.value[1], b[1]), "sample-differs", lambda: f"{what}: {e.name}: {n} points with seed {op['seed']} differ from those of a new object")
            rows = np.unique(np.hstack([np.asarray(a.value[0], dtype=float), np.asarray(a.value[1], dtype=float)]), axis=0)
            sim.check(len(rows) > n // 2, "repeated", lambda: f"{what}: {e.name}: {n} points, but only {len(rows)} different ones")
            sim.probe("compared_with_new_object")
        elif op["op"] == "bad":
            n, s = {"neg": (-3, 1), "zero": (0, 1), "seednone": (9, None), "seedstr": (9, "x"), "seedneg": (9, -5)}[op["bad"]]
            o = call(tasks.sample, obj, n, s)
            sim.event(k, "bad", o.ok, type(o.exc).__name__)
            sim.probe("odd_call_" + ("accepted" if o.ok else "rejected"))
        elif op["op"] == "estimate":
            from bmi.estimators import CCAMutualInformationEstimator, HistogramEstimator
            x, y = tasks.sample(obj, 9, 1)
            o = call(HistogramEstimator(n_bins_x=2).estimate, x, y)
            call(CCAMutualInformationEstimator().estimate, x, y)
            sim.event(k, "estimate", o.ok)
        elif op["op"] in ("sample", "save", "edit"):
            n, s = max(op["n"], e.points), op["seed"]
            rng = make_rng(s, op["how"], e.keys)
            if op["op"] == "save" and e.task:
                from bmi.utils import read_sample
                path = os.path.join(sim.scratch, "s.csv")
                obj.save_sample(path, n, rng)
                compare(sim, e, i, n, s, read_sample(path), what)
                sim.event(k, "save", i, n, s)
                continue

            def fn():
                if op["how"] == "kw":
                    return obj.sample(n_samples=n, seed=rng) if e.task else obj.sample(n_points=n, rng=rng)
                return obj.sample(n, rng)

            fired = None
            inj = op.get("inject")
            if inj:
                key = (i, n)
                if key not in totals:
                    fn()
                    totals[key] = mon.count_steps(fn)
                make = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash}[inj["exc"]]
                c = mon.Injector(sim, mon.place(inj, totals[key]), make, "raise_" + inj["exc"])
                with mon.Controlled(c):
                    o = call(fn)
                fired = c.fired
            else:
                o = call(fn)
            sim.event(k, op["op"], i, n, s, op["how"], o.ok, fired)
            if not o.ok:
                sim.check(fired is not None, "sample-fails", lambda: f"{what}: {e.name}, {n} points, seed {s} as {op['how']} {o!r}")
                continue
            compare(sim, e, i, n, s, o.value, what + f" ({op['how']})")
            if op["op"] == "edit":
                for a in o.value:
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = 77
                        sim.probe("returned_array_edited")
                compare(sim, e, i, n, s, fn(), what + " after editing the first sample")


def threads(sc, sim, cat, idx, objs):
    from sim import mon
    from sim.sched import Sched
    jobs = [[(idx[o], objs[o], max(n, cat[idx[o]].points), s) for o, n, s in t] for t in sc["threads"]]
    totals = sim.shared.setdefault("tsteps", {})
    total = 0
    for t in jobs:
        for i, obj, n, s in t:
            if (i, n) not in totals:
                obj.sample(n, s)
                totals[i, n] = mon.count_steps(lambda: obj.sample(n, s))
            total += totals[i, n]
    s_ = Sched(sim, [[max(1, int(f * total)), t] for f, t in sc["preempts"]])
    s_.aim(sc.get("hot", []), {w: totals[t[0][0], t[0][2]] for w, t in enumerate(jobs) if t})
    logs = [[] for _ in jobs]
    for w, t in enumerate(jobs):
        def body(w=w, t=t):
            for i, obj, n, s in t:
                logs[w].append(call(obj.sample, n, s))
        s_.spawn(body)
    inj = sc.get("inject")
    if inj and inj["t"] < len(jobs):
        mine = sum(totals[i, n] for i, _, n, _ in jobs[inj["t"]])
        s_.inject[inj["t"]] = (int(inj["frac"] * max(1, mine - 1)), KeyboardInterrupt, "raise_KeyboardInterrupt")
    with mon.Controlled(s_):
        s_.run()
    for w, t in enumerate(jobs):
        for (i, obj, n, s), o in zip(t, logs[w]):
            if not o.ok:
                sim.check(isinstance(o.exc, KeyboardInterrupt) and inj and inj["t"] == w, "sample-fails", lambda: f"thread {w}: {cat[i].name} {o!r}")
                continue
            compare(sim, cat[i], i, n, s, o.value, f"thread {w}")
    sim.probe("concurrent_samplings")
