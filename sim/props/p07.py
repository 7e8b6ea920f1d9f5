"""P07: concurrent workers do not interfere."""
import math
import os
import threading

import numpy as np

from sim.props import ests, tasks
from sim.props.common import call, write_csv

TIERS = {"quick": {"sessions": 8, "episodes": 56}, "thorough": {"sessions": 32, "episodes": 300, "timeout": 1500}}
LISTS = ("preempts", "hot")
OPTIONAL = ()
INFO = {
    "rule": "Each run: 2-4 workers in simulated threads, each doing 1-3 benchmark jobs (sample, save, read, estimate, record; or a direct estimate; or "
            "writing metadata) on shared task objects with its own estimators and files; part of the runs only draw samples and ask for the ground "
            "truth of one shared task or sampler of any kind in the catalogue; 1-250 preemptions at random lines, more of them near the "
            "writes; in part of the runs one worker is interrupted, runs out of memory or has a failing external program. Every worker's samples, "
            "estimates, records and files are compared with those of the same worker alone.",
    "real": "tasks, samplers, estimators, run_estimator, RunResult.dump, save_sample, read_sample, temporary files",
    "stub": "thread scheduling (one thread runs at a time, switched between lines of bmi), R/Julia programs, joblib's scheduler, locks",
    "assumptions": ["switches happen between source lines of bmi, not inside third-party libraries"],
}
# names of catalogue entries: cheap, but of every family, with lazy ground truth, transforms and SciPy sampling
NAMES = ["task:x", "task:student_dense", "task:dense", "task:additive", "task:inliers", "own_task", "task:concentric", "task:rescale", "task:waves"]
ESTS = [0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]


def gen(rng, session, i, tier):
    n_tasks = rng.randrange(1, 3)
    nw = rng.weighted([(2, 5), (3, 3), (4, 2)])
    neural = rng.chance(0.03)
    if i % 4 == 3:
        return g_crowd(rng, session)
    if i % 4 == 1:
        return g_draws(rng, session, i)
    tk = [NAMES[(session * 2 + rng.randrange(3)) % len(NAMES)] for _ in range(n_tasks)]
    same = [rng.pick(ESTS), rng.pick(ESTS)]
    workers = []
    for _ in range(nw):
        items = []
        for _ in range(rng.randrange(1, 4)):
            k = rng.weighted([("bench", 5), ("direct", 2), ("meta", 1), ("path", 1), ("shared", 2)])
            it = {"k": k, "task": rng.randrange(n_tasks), "n": rng.pick([12, 12, 17]), "seed": rng.randrange(4), "est": rng.pick(same) if rng.chance(0.6) else rng.pick(ESTS)}
            if neural:
                it["est"] = rng.pick([16, 18, 20])
            if rng.chance(0.3):
                it["info"] = True
            items.append(it)
        workers.append(items)
    if rng.chance(0.25):        # several workers with programs of the same kind
        e = rng.pick([13, 14, 15])
        for items in workers:
            it = rng.pick(items)
            it.update(est=e, k=rng.pick(["bench", "direct", "path", "shared"]))
    sc = {"tasks": tk, "workers": workers, "preempts": sorted([round(rng.frac(), 5), rng.randrange(nw)] for _ in range(rng.log_int(1, 40)))}
    sc["hot"] = [[rng.randrange(nw), rng.frac(), rng.frac(), rng.randrange(nw)] for _ in range(rng.randrange(0, 12))]
    f = rng.weighted([("none", 5), ("inject", 3), ("prog", 2)])
    if f == "inject":
        sc["inject"] = {"w": rng.randrange(nw), "frac": rng.frac(), "exc": rng.pick(["KeyboardInterrupt", "MemoryError", "OSError", "SimCrash"])}
    elif f == "prog":
        sc["prog"] = {"w": rng.randrange(nw), "kind": rng.pick(["exit", "signal", "garbage"])}
    return sc


def g_crowd(rng, session):
    """All workers use the same kind of estimator (and often data of the same size), and are switched often."""
    nw = rng.randrange(2, 4)
    e = rng.pick(ESTS[:11])
    fam = [k for k in ESTS if ests.family(k) == ests.family(e)]
    n, task = rng.pick([9, 12, 17]), 0
    workers = []
    for _ in range(nw):
        items = []
        for _ in range(rng.randrange(1, 3)):
            items.append({"k": rng.weighted([("direct", 5), ("path", 3), ("bench", 2)]), "task": task, "n": n if rng.chance(0.8) else rng.pick([9, 12, 17]), "seed": rng.randrange(6),
                          "est": e if rng.chance(0.7) else rng.pick(fam)})
        workers.append(items)
    preempts = sorted([round(rng.frac(), 5), rng.randrange(nw)] for _ in range(rng.pick([8, 30, 100, 250])))
    return {"tasks": [NAMES[(session * 2 + rng.randrange(3)) % len(NAMES)]], "workers": workers, "preempts": preempts,
            "hot": [[rng.randrange(nw), rng.frac(), rng.frac(), rng.randrange(nw)] for _ in range(rng.pick([0, 6, 20]))]}


def g_draws(rng, session, i):
    """All workers draw samples (and ask for the ground truth) from one shared task or sampler of any kind."""
    nw = rng.randrange(2, 4)
    workers = [[{"k": "mi" if rng.chance(0.3) else "draw", "task": 0, "n": rng.pick([9, 12, 12, 17]), "seed": rng.randrange(5), "est": 0}
                for _ in range(rng.randrange(2, 5))] for _ in range(nw)]
    # every kind of object in turn, over the runs of all sessions
    return {"tasks": [{"any": (session * 7 + i // 8) if i % 8 == 1 else rng.randrange(1000)}], "workers": workers,
            "preempts": sorted([round(rng.frac(), 5), rng.randrange(nw)] for _ in range(rng.pick([10, 30, 100, 200]))),
            "hot": [[rng.randrange(nw), rng.frac(), rng.frac(), rng.randrange(nw)] for _ in range(rng.pick([0, 6, 20]))]}


def shrink(sc):
    ws = sc["workers"]
    if len(ws) > 2:
        for k in range(len(ws)):
            yield {**sc, "workers": ws[:k] + ws[k + 1:]}
    for k, w in enumerate(ws):
        if len(w) > 1:
            for j in range(len(w)):
                yield {**sc, "workers": ws[:k] + [w[:j] + w[j + 1:]] + ws[k + 1:]}
    for key in ("inject", "prog"):
        if sc.get(key):
            yield {k: v for k, v in sc.items() if k != key}


class Plans:
    """Child process plans, by the thread that starts the process."""

    def __init__(self, bad):
        self.bad, self.current = bad, {}

    def __iter__(self):
        return iter([self])

    def __len__(self):
        return 10**9

    def __getitem__(self, i):
        w = self.current.get(threading.get_ident())
        if self.bad and self.bad["w"] == w:
            return {"exit": {"kind": "exit", "code": 3, "errtext": "no package"}, "signal": {"kind": "signal", "sig": 9, "keep": 0},
                    "garbage": {"kind": "output", "out": "NULL\n"}}[self.bad["kind"]]
        return {}


def prepare(sim):
    from sim import jobs
    jobs.install()


def entry(sim, name):
    if isinstance(name, dict):
        every = [e for e in tasks.get(sim) if not e.name.startswith("benchmark:")]
        return every[name["any"] % len(every)]
    return next(e for e in tasks.get(sim) if e.name == name)


def one(it, task, folder, tag, shared_file):
    """One job; returns everything observable."""
    from bmi.benchmark import run_estimator
    from bmi.utils import read_sample
    from sim.fs import real_open
    import yaml
    if it["k"] == "draw":
        x, y = task.sample(it["n"], it["seed"])
        return {"x": np.array(x), "y": np.array(y)}
    if it["k"] == "mi":
        return {"mi": float(task.mutual_information if hasattr(task, "save_metadata") else task.mutual_information())}
    est = ests.build(it["est"])
    if it["k"] == "meta":
        path = os.path.join(folder, f"{tag}.yaml")
        task.save_metadata(path)
        return {"meta": yaml.safe_load(real_open(path).read()), "mi": float(task.mutual_information)}
    if it["k"] == "direct":
        x, y = task.sample(it["n"], it["seed"])
        return {"x": np.array(x), "y": np.array(y), "value": float(est.estimate(x, y))}
    if it["k"] == "shared":
        path = shared_file
        out = {}
    else:
        path = os.path.join(folder, f"{tag}.csv")
        task.save_sample(path, it["n"], it["seed"])
        x, y = read_sample(path)
        out = {"x": x, "y": y}
    if it["k"] == "path":
        return {**out, "value": float(est.estimate(out["x"], out["y"]))}
    extra = {"note": [tag]} if it.get("info") else {}
    r = run_estimator(estimator=est, estimator_id=f"e{it['est']}", sample_path=path, task_id="t", seed=it["seed"], additional_information=extra)
    dump = os.path.join(folder, f"{tag}-result.yaml")
    r.dump(dump)
    back = yaml.safe_load(real_open(dump).read())
    rec = r.dict()
    for d in (rec, back):
        d.pop("time_in_seconds")
    out.update(value=float(rec.pop("mi_estimate")), success=rec["success"], rec=norm(rec), note=extra.get("note"),  # what a run adds to the caller's dictionary is P02's
               dumped=(float(back.pop("mi_estimate")), norm(back)))
    return out


def norm(d):
    d = dict(d)
    info = dict(d["additional_information"])
    for k in ("traceback", "error_message", "test_history"):
        info.pop(k, None)
    if not d["success"]:
        info = {k: v for k, v in info.items() if k == "note"}
    d["additional_information"] = info
    return repr(sorted((k, v if not isinstance(v, dict) else sorted(v.items(), key=repr)) for k, v in d.items()))


def agree(it, a, b):
    if set(a) != set(b):
        return f"fields {sorted(a)} and {sorted(b)}"
    for k in a:
        if k in ("x", "y"):
            if not tasks.same_array(a[k], b[k]):
                return f"{k}: {a[k].ravel()[:4]} and {b[k].ravel()[:4]}"
        elif k == "value":
            if not ests.agree(it["est"], a[k], b[k]):
                return f"estimate {a[k]!r} and {b[k]!r}"
        elif k == "mi":
            if not abs(a[k] - b[k]) <= 1e-5 * max(1, abs(b[k])):
                return f"ground truth {a[k]!r} and {b[k]!r}"
        elif k == "meta":
            if repr({**a[k], "mi_true": 0}) != repr({**b[k], "mi_true": 0}) or not abs(a[k]["mi_true"] - b[k]["mi_true"]) <= 1e-5:
                return f"metadata {a[k]!r} and {b[k]!r}"
        elif k == "dumped":
            if not ests.agree(it["est"], a[k][0], b[k][0]) or a[k][1] != b[k][1]:
                return f"file content {a[k]!r} and {b[k]!r}"
        elif a[k] != b[k]:
            return f"{k}: {a[k]!r} and {b[k]!r}"
    return None


def run(sc, sim):
    from sim import fakeprog, jobs, mon, proc
    from sim.core import SimCrash
    from sim.sched import Sched
    shared_task = [entry(sim, n).build()[0] for n in sc["tasks"]]
    shared_file = os.path.join(sim.scratch, "shared.csv")
    x, y = ests.data(1)
    write_csv(shared_file, x, y)
    raw = open(shared_file, "rb").read()
    sim.nontrivial = True
    bad = sc.get("prog")
    plans = Plans(bad)
    with proc.World(sim, fakeprog.programs(), plans), jobs.JobControl(sim, perm=[1, 0, 2]):
        # every worker alone, with its own objects and folder
        alone, steps = [], []
        for w, items in enumerate(sc["workers"]):
            folder = os.path.join(sim.scratch, f"alone{w}")
            os.mkdir(folder)
            own = [entry(sim, n).build()[0] for n in sc["tasks"]]
            plans.current[threading.get_ident()] = w
            res = []
            c = mon.Counter()
            for j, it in enumerate(items):
                with mon.Controlled(c):
                    res.append(call(one, it, own[it["task"]], folder, f"w{w}-{j}", shared_file))
            alone.append(res)
            steps.append(c.steps())
            for j, o in enumerate(res):
                sim.check(o.ok or bad and bad["w"] == w, "alone-fails", lambda: f"worker {w} alone, job {items[j]}: {o!r}")
        plans.current.clear()
        total = sum(steps)
        s = Sched(sim, [[max(1, int(f * total)), t] for f, t in sc["preempts"]])
        s.aim(sc.get("hot", []), dict(enumerate(steps)))
        outs = [[] for _ in sc["workers"]]
        hit = {}
        folder = os.path.join(sim.scratch, "together")
        os.mkdir(folder)
        for w, items in enumerate(sc["workers"]):
            def body(w=w, items=items):
                plans.current[threading.get_ident()] = w
                for j, it in enumerate(items):
                    outs[w].append(call(one, it, shared_task[it["task"]], folder, f"w{w}-{j}", shared_file))
            s.spawn(body)
        inj = sc.get("inject")
        if inj and inj["w"] < len(outs):
            w = inj["w"]
            cls = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash, "OSError": OSError}[inj["exc"]]

            def make():
                hit[w] = len(outs[w])
                return cls()
            s.inject[w] = (int(inj["frac"] * max(1, steps[w] - 1)), make, "raise_" + inj["exc"])
        with mon.Controlled(s):
            res = s.run()
        for _, e in res:
            if e is not None:
                raise e
    sim.event("switches", s.switches, s.step)
    left = os.listdir(folder)
    stray = [f for f in left if f.split("-")[0] not in {f"w{w}" for w in range(len(sc["workers"]))}]
    sim.check(not stray or hit, "files", lambda: f"the workers left files {sorted(stray)}")
    for w, items in enumerate(sc["workers"]):
        for j, it in enumerate(items):
            o, a = outs[w][j], alone[w][j]
            if hit.get(w) == j:
                sim.probe("job_hit_by_a_fault")
                continue
            sim.check(o.ok == a.ok, "outcome-differs", lambda: f"worker {w}, job {j} {it}: alone it {a!r}, with others {o!r}")
            if o.ok:
                d = agree(it, o.value, a.value)
                sim.check(d is None, "interference", lambda: f"worker {w}, job {j} {it} on {sc['tasks'][it['task']]}: with others / alone: {d}")
            sim.event(w, j, o.ok)
            sim.probe("jobs_compared_with_alone")
        # files of this worker, and nothing else
        mine = sorted(f for f in left if f.startswith(f"w{w}-"))
        ref = sorted(os.listdir(os.path.join(sim.scratch, f"alone{w}")))
        if w not in hit:
            sim.check(mine == ref, "files", lambda: f"worker {w} left files {mine}, alone {ref}")
            for f in mine:
                if f.endswith(".csv"):
                    b1, b2 = (open(os.path.join(sim.scratch, d, f), "rb").read() for d in ("together", f"alone{w}"))
                    sim.check(b1 == b2, "files", lambda: f"worker {w}: sample file {f} differs from the one written alone")
    sim.check(open(shared_file, "rb").read() == raw, "shared-file", "the sample file read by all workers was changed")
