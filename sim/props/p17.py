"""P17: the benchmark pipeline converges to one results table."""
import csv
import math
import os

import numpy as np

from sim.props import ests, tasks
from sim.props.common import call

TIERS = {"quick": {"sessions": 8, "episodes": 16}, "thorough": {"sessions": 32, "episodes": 150, "timeout": 1700}}
LISTS = ("invs", "tasks", "ests", "ns", "seeds")
MIN_LEN = {"invs": 1, "tasks": 1, "ests": 1, "ns": 1, "seeds": 1}
OPTIONAL = ("fault", "delete", "preempts", "grow")
INFO = {
    "rule": "Each run: a workflow (one of the rule files of /repo) for 1-3 estimators, 1-3 tasks, 1-2 sizes and 1-3 seeds is executed by the simulated "
            "Snakemake in 1-5 invocations: random order of ready jobs, 1-4 at a time with switches at random lines, a fresh interpreter (all "
            "objects new) for every job or one per worker; in all but the last invocation a job is killed at a random line, or storage fails at a byte position of a sample, a "
            "result or the table, or everything is killed in the middle of a write; between invocations outputs are deleted or the configuration "
            "changes. The last invocation is undisturbed. Then the table, every result file and every sample are compared with values computed "
            "directly, one combination at a time.",
    "real": "the .smk rule files, the demo configuration, tasks, samplers, estimators, run_estimator, save_sample/read_sample, RunResult.dump, pandas, PyYAML",
    "stub": "Snakemake (job graph, scheduling, clean-up of failed jobs), storage faults, kills, R/Julia programs, thread scheduling, resource limits, pandas "
            "Styler (needs jinja2), the NUTS sampler in gmm_benchmark.smk",
    "assumptions": ["Snakemake removes the outputs of failed jobs and repeats incomplete ones (--rerun-incomplete)",
                    "identifiers contain no '/', seeds and sizes are not negative"],
}
NAMES = ["task:dense", "task:student_dense", "task:additive", "own_task", "task:2pair", "task:student_identity", "task:rotate", "task:uniformise",
         "task:swissroll", "own_task_arrays", "task:wiggly", "task:half_cube_asinh"]
MIXTURES = ["task:x", "task:inliers", "task:concentric", "task:waves", "task:galaxy", "task:ai"]      # their ground truth is slow
PLAIN = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12]
EXT = [13, 14, 15]
FILES = {"A": "workflows/benchmark/_common_benchmark_rules.smk", "B": "workflows/projects/Beyond_Normal/_core_rules.smk",
         "C": "workflows/projects/Mixtures/_benchmark_rules.smk", "D": "workflows/benchmark/demo/run.smk",
         "G": "workflows/projects/Mixtures/gmm_benchmark.smk"}
EIDS = ["KSG-5", "e", "e-1", "Hist 10", "µ", "a.b", "e10", "e1", "x:y", "#1"]
TIDS = ["t", "t-1", "t1", "t10", "T", "t-1-0", "µ t", "t.csv", "100-1", "1", "1.0", "t_"]


def gen(rng, session, i, tier):
    kind = rng.weighted([("A", 5), ("B", 5), ("C", 5), ("G", 0.6)])
    if i == 0 and session % 4 == 0:
        kind = "D"
    if i == 0 and session == 1:
        return {"rules": "load", "slow": tier != "quick"}
    small = kind == "G"
    nt = 1 if small else rng.weighted([(1, 4), (2, 4), (3, 2)])
    first = (session * 3 + rng.randrange(4)) % len(NAMES)
    pool = NAMES[first:] + NAMES[:first]
    names = rng.sample(pool[:6], nt)
    if rng.chance(0.12):
        names[0] = rng.pick(MIXTURES)
    ne = 1 if small else rng.weighted([(1, 3), (2, 4), (3, 2)])
    es = rng.sample(PLAIN, ne)
    if rng.chance(0.35) and not small:
        es[rng.randrange(ne)] = rng.pick(EXT)
    sc = {"rules": kind, "tasks": ["task:x", "task:ai", "task:galaxy", "task:additive"][rng.randrange(4):][:1] if small else names,
          "ests": es, "eids": rng.sample(EIDS, 3), "ns": rng.sample([9, 12, 17, 100], rng.pick([1, 1, 2])) if not small else [20],
          "seeds": rng.sample([0, 1, 2, 10, 123], rng.weighted([(1, 3), (2, 4), (3, 1)]))}
    if rng.chance(0.4) and not small:
        sc["tids"] = rng.sample(TIDS, 3)       # similar ids, one name
    if rng.chance(0.3) and not small:
        sc["bad"] = {"eid": "bad", "when": rng.pick(["always", "sometimes"]), "text": rng.pick(["boom", "it's \"both\"", "line\nbreak: {x}"])}
    n = rng.weighted([(1, 2), (2, 5), (3, 4), (4, 2), (5, 1)])
    invs = []
    jobs = 2 * nt * ne * len(sc["ns"]) * len(sc["seeds"]) + 1
    ext = any(e in EXT for e in es)
    for k in range(n):
        v = {"order": rng.randrange(10**6), "cores": rng.weighted([(1, 4), (2, 3), (3, 2), (4, 1)]),
             "mode": "fresh" if small else rng.pick(["fresh", "worker"]), "keep_going": rng.chance(0.6)}
        v["preempts"] = sorted([rng.randrange(1, 150 * jobs), rng.randrange(4)] for _ in range(rng.log_int(1, 40))) if v["cores"] > 1 else []
        if k < n - 1:
            v["fault"] = g_fault(rng, ext, jobs)
            if rng.chance(0.25):
                v["target"] = rng.pick(["sample", "result"])      # only part of the workflow is asked for
        if k and rng.chance(0.4):
            v["delete"] = [round(rng.frac(), 4) for _ in range(rng.randrange(1, 4))]
        if k and rng.chance(0.2) and not small:
            v["grow"] = rng.pick([{"seeds": [rng.pick([5, 6])]}, {"ns": [11]}, {"drop_seed": True}])
        invs.append(v)
    sc["invs"] = invs
    return sc


def g_fault(rng, ext, jobs):
    k = rng.weighted([("kill", 4), ("fs", 6), ("power", 4), ("none", 1)])
    if k == "none":
        return None
    if k == "kill":
        return {"k": "kill", "job": rng.randrange(jobs), "at": rng.log_int(1, 500), "exc": rng.pick(["SimCrash", "KeyboardInterrupt", "SystemExit"])}
    match = rng.pick(["tasks/", ".yaml", "results.csv", ""])
    nth = rng.log_int(1, max(2, jobs)) - 1
    if k == "power":
        return {"k": "fs", "op": "write", "err": "kill", "match": match, "nth": nth, "at": rng.log_int(1, 4000) - 1}
    op = rng.weighted([("write", 6), ("openw", 2), ("close", 2), ("read", 2), ("openr", 1)])
    if op in ("read", "openr") and (ext or match == ""):
        match = rng.pick([".yaml", "results.csv"])
    err = {"write": ["ENOSPC", "EIO", "short", "EDQUOT"], "openw": ["EACCES", "EMFILE", "ENOSPC"], "close": ["EIO", "ENOSPC"], "read": ["EIO", "short"],
           "openr": ["EACCES", "EMFILE"]}[op]
    return {"k": "fs", "op": op, "err": rng.pick(err), "match": match, "nth": nth, "at": rng.log_int(1, 4000) - 1}


def shrink(sc):
    for k, v in enumerate(sc.get("invs", [])):
        for change in ({"cores": 1, "preempts": []}, {"mode": "fresh"}, {"target": None}, {"preempts": v.get("preempts", [])[: len(v.get("preempts", [])) // 2]}):
            if any(v.get(a) != b for a, b in change.items()):
                yield {**sc, "invs": sc["invs"][:k] + [{**v, **change}] + sc["invs"][k + 1:]}
    if sc.get("bad"):
        yield {k: v for k, v in sc.items() if k != "bad"}


def prepare(sim):
    from sim import jobs, snake
    jobs.install()
    snake.install(sim)


# ---------------------------------------------------------------- configurations

class Bad:
    """An estimator that fails."""

    def __init__(self, spec):
        self.spec = spec

    def estimate(self, x, y):
        if self.spec["when"] == "always" or float(np.asarray(x)[0, 0]) > 0:
            raise ValueError(self.spec["text"])
        return 0.25

    def estimate_with_info(self, x, y):
        from bmi.interface import EstimateResult
        return EstimateResult(mi_estimate=self.estimate(x, y))

    def parameters(self):
        return None


def entry(sim, name):
    return next(e for e in tasks.get(sim) if e.name == name)


def estimators(sc):
    out = {sc["eids"][k]: ests.build(e) for k, e in enumerate(sc["ests"])}
    if sc.get("bad"):
        out["bad"] = Bad(sc["bad"])
    return out


def rescale(t):
    from bmi.benchmark.tasks import transform_rescale
    return transform_rescale(base_task=t, task_name=t.name, task_id=t.id)


def make_tasks(sim, sc, scaled):
    from bmi.benchmark import Task
    out = [entry(sim, n).build()[0] for n in sc["tasks"]]
    if sc.get("tids"):
        out = [Task(t.sampler, i, "The task", t.params) for t, i in zip(out, sc["tids"])]
    return [rescale(t) for t in out] if scaled else out


def loader(sim, sc, cfg):
    from sim import session, snake
    path = os.path.join(session.REPO, FILES[sc["rules"]])
    kind = sc["rules"]

    def load():
        snake.forget(["config", "_utils", "example_distributions"])
        if kind == "D":
            return snake.Workflow(path)
        if kind == "G":
            gmm_stub()
            return snake.Workflow(path, overrides={"TASKS": make_tasks(sim, sc, False), "SEEDS": list(cfg["seeds"]), "N_SAMPLES": cfg["ns"][0],
                                                   "ESTIMATORS_DICT": {"GMM": gmm()}})
        ts = make_tasks(sim, sc, False)
        given = {"N_SAMPLES": list(cfg["ns"]), "SEEDS": list(cfg["seeds"])}
        es = estimators(sc)
        if kind == "A":
            given.update(TASKS=ts, ESTIMATORS_DICT=es)
        elif kind == "B":
            given.update(TASKS={t.id: t for t in ts}, ESTIMATORS=es)
        else:
            given.update(UNSCALED_TASKS={t.id: t for t in ts}, ESTIMATORS=es)
        return snake.Workflow(path, given)
    return load


def gmm():
    from bmi.estimators.external.gmm import GMMEstimator
    return GMMEstimator(key=3, n_components=2, mcmc_num_warmup=2, mcmc_num_samples=4, n_thinned_samples=2, mi_estimate_num_samples=15)


def gmm_stub():
    from sim.props import mcmc
    mcmc.install()


def files_under(root):
    out = []
    for base, _, names in os.walk(root):
        out += [os.path.relpath(os.path.join(base, n), root) for n in names]
    return sorted(out)


# ---------------------------------------------------------------- expected values

def read_csv(path):
    from sim.fs import real_open
    with real_open(path, newline="") as f:
        rows = list(csv.reader(f))
    return rows[0], np.array([[float(v) for v in r] for r in rows[1:]])


def reference(sim, sc, tname, n, seed, e):
    """(sample file bytes, value of estimator e or None) computed alone."""
    from sim.fs import real_open
    kind = sc["rules"]
    cache = sim.shared.setdefault("p17", {})
    skey = (kind in "C", tname, n, seed)
    if skey not in cache:
        t = rescale(entry(sim, tname).build()[0]) if kind == "C" else entry(sim, tname).build()[0]
        path = os.path.join(sim.root, f"ref{len(cache)}.csv")
        t.save_sample(path, n, seed)
        head, a = read_csv(path)
        x, y = t.sample(n, seed)
        xs, ys = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        both = np.concatenate([xs, ys], axis=1)
        sim.check(a.shape == both.shape and np.allclose(a, both, rtol=1e-5, atol=1e-6 * max(1, np.abs(both).max())), "sample-file",
                  lambda: f"{tname}: the saved sample differs from the drawn one")
        with real_open(path, "rb") as f:
            cache[skey] = (f.read(), a[:, : xs.shape[1]], a[:, xs.shape[1]:], path)
    raw, x, y, path = cache[skey]
    if e is None:
        return raw, None
    ekey = skey + (repr(e),)
    if ekey not in cache:
        if e == "GMM":
            gmm_stub()
            r = np.asarray(gmm().get_posterior_mi(x, y))
            cache[ekey] = r
        elif isinstance(e, dict):
            o = call(Bad(e).estimate, x, y)
            cache[ekey] = o.value if o.ok else None
        else:
            est = ests.build(e)
            o = call(est.estimate, x, y)
            cache[ekey] = float(o.value) if o.ok else None
    return raw, cache[ekey]


# ---------------------------------------------------------------- one run

def run(sc, sim):
    from sim import fakeprog, fs as simfs, jobs, proc, snake
    if sc["rules"] == "load":
        return load_all(sim, sc.get('slow'))
    root = os.path.join(sim.scratch, "work")
    os.mkdir(root)
    cfg = {"ns": list(sc.get("ns", [])), "seeds": list(sc.get("seeds", []))}
    store = snake.Store()
    fs = simfs.FS(sim, root)
    latest = {}
    old = os.getcwd()
    os.chdir(root)
    try:
        with proc.World(sim, fakeprog.programs(), []), jobs.JobControl(sim, perm=[1, 0, 2]), fs:
            last = len(sc["invs"]) - 1
            for k, v in enumerate(sc["invs"]):
                for f in v.get("delete") or []:
                    have = files_under(root)
                    if have:
                        victim = have[min(len(have) - 1, int(f * len(have)))]
                        os.unlink(victim)
                        store.mtime.pop(victim, None)
                        latest.pop(victim, None)
                        sim.probe("output_deleted_by_the_user")
                g = v.get("grow") or {}
                if g.get("seeds"):
                    cfg["seeds"] += [s for s in g["seeds"] if s not in cfg["seeds"]]
                if g.get("ns"):
                    cfg["ns"] += [s for s in g["ns"] if s not in cfg["ns"]]
                if g.get("drop_seed") and len(cfg["seeds"]) > 1:
                    cfg["seeds"].pop()
                inv = invocation(sim, sc, cfg, v, store, fs, final=k == last)
                if inv is None:
                    continue
                latest.update(inv.written)
                # nobody touches what another job has completed
                if not inv.dead:
                    for p, data in latest.items():
                        if p in store.incomplete or not os.path.exists(p) and any(p in j.outputs for j, _ in inv.failed):
                            continue
                        now = simfs.real_open(p, "rb").read() if os.path.exists(p) else None
                        sim.check(now == data, "output-changed", lambda: f"{p}, complete before, now {'is missing' if now is None else 'has other content'}")
                    for p in list(latest):
                        if not os.path.exists(p):
                            latest.pop(p)
                else:
                    latest = {p: d for p, d in latest.items() if os.path.exists(p) and p not in store.incomplete}
                if k == last:
                    sim.check(not inv.failed, "undisturbed-job-fails", lambda: f"{inv.failed[0][0]!r} failed without any fault: {inv.failed[0][1]!r}")
                    sim.check(all(os.path.exists(p) for p in inv.wanted), "incomplete", lambda: f"finished without {[p for p in inv.wanted if not os.path.exists(p)]}")
        with proc.World(sim, fakeprog.programs(), []), jobs.JobControl(sim, perm=[0, 1, 2]):
            verify(sim, sc, cfg, root)
    finally:
        os.chdir(old)


def invocation(sim, sc, cfg, v, store, fs, final):
    from sim import snake
    from sim.core import SimCrash
    from sim.rng import Rng
    f = None if final else v.get("fault")
    inject = None
    fs.set_plans([])
    if f and f["k"] == "fs":
        fs.set_plans([{k: x for k, x in f.items() if k != "k" and (k != "match" or x)}])
    elif f and f["k"] == "kill":
        cls = {"SimCrash": SimCrash, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}[f["exc"]]
        inject = {"job": f["job"], "at": f["at"], "make": cls, "kind": "job_" + f["exc"]}
    r = Rng(v["order"])

    def pick(ready, k):
        return ready[r.randrange(len(ready))]

    targets = ["results.csv"] if sc["rules"] in "ABCG" else []      # the other outputs of G need the published names
    if sc["rules"] == "A" and v["order"] % 3 == 0 and not sc.get("bad"):      # texts of failures in the tables: P18
        targets = ["results.csv", "benchmark.html"]
    wf_load = loader(sim, sc, cfg)
    if v.get("target") and sc["rules"] in "ABC":
        tid = make_tasks(sim, sc, False)[0].id
        name = f"{tid}/{cfg['ns'][0]}-{cfg['seeds'][0]}"
        targets = [f"tasks/{name}.csv"] if v["target"] == "sample" else [f"results/{sc['eids'][0]}/{name}.yaml"]
    inv = snake.Invocation(sim, wf_load, store, targets, cores=v["cores"], pick=pick, preempts=v.get("preempts") or [], keep_going=v["keep_going"] or final,
                           mode=v["mode"], inject=inject, fs=fs)
    inv.run()
    fs.set_plans([])
    if fs.restore_after_crash():
        inv.dead = True
        sim.probe("whole_workflow_killed")
    for j, e in inv.failed:
        sim.probe("job_failed")
    sim.event("invocation", len(inv.done), len(inv.failed), inv.dead)
    sim.nontrivial = True
    return inv


def expected(sim, sc, cfg):
    """{(estimator id, task id, n, seed): (task name in the catalogue, estimator, task)}"""
    out = {}
    if sc["rules"] == "G":
        es = {"GMM": "GMM"}
    else:
        es = {sc["eids"][k]: e for k, e in enumerate(sc["ests"])}
        if sc.get("bad"):
            es["bad"] = sc["bad"]
    for tname, t in zip(sc["tasks"], make_tasks(sim, sc, sc["rules"] == "C")):
        for eid, e in es.items():
            for n in cfg["ns"]:
                for s in cfg["seeds"]:
                    out[eid, t.id, n, s] = (tname, e, t)
    return out


def rows_of(path):
    from sim.fs import real_open
    with real_open(path, newline="") as f:
        return list(csv.DictReader(f))


def verify(sim, sc, cfg, root):
    if sc["rules"] == "D":
        return verify_demo(sim, root)
    exp = expected(sim, sc, cfg)
    rows = rows_of(os.path.join(root, "results.csv"))
    gm = sc["rules"] == "G"
    keys = [(r["estimator_id"], r["task_id"], cfg["ns"][0] if gm else int(r["n_samples"]), int(r["seed"])) for r in rows]
    sim.check(sorted(keys) == sorted(exp), "rows", lambda: f"rows {sorted(keys)}, configured {sorted(exp)}")
    for key, r in zip(keys, rows):
        tname, e, t = exp[key]
        raw, want = reference(sim, sc, tname, key[2], key[3], e)
        sim.check(abs(float(r["mi_true"]) - float(t.mutual_information)) <= 1e-5 * max(1, abs(float(t.mutual_information))), "ground-truth",
                  lambda: f"{key}: mi_true {r['mi_true']}, task {t.mutual_information}")
        sim.check(("task_name" not in r and not gm) or r.get("task_name") == t.name, "task-name", lambda: f"{key}: task name {r.get('task_name')!r}, not {t.name!r}")
        if gm:
            fin = want[np.isfinite(want)]
            sim.check(int(r["used_length"]) == len(fin) and int(r["entries_filtered_out"]) == len(want) - len(fin), "draws", lambda: f"{key}: {r}, draws {want}")
            for col, ref in (("mi_mean", fin.mean()), ("mi_q_low", np.quantile(fin, 0.1)), ("mi_q_high", np.quantile(fin, 0.9))) if len(fin) else ():
                sim.check(abs(float(r[col]) - float(ref)) <= 1e-4 * max(1, abs(float(ref))), "estimate", lambda: f"{key}: {col} {r[col]}, alone {ref}")
        else:
            check_row(sim, key, r, e, want)
        sim.event(*key, r.get("mi_estimate", r.get("mi_mean")))
        sim.probe("rows_compared")
        p = os.path.join(root, "tasks", t.id, f"{key[2]}-{key[3]}.csv")
        if os.path.exists(p):       # a user may have deleted it after its use
            with open(p, "rb") as f:
                sim.check(f.read() == raw, "sample", lambda: f"{p} is not the sample of this task, size and seed")


def check_row(sim, key, r, e, want):
    ok = r["success"]
    sim.check(ok in ("True", "False"), "success-flag", lambda: f"{key}: success {ok!r}")
    value = float(r["mi_estimate"]) if r["mi_estimate"] != "" else math.nan
    if want is None:
        sim.check(ok == "False" and value != value, "failed-run", lambda: f"{key}: the estimator fails, row says success={ok}, estimate {value}")
        sim.probe("row_of_a_failed_run")
    else:
        sim.check(ok == "True", "failed-run", lambda: f"{key}: works alone (value {want}), the row says it failed: {r['additional_information'][:300]}")
        same = ests.agree(e, value, want) if not isinstance(e, dict) else value == want
        sim.check(same, "estimate", lambda: f"{key}: estimate {value}, alone {want}")
        sim.check(float(r["time_in_seconds"]) >= 0, "time", lambda: f"{key}: time {r['time_in_seconds']}")


def verify_demo(sim, root):
    """The published demonstration, with its own configuration."""
    import importlib
    import sys

    from sim import session, snake
    from sim.fs import real_open
    folder = os.path.join(session.REPO, "workflows/benchmark/demo")
    if "demo" not in sim.shared:
        snake.forget(["config"])
        sys.path.insert(0, folder)
        try:
            c = importlib.import_module("config")
        finally:
            sys.path.remove(folder)
            snake.forget(["config"])
        exp = {}
        for t in list(c.TASKS):
            for n in c.N_SAMPLES:
                for s in c.SEEDS:
                    p = os.path.join(sim.root, "demo.csv")
                    t.save_sample(p, n, s)
                    head, a = read_csv(p)
                    dx = sum(h.startswith("X") for h in head)
                    for eid, e in c.ESTIMATORS_DICT.items():
                        exp[eid, t.id, n, s] = (float(e.estimate(a[:, :dx], a[:, dx:])), t.mutual_information, t.name, real_open(p, "rb").read())
        sim.shared["demo"] = exp
    exp = sim.shared["demo"]
    rows = rows_of(os.path.join(root, "results.csv"))
    keys = [(r["estimator_id"], r["task_id"], int(r["n_samples"]), int(r["seed"])) for r in rows]
    sim.check(sorted(keys) == sorted(exp), "rows", lambda: f"rows {sorted(keys)}, configured {sorted(exp)}")
    for key, r in zip(keys, rows):
        v, mi, name, raw = exp[key]
        sim.check(r["success"] == "True" and abs(float(r["mi_estimate"]) - v) <= 1e-6, "estimate", lambda: f"{key}: {r['mi_estimate']}, alone {v}")
        sim.check(abs(float(r["mi_true"]) - float(mi)) <= 1e-6 and r["task_name"] == name, "ground-truth", lambda: f"{key}: {r}")
    for f in ("benchmark.html",):
        sim.check(os.path.getsize(os.path.join(root, f)) > 0, "tables", f"{f} is empty")
    sim.probe("demo_configuration_checked")


CONFIGURED = ["workflows/benchmark/demo/run.smk", "workflows/benchmark/v1/run.smk", "workflows/benchmark/v2/run.smk",
              "workflows/projects/Beyond_Normal/benchmark.smk", "workflows/projects/Beyond_Normal/benchmark_ksg.smk",
              "workflows/projects/Beyond_Normal/benchmark_neural_arch.smk", "workflows/projects/Beyond_Normal/benchmark_qualifiers.smk",
              "workflows/projects/Beyond_Normal/benchmark_gaussianise.smk", "workflows/projects/Beyond_Normal/benchmark_uniformise.smk",
              "workflows/projects/Beyond_Normal/figure_high_mi.smk", "workflows/projects/Beyond_Normal/figure_sparsity.smk",
              "workflows/projects/Beyond_Normal/figure_spiral.smk", "workflows/projects/Beyond_Normal/figure_tails.smk",
              "workflows/projects/Mixtures/outliers.smk", "workflows/projects/Mixtures/cool_tasks.smk", "workflows/projects/Mixtures/gmm_benchmark.smk"]


SLOW = ("benchmark/v2/", "cool_tasks", "gmm_benchmark")


def load_all(sim, slow):
    """Every configured benchmark of the repository: the job graph has one job per combination and its own sample."""
    from sim import session, snake
    here = os.path.join(sim.scratch, "empty")
    os.mkdir(here)
    old = os.getcwd()
    os.chdir(here)
    try:
        for rel in CONFIGURED:
            path = os.path.join(session.REPO, rel)
            if not os.path.exists(path) or not slow and any(s in rel for s in SLOW):
                continue
            check_config(sim, snake, path, rel)
            sim.probe("real_configurations_checked")
    finally:
        os.chdir(old)
    sim.nontrivial = True


def check_config(sim, snake, path, rel):
    snake.forget(["config", "_utils", "example_distributions", "_common_figure_utils", "_high_mi_utils", "_sparsity_utils"])
    inv = snake.Invocation(sim, lambda: snake.Workflow(path), snake.Store(), ["results.csv"])
    inv.plan()
    ns = inv.wf.ns
    es = ns.get("ESTIMATORS_DICT", ns.get("ESTIMATORS"))
    ts = ns["TASKS_DICT"] if "TASKS_DICT" in ns else ns["TASKS"]
    n = ns["N_SAMPLES"]
    n = [n] if isinstance(n, int) else list(n)
    seeds = list(ns["SEEDS"])
    top = inv.by_output["results.csv"]
    want = {(e, t, str(k), str(s)) for e in es for t in ts for k in n for s in seeds}
    got = []
    for p in top.inputs:
        j = inv.by_output[p]
        w = j.wc
        got.append((w["estimator_id"], w["task_id"], w["n_samples"], w["seed"]))
        srcs = [inv.by_output[q] for q in j.inputs]
        sim.check(len(srcs) == 1 and {k: srcs[0].wc[k] for k in ("task_id", "n_samples", "seed")} == {k: w[k] for k in ("task_id", "n_samples", "seed")},
                  "configuration", lambda: f"{rel}: {j!r} reads {j.inputs}")
    sim.check(len(got) == len(set(got)) and set(got) == want, "configuration", lambda: f"{rel}: the jobs are not one per combination, e.g. {sorted(want ^ set(got))[:3]}")
    for k, t in ts.items():
        sim.check(t.id == k, "configuration", lambda: f"{rel}: task {t.id!r} is listed as {k!r}")
    sim.event(rel, len(got))
