"""P13: chunk size, job count and job order do not affect the neighbour estimates."""
import numpy as np

from sim.props.common import call, pair

TIERS = {"quick": {"sessions": 8, "episodes": 230}, "thorough": {"sessions": 32, "episodes": 700, "timeout": 1500}}
LISTS = ("variants",)
MIN_LEN = {"variants": 1}
INFO = {
    "rule": "Each run: one data set without ties and one configuration, estimated with the default chunking in one job, and then "
            "by 2-6 variants: other chunk sizes (not dividing or larger than the sample included), other job counts with the "
            "parallel jobs executed in a random order, jobs that fail, other memory layouts, and the slow reference variant.",
    "real": "bmi.estimators.KSGEnsembleFirstEstimator and the slow variant, chunker, scikit-learn pairwise distances",
    "stub": "joblib.Parallel's scheduler and the number of processors",
    "assumptions": ["data without ties in float64; equality up to 1e-9"],
}


def gen(rng, session, i, tier):
    n = rng.log_int(8, 150) if rng.chance(0.9) else rng.randrange(200, 420)
    if rng.chance(0.025):      # more than one chunk by default
        n = rng.randrange(520, 1700)
    ks = rng.pick([[1], [2, 3], [3, 5, 7], [5, 10], [1, 2, 3, 4, 5], [6, 2], [4], [3, 3]])
    ks = [k for k in ks if k < n] or [1]
    cfg = {"neighborhoods": ks, "metric_x": rng.pick(["euclidean", "manhattan", "chebyshev"]), "standardize": rng.chance(0.6)}
    if rng.chance(0.4):
        cfg["metric_y"] = rng.pick(["euclidean", "manhattan", "chebyshev"])
    vs = []
    for _ in range(rng.log_int(2, 6)):
        k = rng.weighted([("chunk", 4), ("jobs", 4), ("both", 3), ("slow", 1), ("fail", 1.5)])
        v = {"k": k}
        if k in ("chunk", "both"):
            v["chunk"] = rng.pick([1, 2, 3, 7, 11, n - 1, n, n + 1, 10 * n, n // 2, n // 2 + 1, n // 3 + 1])
            v["chunk"] = max(1, v["chunk"])
        if k in ("jobs", "both", "fail") or (k == "slow" and rng.chance(0.5)):
            v["jobs"] = rng.pick([2, 3, 4, -1, 8, -2, 17])
            v["perm"] = [rng.randrange(7) for _ in range(5)]
        if k == "fail":
            v["fail"] = rng.log_int(1, 40) - 1
            v["exc"] = rng.pick(["OSError", "MemoryError", "RuntimeError", "KeyboardInterrupt"])
            v["slow"] = rng.chance(0.3)
        v["layout"] = rng.pick(["c", "c", "f", "list", "strided", "neg"])
        v["reuse"] = rng.chance(0.3)
        vs.append(v)
    if n > 500:
        vs = vs[:2]
    if n > 160:
        vs = [v for v in vs if v["k"] != "slow" and not v.get("slow")] or [{"k": "chunk", "chunk": 64, "layout": "c", "reuse": False}]
    return {"data": {"seed": rng.randrange(10**6), "n": n, "dx": rng.randrange(1, 5), "dy": rng.randrange(1, 5), "rho": rng.pick([0.3, 0.8, 0.95])},
            "scale": rng.pick([1.0, 1.0, 100.0, 1e-3]), "cfg": cfg, "variants": vs, "via": rng.pick(["fit", "fit", "estimate"])}


def shrink(sc):
    n = sc["data"]["n"]
    for m in (max(sc["cfg"]["neighborhoods"]) + 1, n // 2, n - 1):
        if max(sc["cfg"]["neighborhoods"]) < m < n:
            yield {**sc, "data": {**sc["data"], "n": m}}
    if len(sc["cfg"]["neighborhoods"]) > 1:
        yield {**sc, "cfg": {**sc["cfg"], "neighborhoods": sc["cfg"]["neighborhoods"][:1]}}
    for i, v in enumerate(sc["variants"]):
        for c in ({"layout": "c"}, {"reuse": False}):
            if v.get(list(c)[0]) != list(c.values())[0]:
                yield {**sc, "variants": sc["variants"][:i] + [{**v, **c}] + sc["variants"][i + 1:]}


def prepare(sim):
    from sim import jobs
    jobs.install()


def layout(a, how):
    if how == "f":
        return np.asfortranarray(a)
    if how == "list":
        return a.tolist()
    if how == "strided":
        b = np.zeros((len(a) * 2, a.shape[1] * 2))
        b[::2, ::2] = a
        return b[::2, ::2]
    if how == "neg":
        return np.ascontiguousarray(a[::-1])[::-1]
    return a


def run(sc, sim):
    from bmi.estimators import KSGEnsembleFirstEstimator
    from bmi.estimators.ksg import KSGEnsembleFirstEstimatorSlow
    from sim import jobs
    d, cfg = sc["data"], sc["cfg"]
    x, y = pair(d["seed"], d["n"], d["dx"], d["dy"], d["rho"])
    x, y = x * sc["scale"], y * sc["scale"]
    base = KSGEnsembleFirstEstimator(**cfg)
    base.fit(x, y)
    want = dict(base.get_predictions())
    want_est = float(np.mean([want[k] for k in want]))
    last = {}
    sim.nontrivial = True
    for i, v in enumerate(sc["variants"]):
        kw = dict(cfg)
        slow = v["k"] == "slow" or v.get("slow")
        cls = KSGEnsembleFirstEstimatorSlow if slow else KSGEnsembleFirstEstimator
        if not slow and "chunk" in v:
            kw["chunk_size"] = v["chunk"]
        if "jobs" in v:
            kw["n_jobs"] = v["jobs"]
        key = repr((slow, sorted(kw.items(), key=repr)))
        est = last.get(key) if v["reuse"] else None
        est = est or cls(**kw)
        last[key] = est
        make = {"OSError": OSError, "MemoryError": MemoryError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt}.get(v.get("exc"))
        before = sim.ep_faults["parallel_job_fails"]
        with jobs.JobControl(sim, perm=v.get("perm", [0]), fail=v.get("fail"), make=lambda: make("simulated job failure")):
            xa, ya = layout(x, v["layout"]), layout(y, v["layout"])
            if sc["via"] == "fit":
                o = call(lambda: (est.fit(xa, ya), est.get_predictions())[1])
            else:
                o = call(est.estimate, xa, ya)
        failed = sim.ep_faults["parallel_job_fails"] > before
        sim.event(i, v["k"], o.ok, failed)
        if failed:
            sim.check(not o.ok, "job-failure-hidden", lambda: f"a parallel job failed but the fit {o!r}; variant {v}")
            sim.probe("job_failure_surfaced")
            continue
        sim.check(o.ok, "variant-fails", lambda: f"variant {v} {o!r}")
        if sc["via"] == "fit":
            got = o.value
            bad = set(got) != set(want) or any(not abs(got[k] - want[k]) <= 1e-9 for k in want)
            sim.check(not bad, "differs", lambda: f"variant {v}: predictions {got}, with the default chunks and one job {want}")
        else:
            sim.check(abs(float(o.value) - want_est) <= 1e-9, "differs", lambda: f"variant {v}: estimate {o.value!r}, with the default chunks and one job {want_est!r}")
        sim.probe("compared_" + v["k"])
