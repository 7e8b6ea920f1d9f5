"""P12: predictions of the nearest-neighbour ensemble always belong to one completed fit."""
import numpy as np

from sim.props.common import call, g_where, eqf, pair

TIERS = {"quick": {"sessions": 8, "episodes": 160}, "thorough": {"sessions": 32, "episodes": 1000, "timeout": 1500}}
LISTS = ("ops", "preempts", "hot")
MIN_LEN = {"ops": 1}
OPTIONAL = ("inject", "jobfail")
INFO = {
    "rule": "Each run: 2-9 operations (fit, estimate, read predictions, edit a dictionary handed out) on one ensemble estimator "
            "(fast or slow variant, random neighbourhoods, metrics, chunking); fits meet rejected data, failing distance "
            "computations or parallel jobs, and interrupts or allocation failures at any line or bytecode; or a fit in one "
            "simulated thread while other threads read.",
    "real": "bmi.estimators.KSGEnsembleFirstEstimator and the slow variant, scikit-learn distances",
    "stub": "joblib's scheduler, thread scheduling, delivery of interrupts",
    "assumptions": ["an interrupt that arrives when everything is computed may leave either the old or the new predictions, but in full"],
}


def g_cfg(rng):
    ks = rng.pick([[1], [2, 3], [3, 5, 7], [1, 2, 3, 4, 5], [5, 2], [4]])
    kw = {"neighborhoods": ks, "metric_x": rng.pick(["euclidean", "manhattan", "chebyshev"]), "standardize": rng.chance(0.7)}
    if rng.chance(0.4):
        kw["metric_y"] = rng.pick(["euclidean", "manhattan", "chebyshev"])
    cls = rng.pick(["fast", "fast", "slow"])
    kw["n_jobs"] = rng.pick([1, 1, 2, 3])
    if cls == "fast":
        kw["chunk_size"] = rng.pick([1, 3, 7, 10, 50])
    return {"cls": cls, "kw": kw}


def g_data(rng):
    return {"seed": rng.randrange(10**6), "n": rng.log_int(9, 24), "dx": rng.randrange(1, 4), "dy": rng.randrange(1, 4), "rho": rng.pick([0.1, 0.6, 0.9])}


def g_inject(rng):
    return g_where(rng)


def gen(rng, session, i, tier):
    cfg = g_cfg(rng)
    if rng.chance(0.3):
        return {"cfg": cfg, "before": g_data(rng) if rng.chance(0.7) else None, "data": g_data(rng), "readers": rng.randrange(1, 3), "reads": rng.randrange(2, 6),
                "hot": [[rng.randrange(1), rng.frac(), rng.frac(), rng.randrange(3)] for _ in range(rng.randrange(0, 8))],
                "preempts": sorted([round(rng.frac(), 5), rng.randrange(3)] for _ in range(rng.log_int(1, 10))) + [[round(1 - 0.04 * rng.frac(), 6), rng.randrange(3)] for _ in range(2)],
                "inject": dict(g_inject(rng), exc="KeyboardInterrupt") if rng.chance(0.3) else None, "ops": [1]}
    ops = []
    for _ in range(rng.log_int(2, 9)):
        k = rng.weighted([("fit", 5), ("estimate", 3), ("read", 2), ("edit", 1)])
        op = {"op": k}
        if k in ("fit", "estimate"):
            op["data"] = g_data(rng)
            f = rng.weighted([("none", 4), ("inject", 5), ("bad", 3), ("job", 2)])
            if f == "inject":
                op["inject"] = dict(g_inject(rng), exc=rng.pick(["KeyboardInterrupt", "MemoryError", "SimCrash", "ValueError"]), grain=rng.pick(["line", "line", "instr"]))
            elif f == "bad":
                op["bad"] = rng.pick(["few", "mismatch", "nan", "inf", "empty", "oned", "str", "latenan"])
            elif f == "job":
                op["jobfail"] = rng.pick([0, 1, 2, 5, 11, 30])
            op["perm"] = [rng.randrange(5) for _ in range(3)]
        ops.append(op)
    return {"cfg": cfg, "ops": ops + [{"op": "read"}]}


def prepare(sim):
    from sim import jobs
    jobs.install()


def build(cfg):
    from bmi.estimators import KSGEnsembleFirstEstimator
    from bmi.estimators.ksg import KSGEnsembleFirstEstimatorSlow
    return (KSGEnsembleFirstEstimator if cfg["cls"] == "fast" else KSGEnsembleFirstEstimatorSlow)(**cfg["kw"])


def dataset(d):
    return pair(d["seed"], d["n"], d["dx"], d["dy"], d["rho"])


def spoil(x, y, how, ks):
    if how == "few":
        m = max(ks)
        return x[:m], y[:m]
    if how == "mismatch":
        return x[:-1], y
    if how in ("nan", "inf"):
        x = x.copy()
        x[0, 0] = np.nan if how == "nan" else np.inf
        return x, y
    if how == "latenan":
        y = y.copy()
        y[-1, -1] = np.nan
        return x, y
    if how == "empty":
        return x[:0], y[:0]
    if how == "oned":
        return x[:, 0], y[:, 0]
    return [["a"] for _ in range(len(x))], y


def same_pred(a, b):
    return isinstance(a, dict) and list(sorted(a)) == list(sorted(b)) and all(eqf(a[k], b[k]) for k in b)


def reference(sim, cfg, d):
    est = build(cfg)
    est.fit(*dataset(d))
    r = dict(est.get_predictions())
    want = set(cfg["kw"]["neighborhoods"])
    sim.check(set(r) == want, "neighbourhoods", lambda: f"predictions for {sorted(r)}, configured {sorted(want)}")
    return r


def read(sim, est, allowed, what):
    """allowed: list of complete dictionaries, None standing for 'not fitted'."""
    from bmi.estimators.base import EstimatorNotFittedException
    o = call(est.get_predictions)
    if not o.ok:
        sim.check(isinstance(o.exc, EstimatorNotFittedException), "read-fails", lambda: f"reading predictions {o!r}")
        sim.check(None in allowed, "fit-lost", lambda: f"{what}: reading says not fitted although a fit completed before")
        return None
    ok = [a for a in allowed if a is not None and same_pred(o.value, a)]
    sim.check(ok, "foreign-predictions", lambda: f"{what}: predictions {o.value!r} are not those of a completed fit; allowed: {allowed}")
    return o.value


def run(sc, sim):
    from sim import jobs, mon
    from sim.core import SimCrash
    cfg = sc["cfg"]
    if "readers" in sc:
        return threads(sc, sim)
    est = build(cfg)
    sim.nontrivial = len(sc["ops"]) > 1
    allowed = [None]            # what predictions may be now
    handed = []                 # (dictionary handed out, its copy)
    for i, op in enumerate(sc["ops"]):
        what = f"after operation {i} ({op})"
        if op["op"] == "read":
            v = read(sim, est, allowed, what)
            allowed = [next(a for a in allowed if (a is None) == (v is None) and (v is None or same_pred(v, a)))]
            if v is not None:
                handed.append((v, dict(v)))
                sim.probe("predictions_compared")
            continue
        if op["op"] == "edit":
            if handed:
                d, _ = handed.pop()
                d.clear()
                d[99] = -1.0
                read(sim, est, allowed, "after editing a dictionary handed out")
            continue
        x, y = dataset(op["data"])
        ref = None
        bad = op.get("bad")
        if bad:
            x, y = spoil(x, y, bad, cfg["kw"]["neighborhoods"])
        else:
            ref = reference(sim, cfg, op["data"])
        fn = est.fit if op["op"] == "fit" else est.estimate
        inj = op.get("inject")
        fired = False
        asynchronous = False
        ctl = jobs.JobControl(sim, perm=op.get("perm", [0]), fail=op.get("jobfail"), make=lambda: OSError("simulated worker failure"))
        if inj and not bad:
            clone = build(cfg)
            total = mon.count_steps(lambda: (clone.fit if op["op"] == "fit" else clone.estimate)(x, y), inj["grain"])
            make = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash, "ValueError": ValueError}[inj["exc"]]
            c = mon.Injector(sim, mon.place(inj, total), make, "raise_" + inj["exc"])
            with mon.Controlled(c, inj["grain"]):
                o = call(fn, x, y)
            fired = c.fired is not None
            asynchronous = True
            what += f" interrupted at {c.fired}"
            sim.event("injected", c.fired)
        else:
            before = sim.ep_faults["parallel_job_fails"]
            with ctl:
                o = call(fn, x, y)
            fired = sim.ep_faults["parallel_job_fails"] > before
        sim.event(op["op"], i, o.ok, type(o.exc).__name__, fired)
        if o.ok:
            if bad:
                # not every odd input has to be rejected, but then it is a completed fit
                v = call(est.get_predictions)
                sim.check(v.ok and set(v.value) == set(cfg["kw"]["neighborhoods"]), "incomplete", lambda: f"{what}: accepted, but predictions {v!r}")
                allowed = [dict(v.value)]
                continue
            sim.check(not fired or asynchronous, "failure-hidden", lambda: f"{what}: a parallel job failed but the fit returned")
            allowed = [ref]
            if op["op"] == "estimate":
                want = float(np.mean([ref[k] for k in ref]))
                sim.check(abs(float(o.value) - want) <= 1e-12 * max(1, abs(want)), "estimate", lambda: f"{what}: estimate {o.value!r}, mean of its predictions {want!r}")
        else:
            if not fired and not bad:
                sim.fail("fit-fails", f"{what}: an undisturbed fit {o!r}")
            if bad:
                sim.probe("fit_rejected_" + bad)
            if asynchronous and ref is not None:
                allowed = allowed + [ref]
        v = read(sim, est, allowed, what)
        allowed = [next(a for a in allowed if (a is None) == (v is None) and (v is None or same_pred(v, a)))]
        if v is not None:
            handed.append((v, dict(v)))
        for d, copy in handed:
            sim.check(same_pred(d, copy), "handed-out-changed", lambda: f"{what}: a dictionary handed out earlier changed from {copy} to {d}")


def threads(sc, sim):
    from sim import mon
    from sim.sched import Sched
    cfg = sc["cfg"]
    est = build(cfg)
    old = None
    if sc["before"]:
        est.fit(*dataset(sc["before"]))
        old = reference(sim, cfg, sc["before"])
    new = reference(sim, cfg, sc["data"])
    x, y = dataset(sc["data"])
    clone = build(cfg)
    alone = mon.count_steps(lambda: clone.fit(x, y))
    total = alone + sc["readers"] * sc["reads"] * 4
    pre = [[max(1, int(f * total)), t] for f, t in sc["preempts"]]
    s = Sched(sim, pre)
    s.aim(sc.get("hot", []), {0: alone})
    s.spawn(lambda: call(est.fit, x, y))
    logs = [[] for _ in range(sc["readers"])]
    for r in range(sc["readers"]):
        def body(r=r):
            for _ in range(sc["reads"]):
                logs[r].append(call(est.get_predictions))
        s.spawn(body)
    inj = sc.get("inject")
    if inj:
        s.inject[0] = (mon.place(inj, alone), KeyboardInterrupt, "raise_KeyboardInterrupt")
    with mon.Controlled(s):
        res = s.run()
    for _, e in res:
        if e is not None:
            raise e
    fit = res[0][0]
    interrupted = isinstance(fit.exc, KeyboardInterrupt)
    sim.check(fit.ok or interrupted, "fit-fails", lambda: f"a fit with concurrent readers {fit!r}")
    from bmi.estimators.base import EstimatorNotFittedException
    for r, log in enumerate(logs):
        seen_new = False
        for k, o in enumerate(log):
            if not o.ok:
                sim.check(isinstance(o.exc, EstimatorNotFittedException), "read-fails", lambda: f"reading predictions {o!r}")
                sim.check(old is None and not seen_new, "fit-lost", lambda: f"reader {r}, read {k}: not fitted although a fit completed before")
                sim.event("r", r, k, "unfitted")
                continue
            is_new, is_old = same_pred(o.value, new), old is not None and same_pred(o.value, old)
            sim.check(is_new or is_old, "foreign-predictions", lambda: f"reader {r}, read {k}: {o.value} are not predictions of a completed fit (old {old}, new {new})")
            sim.check(is_new or not seen_new or old == new, "went-back", lambda: f"reader {r} saw the new predictions and then the old ones")
            seen_new = seen_new or is_new
            sim.event("r", r, k, is_new)
    sim.probe("concurrent_reads_compared")
    read(sim, est, [new] if fit.ok else [old, new], "after the concurrent fit")
