"""P19: a Bayesian mixture fit is all-or-nothing and uses its declared settings."""
import numpy as np

from sim.props.common import call, g_where, pair

TIERS = {"quick": {"sessions": 8, "episodes": 24}, "thorough": {"sessions": 32, "episodes": 250, "timeout": 1700}}
LISTS = ("ops", "preempts", "hot")
MIN_LEN = {"ops": 1}
OPTIONAL = ("inject",)
INFO = {
    "rule": "Each run: 2-8 operations on one Gaussian-mixture estimator with random settings: fits, posterior and point estimates on data of eight shapes "
            "(some with the same total dimension and another split), reads of distributions and per-draw values, rejected data; the sampler fails or is "
            "interrupted at its start or end, or an interrupt, kill or allocation failure arrives at any line; or a fit runs in one simulated thread while "
            "others read.  Every read is compared with the draws that the sampler produced in the last completed fit, every fit with the declared settings "
            "(read off a trace of the real model), and the whole history is run twice.",
    "real": "GMMEstimator, its NumPyro model (traced), bmi.samplers.bmm, ProductSpace",
    "stub": "NumPyro's NUTS and MCMC (draws are a deterministic function of key, data and settings), thread scheduling",
    "assumptions": ["what the sampler does with the model is NumPyro's business"],
}
DATA = {0: (1, 14, 1, 1), 1: (2, 15, 2, 1), 2: (3, 12, 1, 2), 3: (4, 13, 2, 2), 4: (5, 16, 1, 1), 5: (6, 14, 3, 1), 6: (7, 4, 1, 1), 7: (8, 9, 2, 1)}   # seed, points, dimensions
POINTS = 4


def gen(rng, session, i, tier):
    cfg = {"key": rng.pick([0, 1, 7, 123]), "k": [1, 2, 3][session % 3] if rng.chance(0.85) else rng.pick([1, 2, 3, 5]), "alpha": rng.pick([None, None, 0.3, 1.0, 2.5]), "std": rng.chance(0.6), "warmup": rng.pick([0, 1, 2, 5]),
           "samples": [2, 3, 5, 3][session % 4] if rng.chance(0.85) else rng.pick([2, 3, 5]), "mi_n": [12, 40][session // 4 % 2], "thin": rng.pick([None, 1, 2])}
    if i % 24 == 7 and session % 4 == 1:     # many draws
        cfg.update(samples=rng.pick([105, 120]), thin=rng.pick([None, None, 101]), mi_n=12)
        return {"cfg": cfg, "ops": [{"op": rng.pick(["posterior", "estimate"]), "d": rng.randrange(6), "idx": rng.randrange(100), "n": None, "key": None, "thin": None}]}
    if rng.chance(0.25):
        n = rng.randrange(1, 3)
        return {"cfg": cfg, "before": rng.pick([None, 0, 1, 2, 3, 5]), "data": rng.randrange(6), "readers": [[rng.pick(["dist", "mi"]) for _ in range(rng.randrange(1, 4))] for _ in range(n)],
                "preempts": sorted([round(rng.frac(), 5), rng.randrange(n + 1)] for _ in range(rng.randrange(0, 6))),
                "hot": [[rng.randrange(n + 1), rng.frac(), rng.frac(), rng.randrange(n + 1)] for _ in range(rng.randrange(1, 8))], "ops": [1],
                "inject": g_where(rng, 8) if rng.chance(0.3) else None}
    ops = []
    for _ in range(rng.log_int(2, 8)):
        k = rng.weighted([("fit", 4), ("posterior", 2), ("estimate", 2), ("dist", 3), ("mi", 3), ("bad", 1)])
        op = {"op": k, "d": rng.randrange(8), "idx": rng.randrange(10), "n": rng.pick([None, 10, 25]), "key": rng.pick([None, 3, 9]), "thin": rng.pick([None, None, 1, 2])}
        if k in ("fit", "posterior", "estimate") and rng.chance(0.45):
            op["fail"] = {"stage": rng.pick(["start", "end"]), "exc": rng.pick(["KeyboardInterrupt", "MemoryError", "RuntimeError"])} if rng.chance(0.4) else \
                {**g_where(rng, 12), "exc": rng.pick(["KeyboardInterrupt", "MemoryError", "SimCrash"])}
        ops.append(op)
    return {"cfg": cfg, "ops": ops}


def shrink(sc):
    for k, op in enumerate(sc["ops"]):
        if isinstance(op, dict) and op.get("fail"):
            yield {**sc, "ops": sc["ops"][:k] + [{x: v for x, v in op.items() if x != "fail"}] + sc["ops"][k + 1:]}


def prepare(sim):
    from sim.props import mcmc
    mcmc.install()


def build(c):
    from bmi.estimators.external.gmm import GMMEstimator
    return GMMEstimator(key=c["key"], n_components=c["k"], alpha=c["alpha"], standardize=c["std"], mcmc_num_warmup=c["warmup"], mcmc_num_samples=c["samples"],
                        mi_estimate_num_samples=c["mi_n"], n_thinned_samples=c["thin"])


def declared(c):
    return {"standardize": c["std"], "n_components": c["k"], "alpha": c["alpha"], "mcmc_num_warmup": c["warmup"], "mcmc_num_samples": c["samples"],
            "mi_estimate_num_samples": c["mi_n"], "n_thinned_samples": c["samples"] if c["thin"] is None else c["thin"]}


def logmix(draw, idx, pts, a, b):
    """Log density of coordinates a..b of one draw (plain NumPy)."""
    out = []
    for x in pts:
        terms = []
        for mu, cov, w in zip(draw["mu"][idx], draw["cov"][idx], draw["pi"][idx]):
            m, s = mu[a:b], cov[a:b, a:b]
            r = x[a:b] - m
            terms.append(np.log(w) - 0.5 * (r @ np.linalg.solve(s, r) + np.linalg.slogdet(s)[1] + (b - a) * np.log(2 * np.pi)))
        out.append(np.logaddexp.reduce(terms))
    return np.array(out)


def points(dim):
    return np.linspace(-1.0, 1.5, POINTS)[:, None] * np.ones(dim) + 0.1 * np.arange(dim)


def check_call(sim, c, rec, d, what):
    """One completed run of the sampler against the declared settings."""
    x, y = pair(*DATA[d])
    if c["std"]:
        x, y = ((a - a.mean(axis=0)) / a.std(axis=0) for a in (x, y))
    want = np.hstack([x, y])
    sim.check(rec["data"].shape == want.shape and np.allclose(rec["data"], want, rtol=1e-4, atol=1e-5), "settings",
              lambda: f"{what}: the model got data {rec['data'][:2].tolist()}, {'standardised' if c['std'] else 'raw'} data are {want[:2].tolist()}")
    conc = c["alpha"] if c["alpha"] is not None else 1.0 / c["k"]
    sim.check(rec["K"] == c["k"], "settings", lambda: f"{what}: {rec['K']} components, declared {c['k']}")
    sim.check(np.allclose(rec["conc"], conc, rtol=1e-5), "settings", lambda: f"{what}: sparsity (alpha) {rec['conc'].tolist()}, declared {c['alpha']}")
    sim.check(rec["warmup"] == c["warmup"] and rec["samples"] == c["samples"], "settings",
              lambda: f"{what}: {rec['warmup']} warm-up steps and {rec['samples']} draws, declared {c['warmup']} and {c['samples']}")


def describes(dist, fit, idx):
    """None, or how the distribution differs from draw idx of this fit."""
    rec, dx, dy = fit
    if (int(dist.dim_x), int(dist.dim_y)) != (dx, dy):
        return f"dimensions {dist.dim_x}, {dist.dim_y} and not {dx}, {dy}"
    import jax.numpy as jnp
    p = points(dx + dy)
    for name, a, b in (("dist_joint", 0, dx + dy), ("dist_x", 0, dx), ("dist_y", dx, dx + dy)):
        o = call(lambda: np.asarray(getattr(dist, name).log_prob(jnp.asarray(p[:, a:b])), np.float64))
        if not o.ok:
            return f"{name} {o!r}"
        want = logmix(rec["draws"], idx, p, a, b)
        if o.value.shape != want.shape or not np.allclose(o.value, want, rtol=2e-3, atol=2e-3):
            return f"{name} has log density {o.value.tolist()} and not {want.tolist()}"
    return None


def which(dist, fit, samples):
    """The number of the draw that this distribution was built from."""
    import jax.numpy as jnp
    rec, dx, dy = fit
    p = points(dx + dy)
    got = np.asarray(dist.dist_joint.log_prob(jnp.asarray(p)), np.float64)
    bad = [np.abs(got - logmix(rec["draws"], i, p, 0, dx + dy)).max() for i in range(samples)]
    return int(np.argmin(bad)) if min(bad) <= 5e-3 else None


def own_mi(fit, idx, n, key):
    """The Monte Carlo value of this draw with this key, from a distribution built here."""
    import jax
    import jax.numpy as jnp
    from bmi.samplers import bmm
    rec, dx, dy = fit
    d = rec["draws"]
    comps = [bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, mean=jnp.asarray(m, jnp.float32), covariance=jnp.asarray(s, jnp.float32)) for m, s in zip(d["mu"][idx], d["cov"][idx])]
    dist = bmm.mixture(proportions=jnp.asarray(d["pi"][idx], jnp.float32), components=comps)
    mi, err = bmm.monte_carlo_mi_estimate(key=jax.random.PRNGKey(key), dist=dist, n=n)
    return float(mi), float(err)


class Sizes:
    """Notes the sizes of the Monte Carlo estimates (where they go through the public function)."""

    def __enter__(self):
        from bmi.samplers import bmm
        self.real, self.n, self.dists = bmm.monte_carlo_mi_estimate, [], []

        def noted(*a, **k):
            self.n.append(int(k["n"] if "n" in k else a[2]))
            self.dists.append(k["dist"] if "dist" in k else a[1])
            return self.real(*a, **k)
        bmm.monte_carlo_mi_estimate = noted
        return self

    def __exit__(self, *a):
        from bmi.samplers import bmm
        bmm.monte_carlo_mi_estimate = self.real


def history(sc, sim, first):
    """The operations on a new object; returns all values.  ``first`` carries the oracle checks."""
    import jax
    from sim import mon
    from sim.core import SimCrash
    from sim.props import mcmc
    c = sc["cfg"]
    est = build(c)
    cur = []            # fits the accessors may describe (None: not fitted)
    cur.append(None)
    values = []
    totals = sim.shared.setdefault("p19", {})
    for n, op in enumerate(sc["ops"]):
        k, what = op["op"], f"operation {n} {op}"
        x, y = pair(*DATA[op["d"]])
        dx, dy = x.shape[1], y.shape[1]
        thin = op["thin"] if op["thin"] is not None and op["thin"] <= c["samples"] else None
        if c["thin"] is not None and c["thin"] > c["samples"] and thin is None:
            thin = 1
        fn = {"fit": lambda: est.run_mcmc(x, y), "posterior": lambda: est.get_posterior_mi(x, y, n_thinned_samples=thin),
              "estimate": lambda: est.estimate(x, y, n_thinned_samples=thin)}.get(k)
        if fn:
            mcmc.CALLS.clear()
            f = op.get("fail")
            fired = []
            inj = None
            if f and "stage" in f:
                def fail(stage, f=f, fired=fired):
                    if stage == f["stage"]:
                        fired.append(stage)
                        sim.fault("sampler_" + f["exc"])
                        raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}[f["exc"]]("sampler")
                mcmc.MCMC.fail = fail
            elif f:
                key = (repr(c), k, op["d"], thin)
                if key not in totals:
                    other = build(c)
                    totals[key] = mon.count_steps({"fit": lambda: other.run_mcmc(x, y), "posterior": lambda: other.get_posterior_mi(x, y, n_thinned_samples=thin),
                                                   "estimate": lambda: other.estimate(x, y, n_thinned_samples=thin)}[k])
                    mcmc.CALLS.clear()
                cls = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash}[f["exc"]]
                inj = mon.Injector(sim, mon.place(f, totals[key]), cls, "raise_" + f["exc"])
            try:
                with Sizes() as sizes:
                    if inj:
                        with mon.Controlled(inj):
                            o = call(fn)
                    else:
                        o = call(fn)
            finally:
                mcmc.MCMC.fail = None
            hit = fired or inj and inj.fired
            sim.event(n, k, o.ok, bool(hit))
            done = [(r, dx, dy) for r in mcmc.CALLS]
            if first:
                sim.check(o.ok or hit, "operation-fails", lambda: f"{what}: {o!r}")
                for r in mcmc.CALLS:
                    check_call(sim, c, r, op["d"], what)
            if o.ok:
                if first:
                    sim.check(len(done) == 1, "sampler-runs", lambda: f"{what}: the sampler ran {len(done)} times in one fit")
                cur = done[-1:]
                sim.probe("fit_completed")
                if k != "fit":
                    v = np.asarray(o.value, np.float64)
                    values.append(v)
                    if first:
                        check_posterior(sim, c, k, v, done[-1], thin, sizes, what)
                else:
                    values.append("fit")
            else:
                values.append(type(o.exc).__name__)
                if done:
                    cur = cur + done
                    sim.probe("fit_interrupted_after_the_sampler")
                else:
                    sim.probe("fit_failed")
        elif k == "bad":
            bad = [(x[:3], y[:5]), (x[:, 0], y), (np.zeros((3, 2, 2)), y), ("data", y)][op["idx"] % 4]
            mcmc.CALLS.clear()
            o = call(est.run_mcmc, *bad)
            sim.event(n, "bad", o.ok)
            if o.ok and mcmc.CALLS:
                return None         # accepted: nothing to say about it
            if first:
                sim.check(not o.ok, "bad-data-accepted", lambda: f"{what}: data of shapes {[np.shape(b) for b in bad]} accepted without a fit")
            values.append("bad")
        else:
            idx = op["idx"] % c["samples"]
            cur = read(sim, est, c, cur, k, idx, op, first, what, values)
        if first:
            o = call(lambda: est.parameters().dict())
            sim.check(o.ok and o.value == declared(c), "parameters", lambda: f"{what}: parameters() {o!r}, declared {declared(c)}")
    # whatever happened: a read of the end state, and a fit that works
    if first:
        cur = read(sim, est, c, cur, "dist", 0, {"n": None, "key": None}, first, "at the end", values)
        x, y = pair(*DATA[2])
        mcmc.CALLS.clear()
        o = call(est.run_mcmc, x, y)
        sim.check(o.ok and len(mcmc.CALLS) == 1, "operation-fails", lambda: f"an undisturbed fit at the end {o!r}")
        check_call(sim, c, mcmc.CALLS[0], 2, "the last fit")
        read(sim, est, c, [(mcmc.CALLS[0], 1, 2)], "dist", c["samples"] - 1, {"n": None, "key": None}, first, "after the last fit", values)
    return values


def read(sim, est, c, cur, k, idx, op, first, what, values):
    import jax
    if k == "dist":
        o = call(est.get_bmm_distribution, idx)
        values.append("dist" if o.ok else "raised")
    else:
        key = None if op["key"] is None else jax.random.PRNGKey(op["key"])
        with Sizes() as sizes:
            o = call(est.get_sample_mi, idx, mc_samples=op["n"], key=key)
        values.append(np.asarray(o.value, np.float64) if o.ok else "raised")
    sim.event("read", k, o.ok)
    if not first:
        return cur
    if not o.ok:
        sim.check(None in cur, "read-fails", lambda: f"{what}: {o!r}, although a fit was completed")
        sim.probe("read_before_any_fit")
        return [None]
    fits = [f for f in cur if f is not None]
    sim.check(fits, "reads-without-fit", lambda: f"{what}: {o!r} before any fit was completed")
    if k == "dist":
        diffs = [describes(o.value, f, idx) for f in fits]
        ok = [f for f, d in zip(fits, diffs) if d is None]
        sim.check(ok, "foreign-posterior", lambda: f"{what}: draw {idx} is not that of the last completed fit: {diffs}")
    else:
        n = op["n"] or c["mi_n"]
        if op["key"] is not None:
            want = [own_mi(f, idx, n, op["key"])[0] for f in fits]
            ok = [f for f, w in zip(fits, want) if abs(float(o.value) - w) <= 1e-3 * max(1, abs(w))]
            sim.check(ok, "foreign-posterior", lambda: f"{what}: {float(o.value)} for draw {idx} with an explicit key, the draws of the last completed fit give {want}")
        else:
            ok = fits if len(fits) == 1 else None
            if ok:
                m, e = own_mi(ok[0], idx, 1500, 0)
                sim.check(abs(float(o.value) - m) <= 12 * e * (1500 / n) ** 0.5 + 0.02, "foreign-posterior", lambda: f"{what}: {float(o.value)} for draw {idx}, it has {m} +- {e}")
        if sizes.n:
            sim.check(sizes.n == [n], "settings", lambda: f"{what}: Monte Carlo estimates of sizes {sizes.n}, declared {n}")
        if ok is None:
            return cur
    sim.probe("reads_compared")
    return ok


def check_posterior(sim, c, k, v, fit, thin, sizes, what):
    n = declared(c)["n_thinned_samples"] if thin is None else thin
    sim.check(np.all(np.isfinite(v)), "estimate", lambda: f"{what}: {v}")
    if k == "posterior":
        sim.check(v.shape == (n,), "settings", lambda: f"{what}: {v.shape} values, {n} thinned draws asked for")
    else:
        sim.check(v.ndim == 0, "estimate", lambda: f"{what}: estimate of shape {v.shape}")
    if sizes.n:
        sim.check(sizes.n == [c["mi_n"]] * n, "settings", lambda: f"{what}: Monte Carlo estimates of sizes {sizes.n}, declared {n} of {c['mi_n']}")
        used = [which(d, fit, c["samples"]) for d in sizes.dists]
        sim.check(None not in used, "foreign-posterior", lambda: f"{what}: estimated for draws {used} (None: not of this fit)")
        sim.check(len(set(used)) == len(used), "settings", lambda: f"{what}: {n} thinned draws are {used}")
        sim.probe("thinned_draws_identified")
    all_ = [own_mi(fit, i, 600, 1) for i in range(c["samples"])]
    lo = min(m - 12 * e * (600 / c["mi_n"]) ** 0.5 for m, e in all_) - 0.02
    hi = max(m + 12 * e * (600 / c["mi_n"]) ** 0.5 for m, e in all_) + 0.02
    sim.check(lo <= v.min() and v.max() <= hi, "estimate", lambda: f"{what}: {v}, but the draws of this fit have {all_}")
    sim.probe("posterior_compared")


def run(sc, sim):
    sim.nontrivial = True
    if "readers" in sc:
        return threads(sc, sim)
    a = history(sc, sim, True)
    if a is None:
        return
    b = history(sc, sim, False)
    for n, (u, v) in enumerate(zip(a, b)):
        same = u == v if isinstance(u, str) or isinstance(v, str) else u.shape == v.shape and np.allclose(u, v, rtol=1e-4, atol=1e-5)
        sim.check(same, "not-repeatable", lambda: f"value {n} of two objects with the same key and call history: {u!r} and {v!r}")


def threads(sc, sim):
    from sim import mon
    from sim.props import mcmc
    from sim.sched import Sched
    c = sc["cfg"]
    est = build(c)
    old = None
    if sc["before"] is not None:
        x, y = pair(*DATA[sc["before"]])
        mcmc.CALLS.clear()
        est.run_mcmc(x, y)
        old = (mcmc.CALLS[-1], x.shape[1], y.shape[1])
    x, y = pair(*DATA[sc["data"]])
    other = build(c)
    alone = mon.count_steps(lambda: other.run_mcmc(x, y))
    reading = mon.count_steps(lambda: other.get_bmm_distribution(0))
    total = alone + reading * sum(len(r) for r in sc["readers"])
    mcmc.CALLS.clear()
    s = Sched(sim, [[max(1, int(f * total)), t] for f, t in sc["preempts"]])
    s.aim(sc["hot"], {0: alone, **{w + 1: reading for w in range(len(sc["readers"]))}})
    out = []
    logs = [[] for _ in sc["readers"]]
    s.spawn(lambda: out.append(call(est.run_mcmc, x, y)))
    for w, r in enumerate(sc["readers"]):
        def body(w=w, r=r):
            for k in r:
                if k == "dist":
                    logs[w].append((k, call(est.get_bmm_distribution, 0)))
                else:
                    logs[w].append((k, call(est.get_sample_mi, 1, 20, jkey(5))))
        s.spawn(body)
    if sc.get("inject"):
        s.inject[0] = (mon.place(sc["inject"], alone), KeyboardInterrupt, "raise_KeyboardInterrupt")
    with mon.Controlled(s):
        res = s.run()
    for _, e in res:
        if e is not None:
            raise e
    o = out[0]
    sim.check(o.ok or sc.get("inject"), "operation-fails", lambda: f"a fit while others read {o!r}")
    new = (mcmc.CALLS[0], x.shape[1], y.shape[1]) if mcmc.CALLS else None
    fits = [f for f in (old, new) if f is not None]
    for w, log in enumerate(logs):
        seen = False
        for k, r in log:
            if not r.ok:
                sim.check(old is None and not seen, "read-fails", lambda: f"reader {w}: {r!r} during a fit (before: {sc['before']})")
                continue
            if k == "dist":
                bad = [describes(r.value, f, 0) for f in fits]
                ok = [f for f, b in zip(fits, bad) if b is None]
            else:
                bad = [own_mi(f, 1, 20, 5)[0] for f in fits]
                ok = [f for f, b in zip(fits, bad) if abs(float(r.value) - b) <= 1e-3 * max(1, abs(b))]
            sim.check(ok, "foreign-posterior", lambda: f"reader {w}: {k} during a fit describes neither the previous nor the new fit: {r!r}, {bad}")
            seen = True
            sim.probe("concurrent_reads_compared")
    final = [new] if o.ok else [old, new] if new else [old]
    read(sim, est, c, final, "dist", 0, {"n": None, "key": None}, True, "after a fit with concurrent readers", [])


def jkey(n):
    import jax
    return jax.random.PRNGKey(n)
