"""P15: neural estimators train on the training split only, with intact pairs."""
import numpy as np

from sim.props import neural
from sim.props.common import call, g_where

TIERS = {"quick": {"sessions": 8, "episodes": 45, "timeout": 500}, "thorough": {"sessions": 32, "episodes": 500, "timeout": 1500}}
LISTS = ("ops",)
MIN_LEN = {"ops": 1}
OPTIONAL = ("fault",)
INFO = {
    "rule": "Each run: 1-3 trainings on one estimator object with data whose points are recognisable. The objective (NeuralEstimatorBase) "
            "or every call of the critic (MINE, InfoNCE, NWJ, Donsker-Varadhan, both memory backends) reports the points it is "
            "evaluated on, the weights it holds and whether it is being differentiated; sizes, dimensions, splits, batch sizes, seeds and "
            "standardisation vary; earlier trainings on the object may be interrupted at any line. From the recorded history the training "
            "and test parts are reconstructed and compared, and test values are recomputed in NumPy from the recorded weights and points.",
    "real": "all neural estimators with their objectives, training loops, splits and batch sampling; scikit-learn split, JAX",
    "stub": "objective values of NeuralEstimatorBase; eager instead of compiled execution",
    "assumptions": ["the training part may be rounded up or down to a whole number of points"],
}


def gen(rng, session, i, tier):
    part = rng.weighted([("base", 4), ("mine", 3), ("real", 3)])
    sc = {"part": part, "every": rng.pick([1, 1, 2, 3]), "max": rng.log_int(2, 12 if part == "base" else 6), "split": rng.pick([None, 0.5, 0.5, 0.3, 0.8, 0.25]),
          "standardize": rng.chance(0.5), "seed": rng.randrange(10**4), "dx": rng.randrange(1, 4), "dy": rng.randrange(1, 4), "ops": []}
    if part == "real":
        sc["cls"] = rng.pick(["InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator"])
        sc["backend"] = rng.pick(["quadratic", "linear"])
        sc["max"] = rng.randrange(2, 5)
    lo, hi = (10, 40) if part == "base" else (9, 22) if part == "mine" else (8, 14)
    for _ in range(rng.pick([1, 1, 2, 3]) if part == "base" else 1):
        n = rng.randrange(lo, hi)
        if rng.chance(0.06):
            n = rng.pick([280, 530, 700, 1100]) if part == "base" else rng.pick([140, 300]) if part == "mine" else 34
        op = {"n": n, "dseed": rng.randrange(10**6)}
        if rng.chance(0.15):
            op["fault"] = g_where(rng)
        sc["ops"].append(op)
    small = min(op["n"] for op in sc["ops"])
    m = small if sc["split"] is None else max(1, int(sc["split"] * small))
    sc["batch"] = rng.pick([max(2, m // 2), max(2, m // 2), max(2, m // 3), m, max(2, m - 1)])
    if part == "base":
        sc["test_formula"] = rng.chance(0.8)
    return sc


class Recorder:
    def __init__(self):
        self.rows = []          # (group, differentiated, fingerprint, x, y)
        self.group = 0
        self.weights = {}       # fingerprint -> weights of that moment


def data(sc, op):
    """Points that can be told apart by every coordinate of x and of y."""
    rng = np.random.default_rng(op["dseed"])
    n = op["n"]
    base = rng.permutation(n).astype(float)
    x = np.stack([base * (k + 1) + 0.25 * k for k in range(sc["dx"])], axis=1)
    other = rng.permutation(n).astype(float)
    y = np.stack([other * (k + 1) - 3.0 * k for k in range(sc["dy"])], axis=1)
    return x, y


def scaled(a, standardize):
    return (a - a.mean(axis=0)) / a.std(axis=0) if standardize else a


class Decoder:
    def __init__(self, sim, ref, name, what):
        self.sim, self.ref, self.name, self.what = sim, ref, name, what
        d = np.abs(ref[:, None, :] - ref[None, :, :]).max(axis=2)
        np.fill_diagonal(d, np.inf)
        self.eps = d.min() / 20

    def __call__(self, v):
        v = np.asarray(v, dtype=float).ravel()
        self.sim.check(v.shape == (self.ref.shape[1],), "shape", lambda: f"{self.what}: a point of {self.name} has shape {v.shape}")
        d = np.abs(self.ref - v).max(axis=1)
        i = int(np.argmin(d))
        self.sim.check(d[i] < self.eps, "foreign-point", lambda: f"{self.what}: evaluated at {self.name}={v.tolist()}, which is not a point of the "
                       f"{'standardised ' if self.name else ''}data (nearest {self.ref[i].tolist()})")
        return i


def build(sc, rec):
    import jax
    import jax.numpy as jnp
    import bmi.estimators.neural as N
    kw = dict(batch_size=sc["batch"], max_n_steps=sc["max"], train_test_split=sc["split"], test_every_n_steps=sc["every"],
              standardize=sc["standardize"], verbose=False, seed=sc["seed"])
    if sc["part"] == "mine":
        return N.MINEEstimator(hidden_layers=(3,), learning_rate=0.05, **kw)
    if sc["part"] == "real":
        return getattr(N, sc["cls"])(hidden_layers=(3,), learning_rate=0.05, _train_backend=sc["backend"], **kw)
    cls = neural.critic_class()

    def formula(kind):
        def f(critic, xs, ys):
            rec.group += 1
            g = rec.group
            diff = isinstance(critic.w, jax.core.Tracer)

            def note(x, y, w):
                x, y = np.asarray(x), np.asarray(y)
                rec.rows.append((g, kind if kind != "both" else diff, float(w), x.copy(), y.copy()))
            jax.debug.callback(note, xs, ys, jax.lax.stop_gradient(critic.w))
            return 0.01 * jax.lax.stop_gradient(critic.w) + critic.lean()
        return f
    both = not sc["test_formula"]
    return N.NeuralEstimatorBase(mi_formula=formula("both" if both else True), mi_formula_name="spy", critic_factory=lambda key, dx, dy: cls(jnp.asarray(0.0), 0.1),
                                 mi_formula_test=None if both else formula(False), learning_rate=0.1, **kw)


class Spy:
    """Every call of the critic network reports its points and weights."""

    def __init__(self, rec):
        self.rec = rec

    def __enter__(self):
        import jax
        import jax.numpy as jnp
        from bmi.estimators.neural._critics import MLP
        self.cls, self.orig = MLP, MLP.__call__
        rec, orig = self.rec, self.orig

        def spy(critic, x, y):
            rec.group += 1
            g = rec.group
            leaves = jax.tree_util.tree_leaves(critic)
            diff = any(isinstance(v, jax.core.Tracer) for v in leaves)
            mark = sum(jnp.sum(jax.lax.stop_gradient(v)) + jnp.sum(jnp.abs(jax.lax.stop_gradient(v))) * 0.37 for v in leaves)
            if not diff:
                rec.weights[float(mark)] = [(np.asarray(l.weight, dtype=float), np.asarray(l.bias, dtype=float)) for l in critic.layers]

            def note(x, y, m):
                rec.rows.append((g, diff, float(m), np.array(x), np.array(y)))
            jax.debug.callback(note, x, y, mark)
            return orig(critic, x, y)
        MLP.__call__ = spy
        return self

    def __exit__(self, *a):
        self.cls.__call__ = self.orig


def run(sc, sim):
    from sim import mon
    rec = Recorder()
    est = build(sc, rec)
    sim.nontrivial = len(sc["ops"]) > 1 or bool(sc["ops"][0].get("fault"))
    for i, op in enumerate(sc["ops"]):
        what = f"training {i}"
        x, y = data(sc, op)
        with neural.eager():
            if op.get("fault"):
                total = mon.count_steps(lambda: build(sc, Recorder()).estimate_with_info(x, y))
                c = mon.Injector(sim, mon.place(op["fault"], total), KeyboardInterrupt, "raise_KeyboardInterrupt")
                with mon.Controlled(c):
                    o = call(est.estimate_with_info, x, y)
                if not o.ok:
                    sim.check(isinstance(o.exc, KeyboardInterrupt), "training-fails", lambda: f"{what} {o!r}")
                    # the same data again, undisturbed
            rec.rows.clear()
            rec.weights.clear()
            if sc["part"] == "base":
                o = call(est.estimate_with_info, x, y)
            else:
                with Spy(rec):
                    o = call(est.estimate_with_info, x, y)
        if not o.ok:
            sim.fail("training-fails", f"{what} {o!r}")
        info = o.value.additional_information
        if info.get("batch_size_larger_than_train"):
            m = op["n"] if sc["split"] is None else sc["split"] * op["n"]
            sim.check(sc["batch"] > m - 1, "refused", lambda: f"{what}: refused batch of {sc['batch']} from {m}")
            continue
        judge(sc, sim, rec, op, x, y, o.value, what)


def judge(sc, sim, rec, op, x, y, result, what):
    n = op["n"]
    sx, sy = scaled(x, sc["standardize"]), scaled(y, sc["standardize"])
    dx, dy = Decoder(sim, sx, "x", what), Decoder(sim, sy, "y", what)
    # evaluations: lists of (group, differentiated, mark, ids of x, ids of y)
    groups = {}
    for g, diff, mark, a, b in rec.rows:
        e = groups.setdefault(g, (diff, mark, [], []))
        if sc["part"] == "base":
            sim.check(len(a) == len(b), "pairs", lambda: f"{what}: objective called with {len(a)} x and {len(b)} y")
            e[2].extend(dx(v) for v in a)
            e[3].extend(dy(v) for v in b)
        else:
            e[2].append(dx(a))
            e[3].append(dy(b))
    evals = list(groups.values())
    info = result.additional_information
    steps, hist = info["n_training_steps"], info["test_history"]
    train = [e for e in evals if e[0]]
    tests = [e for e in evals if not e[0]]
    sim.event("training", sc["part"], n, steps, len(hist), sorted({i for e in tests for i in e[2]}))
    # --- the test part
    tx, ty = {i for e in tests for i in e[2]}, {i for e in tests for i in e[3]}
    sim.check(tx == ty, "pairs", lambda: f"{what}: the x tested are {sorted(tx)}, the y are {sorted(ty)}")
    sim.check(bool(hist) == bool(tests), "test-evaluations", lambda: f"{what}: {len(hist)} test values, {len(tests)} evaluations")
    if hist:
        if sc["split"] is None:
            sim.check(tx == set(range(n)), "whole-data", lambda: f"{what}: without a split only {sorted(tx)} are tested")
        else:
            sim.check(abs((n - len(tx)) - sc["split"] * n) < 1, "proportion", lambda: f"{what}: {n - len(tx)} of {n} points are left for training, split {sc['split']}")
        for e in tests:
            sim.check(set(e[2]) <= tx and set(e[3]) <= tx, "test-part", "unreachable")
    if sc["part"] == "base":
        for e in tests:
            sim.check(e[2] == e[3], "pairs", lambda: f"{what}: tested pairs {list(zip(e[2], e[3]))}")
            sim.check(len(e[2]) == len(tx) and set(e[2]) == tx, "test-part", lambda: f"{what}: one test evaluation used {sorted(e[2])}, all of them {sorted(tx)}")
        sim.check(len(tests) == len(hist), "test-evaluations", lambda: f"{what}: {len(hist)} test values, {len(tests)} evaluations")
    else:
        by_mark = {}
        for e in tests:
            by_mark.setdefault(e[1], []).append(e)
        for mark, es in by_mark.items():
            sx_, sy_ = {i for e in es for i in e[2]}, {i for e in es for i in e[3]}
            sim.check(sx_ == tx and sy_ == tx, "test-part", lambda: f"{what}: one test evaluation used x {sorted(sx_)} and y {sorted(sy_)}, all of them {sorted(tx)}")
        values(sc, sim, rec, sx, sy, by_mark, hist, tx, what)
    # --- the batches
    forbidden = set() if sc["split"] is None else tx
    used = set()
    batches = {}
    for e in train:
        batches.setdefault(e[1], []).append(e)
    if sc["part"] == "base":
        sim.check(len(train) == steps, "steps", lambda: f"{what}: {len(train)} gradients, {steps} steps reported")
    else:
        # a critic whose gradient is zero stays as it is: several steps at the same critic
        size = {m: sum(len(e[2]) for e in es) for m, es in batches.items()}
        per_step = sum(size.values()) / max(1, steps)
        sim.check(len(batches) == steps or len(batches) < steps and all(v % per_step == 0 for v in size.values()), "steps",
                  lambda: f"{what}: gradients at {len(batches)} different critics, {steps} steps reported")
    all_fixed = []
    for mark, es in batches.items():
        bx, by = {i for e in es for i in e[2]}, [i for e in es for i in e[3]]
        used |= bx | set(by)
        leak = (bx | set(by)) & forbidden
        sim.check(not leak, "leak", lambda: f"{what}: a gradient was computed on test points {sorted(leak)}")
        if sc["part"] != "base" and len(batches) < steps and size[mark] != per_step:
            sim.probe("several_steps_at_one_critic")
            continue
        sim.check(len(bx) == sc["batch"], "batch-size", lambda: f"{what}: a batch holds {len(bx)} different points, configured {sc['batch']}")
        if sc["part"] == "base":
            for e in es:
                sim.check(len(e[2]) == sc["batch"] and e[2] == e[3], "pairs", lambda: f"{what}: batch pairs {list(zip(e[2], e[3]))}")
        elif sc["part"] == "mine":
            paired = [e for e in es if e[2] == e[3]]
            for e in es:
                sim.check(len(e[2]) == sc["batch"] == len(set(e[2])) == len(set(e[3])), "batch-size", lambda: f"{what}: MINE batch x {e[2]}, y {e[3]}, configured {sc['batch']}")
            sim.check(paired, "pairs", lambda: f"{what}: no evaluation of a MINE step has intact pairs: {[list(zip(e[2], e[3])) for e in es]}")
            all_fixed.append(len(paired) == len(es))
        else:
            sim.check(set(by) == bx, "pairs", lambda: f"{what}: batch with x of points {sorted(bx)} and y of points {sorted(set(by))}")
    if sc["part"] == "mine" and sc["batch"] >= 6 and steps >= 3:
        sim.check(not all(all_fixed), "unpaired", lambda: f"{what}: the unpaired part was paired in all {steps} steps")
    m = n if sc["split"] is None else (n - len(tx) if hist else None)
    if m:
        # the training part is used as a whole: a point that no batch ever holds is (nearly) impossible
        miss = m * (1 - sc["batch"] / m) ** steps
        if miss < 1e-9:
            want = set(range(n)) - forbidden
            sim.check(used == want, "partition", lambda: f"{what}: points {sorted(want - used)} are in neither part")
            sim.probe("whole_training_part_seen")
    sim.probe("split_compared_" + sc["part"])


def forward(layers, a, b):
    z = np.concatenate([a, b])
    for w, c in layers[:-1]:
        z = np.maximum(w @ z + c, 0)
    w, c = layers[-1]
    return float((w @ z + c)[0])


def values(sc, sim, rec, sx, sy, by_mark, hist, tx, what):
    """Recompute every test value from the weights of that moment."""
    order = list(by_mark)
    sim.check(len(order) == len(hist), "test-evaluations", lambda: f"{what}: test evaluations of {len(order)} critics, {len(hist)} values")
    ids = sorted(tx)
    for mark, (step, v) in zip(order, hist):
        layers = rec.weights.get(mark)
        if layers is None or not np.isfinite(v):
            continue
        f = np.array([[forward(layers, sx[i], sy[j]) for j in ids] for i in ids])
        k = len(ids)
        diag = np.diag(f)
        off = f[~np.eye(k, dtype=bool)]
        if sc["part"] == "mine":
            cands = []
            for e in by_mark[mark]:
                if e[2] != e[3] or len(by_mark[mark]) == 1:
                    sim.check(sorted(e[2]) == ids and sorted(e[3]) == ids, "test-part", lambda: f"{what}: MINE tests x {sorted(e[2])} against y {sorted(e[3])}, test part {ids}")
                    u = np.array([f[ids.index(i), ids.index(j)] for i, j in zip(e[2], e[3])])
                    cands.append(diag.mean() - lme(u))
            if not cands:
                cands = [diag.mean() - lme(diag)]
        elif sc["cls"] == "InfoNCEEstimator":
            cands = [np.mean(diag - np.array([lme(r) for r in f]))]
        elif sc["cls"] == "DonskerVaradhanEstimator":
            cands = [diag.mean() - lme(off)]
        else:
            cands = [diag.mean() - np.exp(lme(off - 1))]
        sim.check(any(abs(v - c) <= 2e-3 * max(1.0, abs(c), np.abs(f).max()) for c in cands), "test-value",
                  lambda: f"{what}: test value {v} after step {step}, the critic of that moment gives {cands} on the test part")
        sim.probe("test_value_recomputed")


def lme(u):
    m = u.max()
    return float(m + np.log(np.mean(np.exp(u - m))))
