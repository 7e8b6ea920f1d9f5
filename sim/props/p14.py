"""P14: neural training follows its declared protocol."""
import numpy as np

from sim.props import neural
from sim.props.common import call, g_where

TIERS = {"quick": {"sessions": 8, "episodes": 80, "timeout": 500}, "thorough": {"sessions": 32, "episodes": 900, "timeout": 1500}}
LISTS = ("ops",)
MIN_LEN = {"ops": 1}
OPTIONAL = ("fault",)
INFO = {
    "rule": "Each run: 1-3 trainings on one estimator object. The training and test objectives replay scripted values (random walks, "
            "plateaus, humps, NaN and infinities at any evaluation, gradients turning NaN at any step) under the number of optimisation "
            "steps the critic has really seen; step limits, test intervals, splits, batch sizes, learning rates, verbosity and both "
            "training loops vary; earlier trainings may be refused, fail or be interrupted at any line. The result is compared with a "
            "ten-line model of the protocol. A further part trains the four public estimators with their real objectives on ordinary "
            "and on diverging data and checks that the reported history obeys the protocol.",
    "real": "NeuralEstimatorBase, MINEEstimator, InfoNCE, NWJ and Donsker-Varadhan estimators, training loops, optimiser, training log",
    "stub": "critic and objective values (scripted) in the first part; nothing in the second",
    "assumptions": ["the first evaluation counts as the best so far even if it is NaN; any number improves on NaN"],
}


def gen(rng, session, i, tier):
    part = rng.weighted([("base", 6), ("mine", 3), ("real", 1.2)])
    lr = rng.pick([0.1, 0.01, 1.0, 0.5])
    sc = {"part": part, "lr": lr, "jit": rng.chance(0.1), "verbose": rng.chance(0.25), "every": rng.pick([1, 1, 1, 2, 2, 3, 4, 7]),
          "max": rng.log_int(1, 14 if part != "real" else 9), "split": rng.pick([None, 0.5, 0.5, 0.3, 0.75]), "standardize": rng.chance(0.2) and part != "mine", "seed": rng.randrange(1000), "ops": []}
    if part == "real":
        sc["cls"] = rng.pick(["InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator", "MINEEstimator"])
        sc["lr"] = rng.pick([0.1, 0.01, 30.0, 1e6, 1e30])
        sc["jit"] = rng.chance(0.5)
    if part == "base":
        sc["test_formula"] = rng.chance(0.8)
    long = part == "base" and rng.chance(0.06)
    if long:      # hundreds of steps with values that rarely stop growing
        sc.update(max=rng.randrange(40, 300), jit=True, every=rng.pick([1, 2, 3]))
    for _ in range(1 if long else rng.pick([1, 1, 2, 3]) if part != "real" else rng.pick([1, 1, 2])):
        n = rng.randrange(6, 24)
        style = "up" if long and rng.chance(0.8) else None
        op = {"n": n, "train": neural.g_table(rng, sc["max"] + 1, style), "test": neural.g_table(rng, sc["max"] + 1, style), "dseed": rng.randrange(10**6),
              "scale": rng.pick([1.0, 1.0, 1e3, 1e18, 1e30]) if part == "real" else 1.0, "how": rng.pick(["estimate", "info", "info"]),
              "nangrad": rng.randrange(sc["max"] + 1) if rng.chance(0.12) else None}
        f = rng.weighted([("none", 6), ("interrupt", 1), ("raise", 1)])
        if f == "interrupt":
            op["fault"] = {**g_where(rng), "kind": "interrupt"}
        elif f == "raise":
            op["fault"] = {"kind": "raise", "call": rng.randrange(6)}
        sc["ops"].append(op)
    small = min(op["n"] for op in sc["ops"])
    m = small if sc["split"] is None else int(sc["split"] * small)
    sc["batch"] = rng.pick([1, max(1, m // 2), max(1, m // 2), max(1, m), max(1, m // 3), max(1, m // 3), rng.pick([m + 1, m + 20])])
    if part == "mine" and sc["batch"] < 4:
        sc["batch"] = 4
    return sc


class Script:
    """The values of the training that is going on, and a place to fail."""

    def __init__(self, sim):
        self.sim = sim

    def load(self, op):
        self.train, self.test = tuple(op["train"]), tuple(op["test"])
        self.nangrad = -1 if op.get("nangrad") is None else op["nangrad"]
        self.restart(op)

    def restart(self, op):
        self.calls = 0
        self.seen = neural.Seen()
        self.fail_at = op["fault"]["call"] if op.get("fault") and op["fault"]["kind"] == "raise" else None

    def tick(self):
        n = self.calls
        self.calls += 1
        if n == self.fail_at:
            self.sim.fault("objective_raises")
            raise ArithmeticError("simulated failure of the objective")


def build(sc, script):
    import jax
    import jax.numpy as jnp
    import bmi.estimators.neural as N
    kw = dict(batch_size=sc["batch"], max_n_steps=sc["max"], train_test_split=sc["split"], test_every_n_steps=sc["every"], learning_rate=sc["lr"],
              standardize=sc["standardize"], verbose=sc["verbose"], seed=sc["seed"])
    if sc["part"] == "real":
        return getattr(N, sc["cls"])(hidden_layers=(3,), **kw)
    cls = neural.critic_class()
    if sc["part"] == "base":
        def train(critic, xs, ys):
            script.tick()
            return critic.look(critic.train) + critic.lean()

        def test(critic, xs, ys):
            script.tick()
            return critic.look(critic.test)
        return N.NeuralEstimatorBase(mi_formula=train, mi_formula_name="scripted",
                                     critic_factory=lambda key, dx, dy: cls(jnp.asarray(0.0), sc["lr"], script.train, script.test, script.nangrad),
                                     mi_formula_test=test if sc["test_formula"] else None, **kw)

    class Paired(cls):
        """Scores true pairs with the scripted value, all others with 0."""
        def __call__(self, x, y):
            script.tick()
            return jnp.where(jnp.abs(y[0] - x[0] - 1000.0) < 0.5, self.look(self.test) + self.lean(), -3.0 * self.lean())

    class Mine(N.MINEEstimator):
        def _create_critic(self, *a, **k):
            return Paired(jnp.asarray(0.0), sc["lr"], (), script.test, script.nangrad, script.seen)
    return Mine(hidden_layers=(3,), **kw)


def data(sc, op):
    rng = np.random.default_rng(op["dseed"])
    if sc["part"] == "real":
        x = rng.normal(size=(op["n"], 2))
        return x * op["scale"], (x[:, :1] + 0.5 * rng.normal(size=(op["n"], 1))) * op["scale"]
    x = rng.permutation(op["n"]).astype(float)[:, None] * 3
    return x, x + 1000.0


def attempt(est, how, x, y, sim):
    if how == "estimate":
        return call(est.estimate, x, y)
    return call(est.estimate_with_info, x, y)


def run(sc, sim):
    from sim import mon
    script = Script(sim)
    est = build(sc, script)
    sim.nontrivial = len(sc["ops"]) > 1 or any(op.get("fault") for op in sc["ops"])
    for i, op in enumerate(sc["ops"]):
        what = f"training {i}"
        script.load(op)
        x, y = data(sc, op)
        fault = op.get("fault")
        with neural.quiet(), neural.eager(not sc["jit"]):
            if fault and fault["kind"] == "interrupt":
                clone = build(sc, script)
                total = mon.count_steps(lambda: clone.estimate_with_info(x, y))
                c = mon.Injector(sim, mon.place(fault, total), KeyboardInterrupt, "raise_KeyboardInterrupt")
                script.restart(op)
                with mon.Controlled(c):
                    o = attempt(est, op["how"], x, y, sim)
            else:
                o = attempt(est, op["how"], x, y, sim)
        sim.event("trained", i, o.ok, type(o.exc).__name__)
        if not o.ok:
            expected = isinstance(o.exc, KeyboardInterrupt) if fault and fault["kind"] == "interrupt" else isinstance(o.exc, ArithmeticError) and script.fail_at is not None
            if fault and expected:
                sim.probe("training_aborted")
                continue
            sim.fail("training-fails", f"{what} {o!r}")
        m = op["n"] if sc["split"] is None else sc["split"] * op["n"]
        refused = sc["batch"] > m
        exact = sc["split"] is None or abs(sc["batch"] - m) >= 1
        if op["how"] == "estimate":
            value, info = o.value, None
        else:
            value, info = o.value.mi_estimate, o.value.additional_information
        if not exact:      # the size of the training part may be rounded either way
            refused = sc["batch"] > m if info is None else "batch_size_larger_than_train" in info
            if info is None and float(value) != float(value):
                continue
        if refused:
            sim.check(float(value) != float(value), "refused", lambda: f"{what}: batch of {sc['batch']} from {m} training points, but estimate {value!r}")
            if info is not None:
                sim.check(info.get("batch_size_larger_than_train") is True, "refused-flag", lambda: f"{what}: no flag in {info}")
            sim.probe("batch_refused")
            continue
        if info is not None:
            sim.check("batch_size_larger_than_train" not in info, "refused-flag", lambda: f"{what}: flag set for batch of {sc['batch']} from {m}")
        (check_real if sc["part"] == "real" else check_mine if sc["part"] == "mine" else check_base)(sc, sim, script, est, op, value, info, what)


def check_info(sc, sim, what, info, n, hist, stopped, tol=1e-6):
    got = [(int(k), float(v)) for k, v in info["test_history"]]
    sim.check(info["n_training_steps"] == n, "steps", lambda: f"{what}: {info['n_training_steps']} steps reported, {n} expected; history {got}")
    sim.check([k for k, _ in got] == [k for k, _ in hist] and all(neural.near(a, b, tol) for (_, a), (_, b) in zip(got, hist)), "test-history",
              lambda: f"{what}: reported test history {got}, expected {hist}")
    sim.check(bool(info.get("early_stopping_not_triggered", False)) == (not stopped), "early-stopping-flag",
              lambda: f"{what}: early_stopping_not_triggered={info.get('early_stopping_not_triggered')}, stopped early: {stopped}")


def check_base(sc, sim, script, est, op, value, info, what):
    nangrad = script.nangrad
    tab = neural.table(script.test if sc["test_formula"] else script.train)

    def values(k):
        # the critic after step k has w = k * lr, or NaN once a gradient was NaN
        return np.nan if 0 <= nangrad < k else tab[k]
    n, hist, best, stopped = neural.protocol(values, sc["max"], sc["every"])
    sim.check(neural.near(value, best), "best-value", lambda: f"{what}: estimate {float(value)!r}, best of the evaluations {hist} is {best!r}")
    if info is not None:
        check_info(sc, sim, what, info, n, hist, stopped)
    if nangrad < 0 or n <= nangrad:
        k = neural.steps_of(est.trained_critic)
        sim.check(abs(k - n) < 0.2, "steps-taken", lambda: f"{what}: the exposed critic took {k:.3f} steps, {n} expected")
    if stopped:
        sim.probe("stopped_early")
    if any(v != v for _, v in hist):
        sim.probe("nan_evaluated")
    sim.probe("protocol_compared")


def check_history(sc, sim, est, value, info, what):
    """The reported history obeys the protocol; returns (steps, history)."""
    if info is None:
        return None, None
    hist = [(int(k), float(v)) for k, v in info["test_history"]]
    seen = dict(hist)
    n, model, best, stopped = neural.protocol(lambda k: seen.get(k, 777.0), sc["max"], sc["every"])
    check_info(sc, sim, what, info, n, model, stopped)
    sim.check(neural.near(value, best), "best-value", lambda: f"{what}: estimate {float(value)!r}, best of the evaluations {hist} is {best!r}")
    if any(v != v for _, v in hist):
        sim.probe("nan_evaluated")
    return n, hist


def check_mine(sc, sim, script, est, op, value, info, what):
    """The scripted critic of MINE moves at every step, though not by a fixed amount, so its steps
    are numbered by the order in which distinct weights appear."""
    n, hist = check_history(sc, sim, est, value, info, what)
    if n is None:
        return
    tab = neural.table(script.test)
    seen, w = script.seen, float(est.trained_critic.w)
    m = op["n"] - (0 if sc["split"] is None else int(np.floor(sc["split"] * op["n"])))   # test points
    sim.check(abs(seen.order[0]) == 0.0, "first-step", lambda: f"{what}: training starts at weight {seen.order[0]}")
    w1 = seen.weight(1) if len(seen.order) > 1 else w
    sim.check(w1 != w1 or abs(abs(w1) - sc["lr"]) < 0.02 * sc["lr"], "first-step", lambda: f"{what}: the first step moved the weight to {w1}, learning rate {sc['lr']}")
    if w == w:
        k = seen.order.index(w) if w in seen.order else len(seen.order)
        sim.check(k == n, "steps-taken", lambda: f"{what}: the exposed critic took {k} steps, {n} reported")
    for k, v in hist:
        wk = seen.weight(k)
        sim.check(wk is not None, "critic-of-the-moment", lambda: f"{what}: nothing was evaluated after step {k}, but the history has {v}")
        if wk != wk:
            sim.check(v != v, "critic-of-the-moment", lambda: f"{what}: value {v} of a critic that is NaN after step {k}")
            continue
        t = float(tab[k])
        with np.errstate(all="ignore"):
            options = [t - (np.logaddexp(np.log(j) + t, np.log(m - j)) if j else np.log(m)) + np.log(m) for j in range(m + 1)]
        sim.check(any(neural.near(v, o, 1e-4) or abs(v - o) <= 1e-4 * abs(t) < np.inf for o in options), "critic-of-the-moment",
                  lambda: f"{what}: test value {v} after step {k} is not that of the critic of that moment (scripted {t}), possible {options[:3]}")
    sim.probe("mine_protocol_compared")


def check_real(sc, sim, script, est, op, value, info, what):
    check_history(sc, sim, est, value, info, what)
    if sc["lr"] > 1 or op["scale"] > 1:
        sim.probe("diverging_data_or_rate")
