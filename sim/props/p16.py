"""P16: a trained critic is published only by a completed training."""
import numpy as np

from sim.props import ests, neural
from sim.props.common import call, g_where, pair

TIERS = {"quick": {"sessions": 8, "episodes": 45, "timeout": 500}, "thorough": {"sessions": 32, "episodes": 500, "timeout": 1500}}
LISTS = ("ops",)
MIN_LEN = {"ops": 1}
OPTIONAL = ("fault",)
INFO = {
    "rule": "Each run: 1-5 trainings on one neural estimator object with different data sets and dimensions. Trainings are interrupted, killed or run out of "
            "memory at any line, their objective, test objective or critic factory raises at any call, their data are unusable or too few for a batch; "
            "a reader looks at the exposed critic before every line of the training. After every training the exposed critic and the estimate are "
            "compared with those of a fresh object, and critics handed out earlier are compared with their copies.",
    "real": "NeuralEstimatorBase, InfoNCE, NWJ, Donsker-Varadhan and MINE estimators with training loops and optimiser",
    "stub": "delivery of interrupts; objective of NeuralEstimatorBase (a small real one that can be told to fail); eager instead of compiled execution in most runs",
    "assumptions": ["an interrupt that arrives when the training is over may leave either critic, but in full"],
}
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "ValueError": ValueError}


def gen(rng, session, i, tier):
    kind = rng.weighted([("base", 5), ("mine", 3), ("infonce", 2), ("nwj", 1), ("dv", 1)])
    sc = {"kind": kind, "max": rng.randrange(1, 4), "every": rng.pick([1, 1, 2, 5]), "split": rng.pick([None, 0.5, 0.6]), "seed": rng.randrange(3), "jit": kind != "base" and rng.chance(0.06),
          "standardize": rng.chance(0.6), "ops": []}
    for _ in range(rng.pick([1, 2, 2, 3, 3, 4, 5])):
        op = {"data": rng.randrange(len(DATA)), "how": rng.pick(["estimate", "info"])}
        f = rng.weighted([("none", 4), ("inject", 5), ("raise", 5 if kind == "base" else 0), ("bad", 2), ("few", 2)])
        if f == "inject":
            op["fault"] = {"kind": "inject", "exc": rng.pick(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "ValueError", "SimCrash"])}
            op["fault"].update(g_where(rng, 60))
        elif f == "raise":
            op["fault"] = {"kind": "raise", "where": rng.pick(["train", "train", "test", "test", "factory"]), "call": rng.randrange(3)}
        elif f == "bad":
            op["fault"] = {"kind": "bad", "how": rng.pick(["mismatch", "oned", "str", "none", "empty"])}
        elif f == "few":
            op["fault"] = {"kind": "few"}
        op["watch"] = rng.chance(0.6)
        sc["ops"].append(op)
    return sc


DATA = [(21, 12, 1, 1), (22, 11, 2, 1), (23, 14, 1, 1), (24, 12, 1, 2)]


class Control:
    def __init__(self):
        self.fail, self.calls, self.fired = None, {}, False

    def arm(self, fault):
        self.fail = fault if fault and fault["kind"] == "raise" else None
        self.calls, self.fired = {}, False

    def tick(self, where, sim):
        n = self.calls[where] = self.calls.get(where, -1) + 1
        if self.fail and self.fail["where"] == where and self.fail["call"] == n:
            self.fired = True
            sim.fault("raise_in_" + where)
            raise ArithmeticError("simulated failure in " + where)


def build(sc, sim, ctl):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import bmi.estimators.neural as N
    kw = dict(batch_size=4, max_n_steps=sc["max"], train_test_split=sc["split"], test_every_n_steps=sc["every"], standardize=sc["standardize"], verbose=False, seed=sc["seed"])
    if sc["kind"] != "base":
        return {"mine": N.MINEEstimator, "infonce": N.InfoNCEEstimator, "nwj": N.NWJEstimator, "dv": N.DonskerVaradhanEstimator}[sc["kind"]](hidden_layers=(2,), **kw)
    global _LIN
    if "_LIN" not in globals():
        class Lin(eqx.Module):
            w: jax.Array
        _LIN = Lin

    def factory(key, dx, dy):
        ctl.tick("factory", sim)
        return _LIN(jax.random.normal(key, (dx + dy,)))

    def formula(where):
        def f(critic, xs, ys):
            ctl.tick(where, sim)
            return jnp.mean(jnp.tanh(jnp.concatenate([xs, ys], axis=1) @ critic.w))
        return f
    return N.NeuralEstimatorBase(mi_formula=formula("train"), mi_formula_name="small", critic_factory=factory, mi_formula_test=formula("test"), **kw)


def reference(sc, sim, d):
    """(estimate, critic, lines) of a fresh object."""
    key = ("p16", sc["kind"], sc["max"], sc["every"], sc["split"], sc["seed"], sc["standardize"], sc["jit"], d)
    if key not in sim.shared:
        from sim import mon
        est = build(sc, sim, Control())
        box = []
        total = mon.count_steps(lambda: box.append(est.estimate(*pair(*DATA[d]))))
        sim.shared[key] = (float(box[0]), est.trained_critic, total)
        # the same training without any evaluation on the way: its critic is the one of the last step
        plain = build({**sc, "every": 10**6}, sim, Control())
        again = build(sc, sim, Control())
        plain.estimate(*pair(*DATA[d]))
        if again.estimate_with_info(*pair(*DATA[d])).additional_information["n_training_steps"] == sc["max"]:
            sim.check(neural.tree_close(est.trained_critic, plain.trained_critic), "not-the-last",
                      lambda: f"after all {sc['max']} steps the exposed critic is {est.trained_critic}; without evaluations on the way it is {plain.trained_critic}")
            sim.probe("last_critic_confirmed")
    return sim.shared[key]


def same(a, b):
    return a is b or a is not None and b is not None and neural.tree(a) == neural.tree(b)


class Watch:
    """Reads the exposed critic before every line; also delivers the injected exception."""

    def __init__(self, est, inner):
        self.est, self.inner, self.busy = est, inner, False
        self.seen = []

    @property
    def fired(self):
        return self.inner.fired if self.inner else None

    def on_step(self, code, where):
        if self.busy:
            return
        self.busy = True
        try:
            c = self.est.trained_critic
        finally:
            self.busy = False
        if not self.seen or not same(self.seen[-1], c):
            self.seen.append(c)
        if self.inner is not None:
            self.inner.on_step(code, where)


def run(sc, sim):
    from sim import mon
    from sim.core import SimCrash
    ctl = Control()
    est = build(sc, sim, ctl)
    sim.nontrivial = len(sc["ops"]) > 1 or bool(sc["ops"][0].get("fault"))
    handed = []          # (critic, its content when it was handed out)
    current = None       # the critic that has to be exposed

    def expose(what):
        o = call(lambda: est.trained_critic)
        sim.check(o.ok, "read-fails", lambda: f"{what}: reading the critic {o!r}")
        return o.value

    sim.check(expose("new object") is None, "critic-from-nowhere", "a new estimator exposes a critic")
    for i, op in enumerate(sc["ops"]):
        f = op.get("fault") or {"kind": "none"}
        what = f"training {i} ({f})"
        with neural.eager(not sc["jit"]):
            ref = reference(sc, sim, op["data"])
            x, y = pair(*DATA[op["data"]])
            if f["kind"] == "bad":
                x, y = ests.spoil(x, y, f["how"])
            elif f["kind"] == "few":
                x, y = x[:3], y[:3]
            ctl.arm(f)
            fn = est.estimate if op["how"] == "estimate" else est.estimate_with_info
            inj = None
            if f["kind"] == "inject":
                exc = {**EXC, "SimCrash": SimCrash}[f["exc"]]
                inj = mon.Injector(sim, mon.place(f, ref[2]), exc, "raise_" + f["exc"])
            watch = Watch(est, inj) if op["watch"] else None
            if watch or inj:
                with mon.Controlled(watch or inj):
                    o = call(fn, x, y)
            else:
                o = call(fn, x, y)
        ctl.arm(None)
        after = expose(what)
        fired = bool(inj and inj.fired)
        sim.event("training", i, o.ok, type(o.exc).__name__, inj.fired if inj else None, same(after, current))
        value = None if not o.ok else float(o.value if op["how"] == "estimate" else o.value.mi_estimate)
        if watch:
            new = [c for c in watch.seen if not same(c, current)]
            sim.check(all(same(c, after) for c in new), "half-trained", lambda: f"{what}: a reader saw a critic that was exposed neither before nor after the training")
            sim.check(len(watch.seen) <= 2, "half-trained", lambda: f"{what}: the exposed critic changed {len(watch.seen) - 1} times during one training")
            sim.probe("concurrent_reads")
        complete = after is not None and neural.tree_close(after, ref[1]) if f["kind"] not in ("bad", "few") else False
        if f["kind"] == "few":
            sim.check(same(after, current), "refused-publishes", lambda: f"{what}: refused or failed, but the exposed critic changed")
            sim.probe("refused")
        elif f["kind"] == "bad":
            sim.check(not o.ok or value == value or same(after, current), "refused-publishes", lambda: f"{what}: no estimate, but the exposed critic changed")
            if not o.ok:
                sim.check(same(after, current), "failure-publishes", lambda: f"{what} {o!r}, but the exposed critic changed")
                sim.probe("rejected")
        elif o.ok:
            sim.check(not ctl.fired, "failure-hidden", lambda: f"{what} returned {value}")
            if not fired:
                sim.check(complete, "wrong-critic", lambda: f"{what}: the exposed critic is not the one a fresh object trains on the same data: {after} instead of {ref[1]}")
                sim.check(neural.near(value, ref[0], 1e-4), "wrong-estimate", lambda: f"{what}: estimate {value}, a fresh object gives {ref[0]}")
                sim.probe("compared_with_fresh")
        else:
            sim.check(fired or f["kind"] == "raise" and isinstance(o.exc, ArithmeticError), "training-fails", lambda: f"{what} {o!r}")
            if f["kind"] == "raise":
                sim.check(same(after, current), "failure-publishes", lambda: f"{what} failed, but the exposed critic changed")
            else:
                sim.check(same(after, current) or complete, "half-trained", lambda: f"{what} at {inj.fired}: the exposed critic is neither the old one nor that of the completed training: {after}")
            sim.probe("failed_training")
        for c, t in handed:
            sim.check(neural.tree(c) == t, "handed-out-changed", lambda: f"{what}: a critic handed out earlier changed")
        if not same(after, current) and after is not None:
            handed.append((after, neural.tree(after)))
        current = after
