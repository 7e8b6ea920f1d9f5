"""Deterministic stand-in for NumPyro's NUTS/MCMC as used by the Gaussian-mixture estimator.

The model itself is real: it is traced once per run, and what the sampler was asked to do is read off
the trace (observed data, number of components, concentration of the proportions)."""
import hashlib

import numpy as np

CALLS = []


class NUTS:
    def __init__(self, model=None, *a, **k):
        self.model = model


def effective(model, a, k):
    """(data, K, concentration) of the model with these arguments."""
    import jax
    from numpyro import handlers
    tr = handlers.trace(handlers.seed(model, jax.random.PRNGKey(0))).get_trace(*a, **k)
    obs = [s for s in tr.values() if s["type"] == "sample" and s["is_observed"]]
    conc = np.asarray(tr["pi"]["fn"].concentration, dtype=np.float64)
    return np.asarray(obs[0]["value"], dtype=np.float64), conc.shape[-1], conc


class MCMC:
    """Draws are determined by the key, the data and every setting."""
    fail = None        # callable(stage): raises to simulate a failing sampler

    def __init__(self, kernel, *, num_warmup, num_samples, **k):
        self.kernel, self.num_warmup, self.num_samples = kernel, num_warmup, num_samples
        self.samples = None

    def run(self, key, *a, **k):
        data, K, conc = effective(self.kernel.model, a, k)
        if MCMC.fail:
            MCMC.fail("start")
        h = hashlib.sha256(repr((data.shape, K, np.round(conc, 6).tolist(), self.num_warmup, self.num_samples, tuple(int(v) for v in np.asarray(key).ravel()))).encode())
        rng = np.random.default_rng(int.from_bytes(h.digest()[:8], "big"))
        d, s = data.shape[1], self.num_samples
        # the data enter continuously, so that the last digits of a sample file do not matter
        shift, spread = data.mean(axis=0), data.std(axis=0)
        a_ = rng.normal(size=(s, K, d, d)) * 0.4
        cov = a_ @ a_.transpose(0, 1, 3, 2) + np.eye(d) * (0.5 + 0.1 * spread / (1 + spread))
        mu = rng.normal(size=(s, K, d)) + np.tanh(shift)
        pi = rng.dirichlet(np.ones(K) * 3, size=s)
        if MCMC.fail:
            MCMC.fail("end")
        import jax.numpy as jnp
        self.samples = {"mu": jnp.asarray(mu), "cov": jnp.asarray(cov), "pi": jnp.asarray(pi)}
        CALLS.append({"data": data, "K": K, "conc": conc, "warmup": self.num_warmup, "samples": self.num_samples,
                      "draws": {"mu": np.asarray(self.samples["mu"], np.float64), "cov": np.asarray(self.samples["cov"], np.float64), "pi": np.asarray(self.samples["pi"], np.float64)}})

    def get_samples(self, group_by_chain=False):
        if self.samples is None:
            raise AttributeError("MCMC was not run")
        return self.samples


def install():
    import bmi.estimators.external.gmm as g
    import numpyro.infer
    g.NUTS, g.MCMC = NUTS, MCMC
    numpyro.infer.NUTS, numpyro.infer.MCMC = NUTS, MCMC
    MCMC.fail = None
