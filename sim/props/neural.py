"""Scripted critics and objectives for the neural estimators (P14-P16).

A scripted critic holds one weight w whose gradient is 1 at every step, so that Adam moves it by
the learning rate: w / learning_rate says how many optimisation steps the critic has seen, and the
scripted objective looks its value up in a table under that number.  Nothing here depends on how
the training loops are written."""
import contextlib
import io

import numpy as np


def unhex(v):
    return float(v)


def table(vals):
    """JSON-able values (numbers or 'nan'/'inf'/'-inf') -> float32 array."""
    return np.asarray([float(v) for v in vals], dtype=np.float32)


def g_table(rng, n, style=None):
    style = style or rng.weighted([("walk", 5), ("up", 2), ("hump", 3), ("levels", 3), ("nanny", 3), ("wild", 2)])
    out, v = [], rng.pick([0.0, -1.0, 0.5])
    top = rng.randrange(n + 1)
    for k in range(n):
        if style == "up":
            v = v + rng.random()
        elif style == "hump":
            v = v + (1 if k <= top else -1) * rng.random()
        elif style == "levels":
            v = rng.pick([0.0, 0.25, 0.5])
        else:
            v = v + rng.uniform(-1, 1)
        x = round(v, 4)
        if style == "nanny" and rng.chance(0.45):
            x = "nan"
        elif style == "wild" and rng.chance(0.4):
            x = rng.pick(["nan", "inf", "-inf", 1e30, -1e30, 0.0, -0.0])
        out.append(x)
    if style in ("nanny", "wild") and rng.chance(0.4):
        for k in range(rng.randrange(1, 4)):
            if k < n:
                out[k] = "nan"
    return out


def critic_class():
    """Defined late: equinox must be imported after the seams are in place."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    global _CLS
    if "_CLS" in globals():
        return _CLS

    @jax.custom_jvp
    def tilt(w, bad):
        """Zero, with gradient 1 (or NaN) with respect to w."""
        return jnp.zeros_like(w)

    @tilt.defjvp
    def _(primals, tangents):
        w, bad = primals
        return jnp.zeros_like(w), tangents[0] * jnp.where(bad > 0, jnp.nan, 1.0)

    class Scripted(eqx.Module):
        """One weight; the script is static, so that two trainings never share compiled code."""
        w: jax.Array
        lr: float = eqx.field(static=True)
        train: tuple = eqx.field(static=True, default=())
        test: tuple = eqx.field(static=True, default=())
        nangrad: int = eqx.field(static=True, default=-1)
        seen: object = eqx.field(static=True, default=None)

        def age(self):
            """Number of optimisation steps this critic has seen (as a float; NaN once w is NaN)."""
            w = jax.lax.stop_gradient(self.w)
            if self.seen is not None:
                return jax.pure_callback(self.seen, jax.ShapeDtypeStruct((), jnp.float32), w)
            return jnp.round(w / self.lr)

        def look(self, tab):
            tab = jnp.asarray(np.asarray([float(v) for v in tab], dtype=np.float32))
            k = self.age()
            i = jnp.clip(jnp.where(jnp.isfinite(k), k, 0.0).astype(int), -1, len(tab))
            # anything but 0..len-1 (a critic that went down, or too far) is a value nobody scripted
            padded = jnp.concatenate([jnp.asarray([777.0], dtype=jnp.float32), tab, jnp.asarray([888.0], dtype=jnp.float32)])
            return jnp.where(jnp.isfinite(k), padded[i + 1], jnp.nan)

        def lean(self):
            bad = (self.age() >= self.nangrad).astype(jnp.float32) if self.nangrad >= 0 else jnp.float32(0)
            return tilt(self.w, bad)
    _CLS = Scripted
    return _CLS


class Seen:
    """Numbers the distinct weights in the order in which they are evaluated."""

    def __init__(self):
        self.order = []

    def __call__(self, w):
        w = float(w)
        if w != w:
            if not self.order or self.order[-1] == self.order[-1]:
                self.order.append(w)
            return np.float32(np.nan)
        if w not in self.order:
            self.order.append(w)
        return np.float32(self.order.index(w))

    def weight(self, k):
        """Weight after k steps, as far as it was evaluated."""
        if self.order and self.order[-1] != self.order[-1] and k >= len(self.order) - 1:
            return float("nan")
        return self.order[k] if k < len(self.order) else None


def steps_of(critic):
    w = float(critic.w)
    return w / critic.lr


@contextlib.contextmanager
def quiet():
    """Verbose training prints and draws progress bars: keep them out of the harness' output."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def eager(on=True):
    """Eager execution: every step of the training loop runs its Python code."""
    import jax
    if on:
        with jax.disable_jit():
            yield
    else:
        yield


def protocol(values, max_n_steps, every):
    """Reference model of the training loop: (number of steps, history, best, stopped early)."""
    best, since, hist = None, 0, []
    for k in range(1, max_n_steps + 1):
        if k % every == 0:
            v = float(values(k))
            hist.append((k, v))
            if best is None or v > best or (best != best and v == v):
                best, since = v, 0
            else:
                since += 1
        if since > 1:
            return k, hist, best, True
    return max_n_steps, hist, (float("nan") if best is None else best), False


def near(a, b, tol=1e-6):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if abs(a) == float("inf") or abs(b) == float("inf"):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def tree(critic):
    """Everything a critic holds, as comparable bytes."""
    import jax
    leaves, treedef = jax.tree_util.tree_flatten(critic)
    return (str(treedef), [(str(np.asarray(v).dtype), np.asarray(v).shape, np.asarray(v).tobytes()) for v in leaves])


def tree_close(a, b, tol=1e-5):
    import jax
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return str(ta) == str(tb) and all(np.shape(p) == np.shape(q) and np.allclose(np.asarray(p), np.asarray(q), rtol=tol, atol=tol, equal_nan=True) for p, q in zip(la, lb))
