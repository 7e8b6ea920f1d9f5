"""Shared by the property modules."""
import os

import numpy as np


class Out:
    """Outcome of one call into the code under test."""
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return f"returned {self.value!r}"[:300] if self.ok else f"raised {type(self.exc).__name__}: {self.exc}"[:300]


def call(fn, *a, **k):
    from sim.core import HarnessError, Violation
    try:
        return Out(value=fn(*a, **k))
    except (Violation, HarnessError):
        raise
    except BaseException as e:  # noqa
        return Out(exc=e)


def rarray(spec):
    """Array from a small explicit spec: {seed, n, d, kind, dtype}."""
    rng = np.random.default_rng(spec["seed"])
    n, d = spec["n"], spec["d"]
    kind = spec.get("kind", "normal")
    if kind == "normal":
        a = rng.normal(size=(n, d))
    elif kind == "wide":       # many magnitudes
        a = rng.normal(size=(n, d)) * 10.0 ** rng.integers(-300, 300, size=(n, d))
    elif kind == "tails":
        a = rng.standard_cauchy(size=(n, d))
    elif kind == "int":
        a = rng.integers(-50, 50, size=(n, d))
    elif kind == "bigint":
        a = rng.integers(-2**62, 2**62, size=(n, d))
    elif kind == "hugeint":    # only as unsigned 64-bit integers
        a = rng.integers(2**63, 2**64, size=(n, d), dtype=np.uint64)
    elif kind == "const":
        a = np.full((n, d), 1.5)
    elif kind == "nonfinite":
        a = rng.normal(size=(n, d))
        pos = rng.integers(0, n * d, size=max(1, n * d // 6))
        a.flat[pos] = rng.choice([np.inf, -np.inf, np.nan], size=len(pos))
    else:
        raise ValueError(kind)
    return a.astype(spec.get("dtype", "float64"))


def pair(seed, n, dx, dy, rho=0.7, dtype="float64"):
    """A dependent pair (X, Y)."""
    rng = np.random.default_rng(seed)
    z = rng.normal(size=(n, 1))
    x = np.sqrt(rho) * z + np.sqrt(1 - rho) * rng.normal(size=(n, dx))
    y = np.sqrt(rho) * z + np.sqrt(1 - rho) * rng.normal(size=(n, dy))
    return x.astype(dtype), y.astype(dtype)


def same(a, b):
    """Exactly equal (NaN equals NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc"))


def close(a, b, rtol=1e-12):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=0.0, equal_nan=True))


def eqf(a, b):
    """Equal numbers, NaN equal to NaN."""
    a, b = float(a), float(b)
    return a == b or (a != a and b != b)


def listdir(path):
    out = []
    for base, _, files in os.walk(path):
        for f in files:
            out.append(os.path.relpath(os.path.join(base, f), path))
    return sorted(out)


def write_csv(path, x, y):
    """Independent writer of the documented sample format."""
    from sim.fs import real_open
    x, y = np.asarray(x), np.asarray(y)
    with real_open(path, "w") as f:
        f.write(",".join([f"X{i}" for i in range(x.shape[1])] + [f"Y{i}" for i in range(y.shape[1])]) + "\n")
        for a, b in zip(x.tolist(), y.tolist()):
            f.write(",".join(repr(v) for v in a + b) + "\n")


def listed(sc, ident):
    """Is the defect with this name recorded in known_findings.json?  A scenario marked strict
    (the ones kept there to show the defect) is judged without the record."""
    global _LISTED
    if "_LISTED" not in globals():
        import json
        from sim.fs import real_open
        with real_open(os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "known_findings.json")) as f:
            _LISTED = {k["id"] for k in json.load(f)["findings"]}
    return not sc.get("strict") and ident in _LISTED


def nodes(x, out=None):
    """Every mutable part of a nested object with a copy of its own content, for put_back."""
    out = [] if out is None else out
    if isinstance(x, dict):
        out.append((x, dict(x)))
        for v in x.values():
            nodes(v, out)
    elif isinstance(x, list):
        out.append((x, list(x)))
        for v in x:
            nodes(v, out)
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        out.append((x, x.copy()))
    return out


def put_back(saved):
    for x, old in saved:
        if isinstance(x, dict):
            x.clear()
            x.update(old)
        elif isinstance(x, list):
            x[:] = old
        else:
            x[...] = old


def g_where(rng, end=25):
    """A random position inside an operation."""
    k = rng.weighted([("frac", 4), ("end", 2), ("loc", 4)])
    return {"frac": rng.frac()} if k == "frac" else {"end": rng.log_int(1, end) - 1} if k == "end" else {"loc": rng.frac(), "occ": rng.frac()}
