"""P11: estimating, benchmarking and saving never modify the caller's data."""
import copy
import os

import numpy as np

from sim.props import ests
from sim.props.common import call, g_where, pair

TIERS = {"quick": {"sessions": 8, "episodes": 260}, "thorough": {"sessions": 32, "episodes": 800, "timeout": 1500}}
LISTS = ("ops",)
MIN_LEN = {"ops": 1}
OPTIONAL = ("inject",)
INFO = {
    "rule": "Each run: one or two blocks of the caller's memory seen through arrays of random dtype and layout (Fortran order, strided, "
            "reversed, read-only, memory-mapped, overlapping or identical X and Y, nested lists, object arrays), used by 1-6 calls of random "
            "estimators, the saver and task helpers, healthy, rejected, failing on storage or interrupted at any line or bytecode; after every call every byte "
            "of the caller's memory is compared.",
    "real": "all estimators of bmi.estimators, save_sample, ProductSpace",
    "stub": "raw file layer, R/Julia programs, joblib's scheduler, delivery of interrupts",
    "assumptions": [],
}
DTYPES = ["float64", "float64", "float64", "float32", "int64", "int32", "bool", "float16", ">f8", "object", "uint8", "longdouble"]
LAYOUTS = ["c", "c", "f", "strided", "neg", "readonly", "memmap", "list", "listrows", "offset", "subclass", "overlap", "samearray", "jax"]


def gen(rng, session, i, tier):
    n = rng.log_int(12, 40) if rng.chance(0.95) else rng.pick([130, 300, 1100])
    blocks = [{"seed": rng.randrange(10**6), "n": n, "dx": rng.randrange(1, 3), "dy": rng.randrange(1, 3), "dtype": rng.pick(DTYPES), "layout": rng.pick(LAYOUTS), "odd": rng.pick([None, None, None, "zeros", "nonfinite", "wide", "same"])}
              for _ in range(rng.pick([1, 1, 2]))]
    ops = []
    for _ in range(rng.log_int(1, 6)):
        op = {"b": rng.randrange(len(blocks)), "what": rng.weighted([("est", 7), ("save", 2), ("space", 0.7)])}
        if op["what"] == "est":
            op["i"] = rng.randrange(16) if rng.chance(0.9) or n > 100 else rng.randrange(len(ests.CATALOGUE))
            op["via"] = rng.pick(["estimate", "info", "fit"])
        if op["what"] == "space":
            op["std"] = rng.chance(0.7)
        if op["what"] == "save" and rng.chance(0.4):
            op["fault"] = {"op": "write", "at": rng.log_int(1, 1500) - 1, "err": rng.pick(["ENOSPC", "EIO", "interrupt"])}
        if rng.chance(0.4):
            op["inject"] = {**g_where(rng), "exc": rng.pick(["KeyboardInterrupt", "MemoryError", "SimCrash"]), "grain": rng.pick(["line", "line", "instr"])}
        if rng.chance(0.1):
            op["cut"] = rng.pick(["x", "y"])      # lengths do not match
        ops.append(op)
    return {"blocks": blocks, "ops": ops}


def shrink(sc):
    for i, b in enumerate(sc["blocks"]):
        for c in ({"layout": "c"}, {"odd": None}, {"dtype": "float64"}, {"dx": 1}, {"dy": 1}):
            if b.get(list(c)[0]) != list(c.values())[0]:
                yield {**sc, "blocks": sc["blocks"][:i] + [{**b, **c}] + sc["blocks"][i + 1:]}


def prepare(sim):
    from sim import jobs
    jobs.install()


class Sub(np.ndarray):
    pass


def make(sim, k, b):
    """Returns (x, y, watch): watch() gives the exact present content of everything the caller owns."""
    n, dx, dy, how = b["n"], b["dx"], b["dy"], b["layout"]
    x, y = pair(b["seed"], n, dx, dy)
    x, y = x * 3 + 1, y * 3 - 1
    dt = b["dtype"]
    odd = b.get("odd")
    for a in (x, y):
        if odd == "zeros":
            a[::3], a[1::3] = -0.0, 0.0
        elif odd == "nonfinite" and (a is x or b["seed"] % 2):
            a[0], a[n // 2], a[n - 1] = np.nan, np.inf, -np.inf
        elif odd == "wide":
            a[::2] *= 1e-310
            a[1::4] *= 1e200
        elif odd == "same":
            a[n // 2:] = a[0]

    def cast(a):
        with np.errstate(all="ignore"):
            return cast_(a)

    def cast_(a):
        if dt in ("int64", "int32"):
            return (a * 1000).astype(dt)
        if dt == "bool":
            return a > 1
        if dt == "uint8":
            return (np.abs(a) * 20).astype(dt)
        if dt == "object":
            return a.astype(object)
        return a.astype(dt)

    x, y = cast(x), cast(y)
    owned = []
    if how == "overlap":
        base = np.concatenate([x, y], axis=1)
        owned = [base]
        x, y = base[:, : dx + 1], base[:, base.shape[1] - dy:]
        x = x[:, :dx] if b["seed"] % 2 else x
    elif how == "samearray":
        owned = [x]
        y = x
    elif how == "strided":
        out = []
        for a in (x, y):
            big = np.zeros((n * 2, a.shape[1] * 3), dtype=a.dtype)
            big[::2, ::3] = a
            owned.append(big)
            out.append(big[::2, ::3])
        x, y = out
    elif how == "neg":
        bx, by = np.ascontiguousarray(x[::-1, ::-1]), np.ascontiguousarray(y[::-1])
        owned = [bx, by]
        x, y = bx[::-1, ::-1], by[::-1]
    elif how == "f":
        x, y = np.asfortranarray(x), np.asfortranarray(y)
        owned = [x, y]
    elif how == "readonly":
        x, y = x.copy(), y.copy()
        owned = [x, y]
        x, y = x.view(), y.view()
        x.flags.writeable = False
        y.flags.writeable = False
    elif how == "memmap" and dt != "object":
        out = []
        for name, a in (("x", x), ("y", y)):
            m = np.memmap(os.path.join(sim.scratch, f"{k}{name}.bin"), dtype=a.dtype, mode="w+", shape=a.shape)
            m[:] = a
            out.append(m)
        x, y = out
        owned = [x, y]
    elif how == "list":
        x, y = x.tolist(), y.tolist()
        lists = (x, y)
        return x, y, lambda: repr(lists)
    elif how == "listrows":
        x, y = [r.copy() for r in x], [r.copy() for r in y]
        rows = x + y
        return x, y, lambda: (len(x), len(y), [r.tobytes() if r.dtype != object else repr(r.tolist()) for r in rows])
    elif how == "offset":
        base = np.zeros(x.size + y.size + 3, dtype=x.dtype)
        base[1: 1 + x.size] = x.ravel()
        base[2 + x.size: 2 + x.size + y.size] = y.ravel()
        owned = [base]
        x, y = base[1: 1 + x.size].reshape(x.shape), base[2 + x.size: 2 + x.size + y.size].reshape(y.shape)
    elif how == "subclass":
        owned = [x, y]
        x, y = x.view(Sub), y.view(Sub)
    elif how == "jax" and dt in ("float32", "float64", "int32"):
        import jax.numpy as jnp
        x, y = jnp.asarray(x), jnp.asarray(y)
        owned = [x, y]
    else:
        owned = [x, y]

    def watch():
        out = []
        for a in owned + ([x, y] if isinstance(x, np.ndarray) else []):
            a = np.asarray(a)
            out.append((a.shape, str(a.dtype), a.strides, a.tobytes() if a.dtype != object else repr(a.tolist())))
        if isinstance(x, np.ndarray):
            out.append((x.flags.writeable, y.flags.writeable))
        return out
    return x, y, watch


def run(sc, sim):
    from bmi.utils import ProductSpace, save_sample
    from sim import mon
    from sim.core import SimCrash
    from sim.fs import FS
    data = [make(sim, k, b) for k, b in enumerate(sc["blocks"])]
    before = [w() for _, _, w in data]
    sim.nontrivial = len(sc["ops"]) > 1
    fs = FS(sim, sim.scratch)
    with ests.world(sim), fs:
        for n, op in enumerate(sc["ops"]):
            x, y, _ = data[op["b"]]
            if op.get("cut") == "x":
                x = x[:-1]
            elif op.get("cut") == "y":
                y = y[:-1]
            if op["what"] == "est":
                est = ests.build(op["i"], **({"max_n_steps": 2} if ests.family(op["i"]) in ests.NEURAL else {}))
                if op["via"] == "info":
                    def fn():
                        return est.estimate_with_info(x, y)
                elif op["via"] == "fit" and hasattr(est, "fit"):
                    def fn():
                        return est.fit(x, y)
                elif op["via"] == "fit" and hasattr(est, "estimate_entropies"):
                    def fn():
                        return est.estimate_entropies(x, y)
                else:
                    def fn():
                        return est.estimate(x, y)
            elif op["what"] == "save":
                def fn():
                    return save_sample(os.path.join(sim.scratch, f"out{n}.csv"), x, y)
            else:
                def fn():
                    s = ProductSpace(x, y, standardize=op["std"])
                    return s.xy, s.x, s.y, s[0:2], len(s)
            inj = op.get("inject")
            fs.set_plans([dict(op["fault"])] if op.get("fault") else [])
            if inj:
                ck = mon.Counter()
                if ests.family(op.get("i", 0)) in ests.NEURAL and op["what"] == "est":
                    total = 400
                else:
                    cfn = fn
                    if op["what"] == "save":
                        def cfn():
                            fs.set_plans([])
                            save_sample(os.path.join(sim.scratch, "count.csv"), x, y)
                    with mon.Controlled(ck, inj["grain"]):
                        call(cfn)
                    total = ck.steps() or 1
                    fs.set_plans([dict(op["fault"])] if op.get("fault") else [])
                mk = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash}[inj["exc"]]
                c = mon.Injector(sim, mon.place(inj, total), mk, "raise_" + inj["exc"])
                with mon.Controlled(c, inj["grain"]):
                    o = call(fn)
            else:
                o = call(fn)
            fs.set_plans([])
            sim.event(n, op["what"], o.ok, type(o.exc).__name__)
            sim.probe("call_returned" if o.ok else "call_raised")
            for (_, _, w), b0, b in zip(data, before, sc["blocks"]):
                now = w()
                sim.check(now == b0, "data-modified", lambda: f"operation {n} {op} changed the caller's data ({b}): {first_difference(b0, now)}")


def first_difference(a, b):
    for p, q in zip(a, b):
        if p != q:
            return f"{str(p)[:200]} -> {str(q)[:200]}"
    return "length"
