"""P04: saved samples read back unchanged, or an error is raised (storage faults, kills)."""
import os

import numpy as np

from sim.core import SimCrash
from sim.props.common import call, close, rarray

TIERS = {"quick": {"sessions": 8, "episodes": 220}, "thorough": {"sessions": 32, "episodes": 700, "timeout": 1500}}
LISTS = ("ops",)
INFO = {
    "rule": "Each run: 1-8 operations (save by function or by task, read, read dimensions, leftover garbage) on 1-2 paths "
            "of a simulated disk; half of the runs inject faults at exact byte positions, at open or at close, or kill "
            "the process inside a write and restart with only what had reached the disk.",
    "real": "bmi.utils.save_sample/read_sample/read_sample_dims, Task.save_sample, pandas CSV reader and writer",
    "stub": "the raw file layer under open(): faults, short reads and writes, kills",
    "assumptions": ["a kill loses user-space buffers, not data already handed to the operating system",
                    "partial files left by a kill are the caller's to redo (Snakemake deletes them); only re-saving is checked"],
}
DTYPES = ["float64", "float64", "float64", "float32", "int64", "int32", "uint8", "bool", "float16", "uint64"]
NAMES = ["a.csv", "b.csv", "a.csv", "b.csv", "a.csv", "b.csv", "with blanks 1.csv", "ünï ✓.csv", "no_ending", "a.b.c.csv", "#tag%20.csv", "a.txt"]


def g_arrays(rng, large=False):
    dt = rng.pick(DTYPES)
    if dt in ("float64",):
        kind = rng.pick(["normal", "normal", "wide", "tails", "const", "nonfinite"])
    elif dt in ("float32", "float16"):
        kind = rng.pick(["normal", "tails", "const"])
    elif dt == "int64":
        kind = rng.pick(["int", "bigint"])
    elif dt == "uint64":
        kind = "hugeint"
    else:
        kind = "int"
    n = rng.pick([1, 2, 3, 7]) if rng.chance(0.3) else rng.log_int(1, 120)
    if large:
        n = rng.pick([1500, 2600, 5200, 10100, 24000])
    big = rng.chance(0.25) and not large
    dx, dy = (rng.randrange(1, 26), rng.randrange(1, 26)) if big else (rng.randrange(1, 5), rng.randrange(1, 5))
    if not large and rng.chance(0.03):      # hundreds of columns
        n, (dx, dy) = min(n, 12), rng.pick([(1, 130), (120, 2), (101, 101), (260, 40), (12, 1030)])
    dty = dt if rng.chance(0.7) or kind in ("wide", "bigint", "hugeint", "nonfinite") else rng.pick(["float64", "float32", "int32"])
    return {"x": {"seed": rng.randrange(10**6), "n": n, "d": dx, "kind": kind, "dtype": dt},
            "y": {"seed": rng.randrange(10**6), "n": n, "d": dy, "kind": kind if kind in ("bigint", "int") or dty == dt else "normal",
                  "dtype": dty},
            "as": rng.pick(["array", "array", "array", "list", "fortran", "strided"])}


def g_fault(rng, op):
    if op == "save":
        w = rng.weighted([("write", 5), ("close", 2), ("open", 1), ("short", 2), ("kill", 3), ("interrupt", 1)])
        at = rng.log_int(1, 20000) - 1 if rng.chance(0.8) else rng.randrange(64)
        if w == "write":
            return {"op": "write", "at": at, "err": rng.pick(["ENOSPC", "EIO", "EDQUOT"])}
        if w == "close":
            return {"op": "close", "err": rng.pick(["EIO", "ENOSPC"])}
        if w == "open":
            return {"op": "openw", "err": rng.pick(["EACCES", "EMFILE", "EROFS", "ENOSPC"])}
        return {"op": "write", "at": at, "err": w}
    w = rng.weighted([("read", 4), ("open", 1), ("short", 2)])
    if w == "open":
        return {"op": "openr", "err": rng.pick(["EACCES", "EMFILE"])}
    return {"op": "read", "at": rng.log_int(1, 20000) - 1 if w == "read" else rng.pick([1, 3, 17, 100]),
            "err": "EIO" if w == "read" else "short"}


def gen(rng, session, i, tier):
    faulty = rng.chance(0.6)
    rate = rng.pick([0.25, 0.5, 0.8])
    paths = sorted({rng.pick(NAMES) for _ in range(rng.pick([1, 1, 2]))})
    ops = []
    for _ in range(rng.log_int(2, 8)):
        kind = rng.weighted([("save", 5), ("tsave", 1.5), ("read", 4), ("dims", 2), ("garbage", 1)])
        op = {"op": kind, "path": rng.pick(paths)}
        if kind == "save":
            op.update(g_arrays(rng, rng.chance(0.03)))
        elif kind == "tsave":
            op.update(task=rng.pick(["binormal", "multinormal", "student"]), n=rng.log_int(1, 60), seed=rng.randrange(100))
        elif kind == "garbage":
            op.update(size=rng.log_int(1, 60000), seed=rng.randrange(100))
        if kind in ("save", "tsave", "read", "dims") and faulty and rng.chance(rate):
            op["fault"] = g_fault(rng, "save" if "save" in kind else "read")
        ops.append(op)
    # every history ends with a fault-free save and read of every path
    tail = []
    for p in paths:
        if rng.chance(0.7):
            tail.append({"op": "save", "path": p, **g_arrays(rng)})
        tail.append({"op": "read", "path": p})
        tail.append({"op": "dims", "path": p})
    return {"ops": ops + tail, "pathlib": rng.chance(0.5)}


def shrink(sc):
    for i, op in enumerate(sc["ops"]):
        if op["op"] == "save":
            for n in (1, 2, op["x"]["n"] // 2):
                if 0 < n < op["x"]["n"]:
                    yield {**sc, "ops": sc["ops"][:i] + [{**op, "x": {**op["x"], "n": n}, "y": {**op["y"], "n": n}}] + sc["ops"][i + 1:]}
            for k in ("x", "y"):
                for d in (1, 2, op[k]["d"] // 2, op[k]["d"] - 1):
                    if 0 < d < op[k]["d"]:
                        yield {**sc, "ops": sc["ops"][:i] + [{**op, k: {**op[k], "d": d}}] + sc["ops"][i + 1:]}


def _task(name):
    import bmi.benchmark.tasks as t
    if name == "binormal":
        return t.task_bivariate_normal(gaussian_correlation=0.5)
    if name == "multinormal":
        return t.task_multinormal_dense(3, 12)
    return t.task_student_dense(dim_x=2, dim_y=1, df=1)


def layout(a, how):
    if how == "list":
        return a.tolist()
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=a.dtype)
        big[::2, ::3] = a
        return big[::2, ::3]
    return a


def prepare(sim):
    sim.shared["tasks"] = {k: _task(k) for k in ("binormal", "multinormal", "student")}


def equal_back(got, want):
    """`got`: array read from the file; `want`: array saved."""
    got = np.asarray(got)
    if got.shape != want.shape:
        return f"shape {got.shape}, saved {want.shape}"
    if want.dtype.kind in "iub":
        if got.dtype.kind in "iub":
            good = np.array_equal(got.astype(object), want.astype(object))
        else:  # stored next to floats: exact up to double precision
            good = close(got, want)
    elif want.dtype == np.float64:
        good = close(got, want)
    else:  # the nearest value of the narrow type must be the original
        with np.errstate(all="ignore"):
            back = got.astype(want.dtype)
        good = bool(np.allclose(back.astype(float), want.astype(float), rtol=2.5 * np.finfo(want.dtype).eps, atol=0, equal_nan=True))
    if good:
        return None
    bad = [(tuple(map(int, ix))) for ix in np.argwhere(~np.isclose(got.astype(float), want.astype(float), rtol=1e-9, atol=0, equal_nan=True))[:3]]
    return f"values differ, e.g. at {bad}: " + ", ".join(f"{got[b]!r} instead of {want[b]!r}" for b in bad)


def run(sc, sim):
    import bmi.utils as utils
    from sim.fs import FS, real_open
    import pathlib
    disk = os.path.join(sim.scratch, "disk")
    os.mkdir(disk)
    fs = FS(sim, disk)
    # model: path -> None (content unknown) | (x, y) of the last save that returned
    model = {}
    if len(sc["ops"]) > 1:
        sim.nontrivial = True
    with fs:
        for op in sc["ops"]:
            path = os.path.join(disk, op["path"])
            arg = pathlib.Path(path) if sc["pathlib"] else path
            kind = op["op"]
            fs.set_plans([op["fault"]] if op.get("fault") else [])
            before = dict(sim.ep_faults)
            if kind == "garbage":
                with real_open(path, "wb") as f:
                    f.write(np.random.default_rng(op["seed"]).integers(32, 127, op["size"], dtype=np.uint8).tobytes())
                model[path] = None
                sim.event("garbage", op["path"])
                continue
            if kind in ("save", "tsave"):
                if kind == "save":
                    x, y = rarray(op["x"]), rarray(op["y"])
                    o = call(utils.save_sample, arg, layout(x, op["as"]), layout(y, op["as"]))
                else:
                    task = sim.shared["tasks"][op["task"]]
                    x, y = map(np.asarray, task.sample(op["n"], op["seed"]))
                    o = call(task.save_sample, arg, n_samples=op["n"], seed=op["seed"])
                if fs.crashed is not None:
                    sim.check(not o.ok, "kill-swallowed", "a kill inside saving did not stop the save")
                    fs.restore_after_crash()
                    sim.probe("killed_while_saving")
                    model[path] = None
                    sim.event("save", "killed")
                    continue
                hard = _hard(sim, before)
                sim.event("save", op["path"], o.ok, hard, type(o.exc).__name__)
                if o.ok:
                    sim.check(not hard, "save-hides-fault",
                              lambda: f"saving reported success although storage failed ({op.get('fault')})")
                    model[path] = (x, y)
                else:
                    sim.check(hard, "save-fails", lambda: f"saving on a healthy disk {o!r} for {op}")
                    model[path] = None
                continue
            fn = utils.read_sample if kind == "read" else utils.read_sample_dims
            o = call(fn, arg)
            hard = _hard(sim, before)
            sim.event(kind, op["path"], o.ok, hard, type(o.exc).__name__)
            if hard:
                # an I/O error while reading must surface; a reader that did not need the failing bytes is fine
                if o.ok and kind == "read":
                    want = model.get(path)
                    sim.check(False, "read-hides-fault", f"reading reported success although storage failed ({op.get('fault')})")
                continue
            want = model.get(path)
            if want is None:
                continue
            sim.check(o.ok, "read-fails", lambda: f"reading back a completely saved sample {o!r}")
            if kind == "dims":
                sim.check(tuple(o.value) == (want[0].shape[1], want[1].shape[1]), "dims",
                          lambda: f"dimensions {o.value}, saved {(want[0].shape[1], want[1].shape[1])}")
                continue
            gx, gy = o.value
            for name, g, w in (("X", gx, want[0]), ("Y", gy, want[1])):
                diff = equal_back(g, w)
                sim.check(diff is None, "roundtrip", lambda: f"{name} read back differs: {diff}")
            sim.probe("roundtrip_compared")


def _hard(sim, before):
    """Did a fault fire in this operation that must surface as an error?"""
    return any(n > before.get(k, 0) for k, n in sim.ep_faults.items()
               if k.startswith("fs_") and k not in ("fs_short_write", "fs_short_read"))
