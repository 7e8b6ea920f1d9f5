"""P05: dumped records and task metadata load back exactly, or dumping raises (storage faults, kills)."""
import math
import os
import pathlib

import numpy as np

from sim.props.common import call, eqf

TIERS = {"quick": {"sessions": 8, "episodes": 500}, "thorough": {"sessions": 32, "episodes": 1500, "timeout": 1500}}
LISTS = ("ops",)
INFO = {
    "rule": "Each run: 1-8 operations (dump a run record, save task metadata, leftover garbage) on 1-2 paths of a simulated "
            "disk; about half of the runs inject faults at exact byte positions, at open or at close, or kill the process "
            "inside a write; every file whose dump returned is loaded with a plain safe YAML loader and compared.",
    "real": "RunResult.dump, Task.save_metadata, DictDumper, PyYAML",
    "stub": "the raw file layer under open(): faults, short writes, kills",
    "assumptions": ["a kill loses user-space buffers, not data already handed to the operating system",
                    "partial files left by a kill are the caller's to redo; only dumping again is checked"],
}
STRINGS = ["", " ", "a", "text", "it's", "say \"hi\"", "both ' and \"", "line\nbreak", "trailing\n", "\n\nlead", "tab\there", "colon: x", "# no",
           "- item", "{a: b}", "[1, 2]", "nan", ".nan", "NaN", ".inf", "null", "~", "None", "yes", "No", "on", "1", "1.5", "1e3", "0x1f", "0o17",
           "010", "1:30", "2020-01-02", "=", "<<", "&a", "*a", "!t", "%d", "@x", "`x`", "?", "ünï", "✓", "😀", "\u2028", "\x85", "\ufeff", "\x00",
           "\x07bell", "é" * 50, "word " * 60, "x" * 500, " lead", "trail ", "\\", "\\n", "a\r\nb", "\r", "---", "...", "a\n  b\n c", "'", "\"",
           "Traceback (most recent call last):\n  File \"x.py\", line 1\nValueError: it's {bad}: [x]\n", "b'bytes'", "key: |\n  v"]
FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e-7, 1e20, 1e300, 5e-324, 2**53 + 1.0, 1 / 3, 123456789.123, "nan", "inf", "-inf", 1e16, 1e22, 1.5e-10]


def g_val(rng, depth=0):
    kinds = [("s", 5), ("f", 4), ("i", 3), ("b", 1), ("n", 1), ("npf", 2), ("npi", 1), ("npb", 1), ("nps", 0.5), ("arr", 2), ("p", 1.5), ("e", 1.5)]
    if depth < 3:
        kinds += [("l", 3), ("d", 3), ("t", 1), ("twice", 1)]
    k = rng.weighted(kinds)
    if k == "s":
        s = rng.pick(STRINGS)
        return {"t": "s", "v": s if rng.chance(0.7) else s + rng.pick(STRINGS)}
    if k == "f":
        return {"t": "f", "v": rng.pick(FLOATS)}
    if k == "i":
        return {"t": "i", "v": rng.pick([0, 1, -1, 255, 2**31, -2**63, 2**80, 10**30, 8, 60])}
    if k == "b":
        return {"t": "b", "v": rng.chance(0.5)}
    if k == "n":
        return {"t": "n"}
    if k == "npf":
        return {"t": "npf", "v": rng.pick(FLOATS), "dt": rng.pick(["float64", "float64", "float32", "float16"])}
    if k == "npi":
        if rng.chance(0.4):
            dt = rng.pick(["int64", "uint64", "int32", "uint32", "uint16"])
            return {"t": "npi", "v": rng.pick([np.iinfo(dt).max, np.iinfo(dt).min, np.iinfo(dt).max - 6]).__int__(), "dt": dt}
        return {"t": "npi", "v": rng.randrange(100), "dt": rng.pick(["int64", "int32", "uint8", "int8", "uint64"])}
    if k == "npb":
        return {"t": "npb", "v": rng.chance(0.5)}
    if k == "nps":
        return {"t": "nps", "v": rng.pick(STRINGS)}
    if k == "arr":
        return {"t": "arr", "shape": rng.pick([[0], [1], [3], [2, 2], [2, 0], [], [2, 1, 2], [5]]) if rng.chance(0.93) else rng.pick([[40], [130], [30, 12], [1100]]), "seed": rng.randrange(99),
                "dt": rng.pick(["float64", "float64", "float32", "int64", "bool"]), "nan": rng.chance(0.3)}
    if k == "p":
        return {"t": "p", "v": rng.pick(["a/b.csv", "/abs/é", "x y", "nan", "1", "it's", " padded ", "//net/share", "a:b", "~", "-", "a\tb", "ends in space "])}
    if k == "e":
        return {"t": "e", "v": rng.pick(["GAUSS", "STR", "INT", "FLOAT", "LIST", "KSG", "CCA", "ONE"])}
    if k == "twice":
        return {"t": "twice", "v": g_val(rng, depth + 1)}
    n = rng.randrange(0, 5)
    if k == "d":
        return {"t": "d", "v": [[g_key(rng), g_val(rng, depth + 1)] for _ in range(n)]}
    return {"t": k, "v": [g_val(rng, depth + 1) for _ in range(n)]}


def g_key(rng):
    return rng.pick(STRINGS) if rng.chance(0.5) else rng.pick(["n_steps", "test_history", "a", "b", "c", "warnings"]) if rng.chance(0.7) else rng.randrange(10)


_enum = {}


def enum_cls():
    if not _enum:
        import enum

        class Kind(enum.Enum):
            GAUSS = "gaussian"
            STR = "it's: \"x\""
            INT = 7
            FLOAT = 0.25
            LIST = [1, 2]

        class Name(str, enum.Enum):         # the library's own enumerations of either form
            KSG = "ksg: 'x'"
            CCA = "cca"

        class Number(enum.IntEnum):
            ONE = 1

        _enum.update({k.name: k for cls in (Kind, Name, Number) for k in cls})
    return _enum


def arr(v):
    a = np.random.default_rng(v["seed"]).normal(size=v["shape"]) * 3
    if v["nan"] and a.size:
        a = np.array(a)
        a.flat[0] = np.nan
        a.flat[-1] = -np.inf
        if v["dt"] in ("int64", "bool"):
            a = np.nan_to_num(a, posinf=1, neginf=-1)
    return np.asarray(a).astype(v["dt"])


def build(v):
    """The Python object."""
    t = v["t"]
    if t == "f":
        return float(v["v"])
    if t in "sib":
        return v["v"]
    if t == "n":
        return None
    if t in ("npf", "npi"):
        with np.errstate(all="ignore"):
            return np.dtype(v["dt"]).type(float(v["v"]) if t == "npf" else v["v"])
    if t == "npb":
        return np.bool_(v["v"])
    if t == "nps":
        return np.str_(v["v"])
    if t == "arr":
        return arr(v)
    if t == "p":
        return pathlib.Path(v["v"])
    if t == "e":
        return enum_cls()[v["v"]]
    if t == "twice":
        x = build(v["v"])
        return [x, x]
    if t == "d":
        return {k: build(w) for k, w in v["v"]}
    xs = [build(w) for w in v["v"]]
    return tuple(xs) if t == "t" else xs


def plain(v):
    """What the file must load to."""
    t = v["t"]
    x = build(v)
    if t in ("npf", "npi", "npb", "nps"):
        return x.item()
    if t == "arr":
        return x.tolist()
    if t == "p":
        return str(x)
    if t == "e":
        return x.value
    if t == "twice":
        return [plain(v["v"])] * 2
    if t == "d":
        return {k: plain(w) for k, w in v["v"]}
    if t in ("l", "t"):
        return [plain(w) for w in v["v"]]
    return x


def identical(a, b):
    """None if equal, else a description."""
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            return f"{a!r} instead of {b!r}"
        return next((f"[{k!r}]: {d}" for k in b if (d := identical(a[k], b[k]))), None)
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return f"{a!r} instead of {b!r}"
        return next((f"[{i}]: {d}" for i in range(len(b)) if (d := identical(a[i], b[i]))), None)
    if type(a) is not type(b):
        return f"{type(a).__name__} {a!r} instead of {type(b).__name__} {b!r}"
    if isinstance(b, float):
        if eqf(a, b) and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b:
            return None
        return f"{a!r} instead of {b!r}"
    return None if a == b else f"{a!r} instead of {b!r}"


def g_record(rng):
    return {"mi": {"t": rng.pick(["f", "npf"]), "v": rng.pick(FLOATS), "dt": "float64"}, "time": {"t": "f", "v": rng.pick(FLOATS)},
            "success": rng.chance(0.7), "est": rng.pick(STRINGS), "task": rng.pick(STRINGS), "n": rng.pick([1, 100, 2**40]),
            "seed": rng.pick([None, 0, 5, 2**62]), "info": [[str(g_key(rng)), g_val(rng)] for _ in range(rng.log_int(1, 6) - 1)]}


def g_fault(rng):
    w = rng.weighted([("write", 5), ("close", 2), ("open", 1), ("short", 2), ("kill", 3), ("interrupt", 1)])
    at = rng.log_int(1, 1500) - 1
    if w == "write":
        return {"op": "write", "at": at, "err": rng.pick(["ENOSPC", "EIO", "EDQUOT"])}
    if w == "close":
        return {"op": "close", "err": rng.pick(["EIO", "ENOSPC"])}
    if w == "open":
        return {"op": "openw", "err": rng.pick(["EACCES", "EMFILE", "EROFS"])}
    return {"op": "write", "at": at, "err": w}


def gen(rng, session, i, tier):
    faulty = rng.chance(0.6)
    rate = rng.pick([0.25, 0.5, 0.8])
    paths = ["a.yaml", "b.yaml"][: rng.pick([1, 1, 2])]
    ops = []
    for _ in range(rng.log_int(2, 8)):
        kind = rng.weighted([("dump", 6), ("meta", 2), ("task", 1), ("garbage", 1)])
        op = {"op": kind, "path": rng.pick(paths)}
        op.update(g_op(rng, kind))
        if kind != "garbage" and faulty and rng.chance(rate):
            op["fault"] = g_fault(rng)
        ops.append(op)
    for p in paths:
        kind = rng.pick(["dump", "meta"])
        ops.append({"op": kind, "path": p, **g_op(rng, kind)})
    return {"ops": ops, "pathlib": rng.chance(0.5)}


def g_op(rng, kind):
    if kind == "dump":
        return {"rec": g_record(rng)}
    if kind == "meta":
        return {"id": rng.pick(STRINGS), "name": rng.pick(STRINGS), "params": [[str(g_key(rng)), g_val(rng)] for _ in range(rng.randrange(0, 5))],
                "none": rng.chance(0.1)}
    if kind == "task":
        return {"k": rng.randrange(1000)}
    return {"size": rng.log_int(1, 20000), "seed": rng.randrange(100)}


def shrink(sc):
    for i, op in enumerate(sc["ops"]):
        def put(new):
            return {**sc, "ops": sc["ops"][:i] + [new] + sc["ops"][i + 1:]}
        if op["op"] == "dump":
            for j in range(len(op["rec"]["info"])):
                yield put({**op, "rec": {**op["rec"], "info": op["rec"]["info"][:j] + op["rec"]["info"][j + 1:]}})
            for f in ("est", "task"):
                if op["rec"][f] != "a":
                    yield put({**op, "rec": {**op["rec"], f: "a"}})
            for j, (k, v) in enumerate(op["rec"]["info"]):
                for w in smaller(v):
                    yield put({**op, "rec": {**op["rec"], "info": op["rec"]["info"][:j] + [[k, w]] + op["rec"]["info"][j + 1:]}})
        if op["op"] == "meta":
            for j in range(len(op["params"])):
                yield put({**op, "params": op["params"][:j] + op["params"][j + 1:]})
            for j, (k, v) in enumerate(op["params"]):
                for w in smaller(v):
                    yield put({**op, "params": op["params"][:j] + [[k, w]] + op["params"][j + 1:]})


def smaller(v):
    if v["t"] in ("l", "t"):
        yield from v["v"]
        for j in range(len(v["v"])):
            yield {**v, "v": v["v"][:j] + v["v"][j + 1:]}
    elif v["t"] == "d":
        yield from (w for _, w in v["v"])
    elif v["t"] == "twice":
        yield v["v"]
    elif v["t"] not in ("b", "n"):
        yield {"t": "n"}


def prepare(sim):
    from bmi.benchmark import BENCHMARK_TASKS
    sim.shared["tasks"] = list(BENCHMARK_TASKS.values())


def run(sc, sim):
    import yaml
    from bmi.benchmark.result import RunResult
    from bmi.benchmark.task import Task
    from bmi.samplers import SplitMultinormal
    from sim.fs import FS, real_open
    disk = os.path.join(sim.scratch, "disk")
    os.mkdir(disk)
    fs = FS(sim, disk)
    if len(sc["ops"]) > 1:
        sim.nontrivial = True
    sampler = sim.shared.setdefault("sampler", SplitMultinormal(dim_x=1, dim_y=2, mean=np.zeros(3), covariance=np.eye(3) + 0.2))
    last = {}
    with fs:
        for op in sc["ops"]:
            path = os.path.join(disk, op["path"])
            arg = pathlib.Path(path) if sc["pathlib"] else path
            kind = op["op"]
            if kind == "garbage":
                with real_open(path, "wb") as f:
                    f.write(np.random.default_rng(op["seed"]).integers(32, 127, op["size"], dtype=np.uint8).tobytes())
                last.pop(path, None)
                sim.event("garbage", op["path"])
                continue
            if kind == "dump":
                rec = op["rec"]
                r = RunResult(mi_estimate=build(rec["mi"]), time_in_seconds=build(rec["time"]), success=rec["success"], estimator_id=rec["est"],
                              task_id=rec["task"], n_samples=rec["n"], seed=rec["seed"], additional_information={k: build(v) for k, v in rec["info"]})
                want = dict(mi_estimate=plain(rec["mi"]), time_in_seconds=plain(rec["time"]), success=rec["success"], estimator_id=rec["est"],
                            task_id=rec["task"], n_samples=rec["n"], seed=rec["seed"], additional_information={k: plain(v) for k, v in rec["info"]})
                fn = r.dump
            elif kind == "meta":
                params = None if op["none"] else {k: build(v) for k, v in op["params"]}
                task = Task(sampler=sampler, task_id=op["id"], task_name=op["name"], task_params=params)
                want = dict(task_id=op["id"], task_name=op["name"], dim_x=1, dim_y=2, mi_true=float(sampler.mutual_information()),
                            task_params={} if op["none"] else {k: plain(v) for k, v in op["params"]})
                fn = task.save_metadata
            else:
                ts = sim.shared["tasks"]
                task = ts[op["k"] % len(ts)]
                want = dict(task_id=task.id, task_name=task.name, dim_x=int(task.dim_x), dim_y=int(task.dim_y),
                            mi_true=float(task.mutual_information), task_params=untag(task.params))
                fn = task.save_metadata
            fs.set_plans([op["fault"]] if op.get("fault") else [])
            before = dict(sim.ep_faults)
            o = call(fn, arg)
            if fs.crashed is not None:
                sim.check(not o.ok, "kill-swallowed", "a kill inside dumping did not stop it")
                fs.restore_after_crash()
                last.pop(path, None)
                sim.probe("killed_while_dumping")
                sim.event(kind, "killed")
                continue
            hard = any(n > before.get(k, 0) for k, n in sim.ep_faults.items() if k.startswith("fs_") and k != "fs_short_write")
            sim.event(kind, op["path"], o.ok, hard, type(o.exc).__name__)
            if not o.ok:
                sim.check(hard, "dump-fails", lambda: f"dumping on a healthy disk {o!r}")
                last.pop(path, None)
                continue
            sim.check(not hard, "dump-hides-fault", lambda: f"dumping reported success although storage failed ({op.get('fault')})")
            last[path] = want
            # every file dumped so far, not only this one, still holds its record
            for p, w in last.items():
                text = real_open(p, "rb").read()
                got = call(yaml.safe_load, text)
                sim.check(got.ok, "load-fails", lambda: f"safe loading the dumped file {got!r}; file: {text[:500]!r}")
                d = identical(got.value, w)
                sim.check(d is None, "content", lambda: f"the file loads to other content: {d}")
            sim.probe("content_compared")


def untag(x):
    """Plain form of a real task's parameters."""
    import enum
    if isinstance(x, dict):
        return {k: untag(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [untag(v) for v in x]
    if isinstance(x, enum.Enum):
        return untag(x.value)
    if isinstance(x, pathlib.Path):
        return str(x)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) or type(x).__module__.startswith("jax"):
        return np.asarray(x).tolist()
    return x
