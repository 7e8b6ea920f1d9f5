"""P18: failures survive aggregation and never distort the tables."""
import importlib
import math
import os
import sys

import numpy as np

from sim.props.common import call, listed
from sim.props.p17 import FILES

TIERS = {"quick": {"sessions": 8, "episodes": 45}, "thorough": {"sessions": 32, "episodes": 400, "timeout": 1700}}
LISTS = ("runs", "tasks", "ns")
MIN_LEN = {"runs": 1, "tasks": 1, "ns": 1}
OPTIONAL = ()
INFO = {
    "rule": "Each run: 1-3 tasks with arbitrary parameters, 1-3 estimators, 1-3 sample sizes and 1-4 seeds; every single run is performed by the real "
            "run_estimator with a scripted outcome (a value, NaN, infinity, an exception with an awkward text, an external program that fails with awkward "
            "output, additional information of any shape), dumped, gathered by the real 'results' rule, read back with the real readers, and turned into "
            "the real tables, for a random selection of sample size. Everything is compared with the individual records and with means computed directly. "
            "One run per session checks the task parameters of the configurations in the repository.",
    "real": "run_estimator, RunResult.dump, the rules 'results' of the three rule files, the readers and the table functions of _utils.py, "
            "_common_figure_utils.py and v2_results_table.smk, pandas, PyYAML",
    "stub": "estimators (scripted outcome), R/Julia programs, Snakemake, pandas Styler and seaborn (not installed)",
    "assumptions": ["names of task parameters do not collide with the columns of the table"],
}
TEXTS = ["boom", "", "it's \"both\" quotes", "line one\nline two", "colon: brace { [ }", "ünïcødé ✓", "100% {x}", "nan", "#", "None", "it's", "\"dq\"", "tab\there",
         "'", "\\n", "back\\slash \\u0041 \\x", "yes", "1e5", "~", "- a", "? b", "!tag", "&anchor *alias", "%dir", "@at `tick`", "a, b", "  spaces  ", "\r\n", "\x07bell", "[1] 0.5",
         "very long " * 60, "\u2028sep", "null", "2001-01-01", "0x1F", "1_000", "=", "<<", "it''s", "{'a': 1}"]
SCALARS = [1, 0, -3, 0.5, 1e-05, 2.5e-7, 1e22, 1e300, -0.0, True, False, None, "nan", "inf", "-inf", 12345.678901234567, 2**40]


def g_scalar(rng):
    return {"v": rng.pick(SCALARS)} if rng.chance(0.6) else {"s": rng.pick(TEXTS)}


def g_tree(rng, depth=0):
    k = rng.weighted([("scalar", 6), ("list", 2), ("dict", 2), ("np", 1)]) if depth < 2 else "scalar"
    if k == "scalar":
        return g_scalar(rng)
    if k == "np":
        return {"np": rng.pick([0.25, 1e-05, 3, True]), "as": rng.pick(["float64", "float32", "int64", "array"])}
    if k == "list":
        return {"l": [g_tree(rng, depth + 1) for _ in range(rng.randrange(0, 3))]}
    return {"d": [[rng.pick(["a", "b c", "x'y", "k:1", "é", "error"]), g_tree(rng, depth + 1)] for _ in range(rng.randrange(0, 3))]}


def g_out(rng):
    k = rng.weighted([("value", 6), ("fail", 4), ("nan", 1), ("info", 3), ("ext", 2)])
    o = {"k": k}
    if k in ("value", "info"):
        o["v"] = rng.pick([0.5, 1.25, 0.031, 2.75, 0.004, 1.1, 0.62, -0.3, -1.2, 3.33, 0.123456789012345])
    if k == "info":
        o["info"] = {"d": [[rng.pick(["n_steps", "note", "history", "warning"]), g_tree(rng)] for _ in range(rng.randrange(1, 3))]}
    if k == "fail":
        o.update(exc=rng.pick(["ValueError", "MemoryError", "CalledProcessError", "KeyError", "UnicodeDecodeError", "AssertionError"]), text=rng.pick(TEXTS))
    if k == "ext":
        o["plan"] = rng.pick([{"kind": "exit", "code": 1, "out": "it's \"bad\": {x}\n", "errtext": "Error: 'a'"}, {"kind": "bytes", "bytes": [255, 39, 34, 10, 58]},
                              {"kind": "output", "out": "NA: [1]\n"}, {"kind": "signal", "sig": 9, "keep": 0}, {"kind": "spawn_error", "err": "ENOENT"}])
    return o


PNAMES = ["strength", "covariance", "base", "alpha", "note", "kind", "eps"]


def gen(rng, session, i, tier):
    if i == 0:
        return {"rules": "B", "config": ["figure_tails", "figure_spiral", "benchmark_qualifiers", "figure_high_mi", "benchmark_ksg", "benchmark_neural_arch",
                                         "figure_sparsity", "benchmark_gaussianise"][session % 8]}
    rules = rng.pick(["A", "A", "B", "B", "C"])
    nt, ne, nn = rng.weighted([(1, 4), (2, 4), (3, 2)]), rng.weighted([(1, 3), (2, 4), (3, 2)]), rng.weighted([(1, 3), (2, 4), (3, 2)])
    ns = rng.sample([4, 6, 9], nn)
    ss = rng.sample([0, 1, 2, 17], rng.weighted([(1, 2), (2, 3), (3, 3), (4, 1)]))
    es = rng.sample(["KSG", "NN", "e 1", "CCA"], ne)
    sc = {"rules": rules, "tasks": [{"params": [[n, g_tree(rng)] for n in rng.sample(PNAMES, rng.randrange(0, 4))], "mi": rng.pick([0.0, 0.5, 1.0, 0.4463, 2.0])}
                                    for _ in range(nt)], "ests": es, "ns": ns, "seeds": ss}
    p_fail = rng.pick([0, 0.1, 0.5, 0.9])
    sc["runs"] = [[g_out(rng) if rng.chance(max(p_fail, 0.3)) else {"k": "value", "v": round(rng.frac() * 3 + 0.001, 6)}] + [t, e, n, s]
                  for t in range(nt) for e in range(ne) for n in range(nn) for s in range(len(ss))]
    sc["select"] = rng.pick([None, None, 0, nn - 1])
    return sc


def shrink(sc):
    for k, r in enumerate(sc.get("runs", [])):
        if r[0] != {"k": "value", "v": 1.0}:
            yield {**sc, "runs": sc["runs"][:k] + [[{"k": "value", "v": 1.0}] + r[1:]] + sc["runs"][k + 1:]}
    for k, t in enumerate(sc.get("tasks", [])):
        if t["params"]:
            yield {**sc, "tasks": sc["tasks"][:k] + [{**t, "params": t["params"][1:]}] + sc["tasks"][k + 1:]}


def tree(t):
    if "v" in t:
        v = t["v"]
        return float(v) if v in ("nan", "inf", "-inf") else v
    if "s" in t:
        return t["s"]
    if "np" in t:
        return np.array([t["np"], t["np"]]) if t["as"] == "array" else getattr(np, t["as"])(t["np"])
    if "l" in t:
        return [tree(x) for x in t["l"]]
    return {k: tree(x) for k, x in t["d"]}


def prepare(sim):
    from sim import jobs, snake
    jobs.install()
    snake.install(sim)


# ---------------------------------------------------------------- the real code

def module(sim, folder, name):
    from sim import session, snake
    key = ("module", folder, name)
    if key not in sim.shared:
        path = os.path.join(session.REPO, folder)
        snake.forget([name])
        sys.path.insert(0, path)
        try:
            sim.shared[key] = importlib.import_module(name)
        finally:
            sys.path.remove(path)
            snake.forget([name])
    return sim.shared[key]


def v2_table(sim):
    from sim import session, snake
    if "v2" not in sim.shared:
        sim.shared["v2"] = snake.Workflow(os.path.join(session.REPO, "workflows/projects/Mixtures/v2_results_table.smk")).ns
    return sim.shared["v2"]


def readers(sim, rules):
    a = module(sim, "workflows/benchmark", "_utils").read_results
    b = module(sim, "workflows/projects/Beyond_Normal", "_common_figure_utils").read_results
    c = v2_table(sim)["read_results"]
    return {"A": [("_utils", a), ("v2_results_table", c)], "B": [("_common_figure_utils", b)], "C": [("v2_results_table", c)]}[rules]


# ---------------------------------------------------------------- scripted runs

def make_run(sim, o, sample, tid, eid, seed):
    from bmi.benchmark import run_estimator
    from bmi.interface import EstimateResult
    from sim import fakeprog, proc
    from sim.props.runhist import build_external, make_exc
    info = tree(o["info"]) if o.get("info") else {}

    class Scripted:
        def estimate(self, x, y):
            if o["k"] == "fail":
                raise make_exc(o["exc"], o["text"])
            return float("nan") if o["k"] == "nan" else o["v"]

        def estimate_with_info(self, x, y):
            return EstimateResult(mi_estimate=self.estimate(x, y), additional_information=info, time_in_seconds=0.25)

        def parameters(self):
            return None

    est = build_external("r_ksg") if o["k"] == "ext" else Scripted()
    with proc.World(sim, fakeprog.programs(), [o["plan"]] if o["k"] == "ext" else []):
        return run_estimator(estimator=est, estimator_id=eid, sample_path=sample, task_id=tid, seed=seed)


def eq(a, b):
    """Deep equality after YAML: NaN equals NaN, sequences are lists."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and len(a) == len(b) and all(k in b and eq(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def normal(x):
    """What a YAML record of this value holds."""
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: normal(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [normal(v) for v in x]
    if hasattr(x, "item") and getattr(x, "ndim", None) == 0:
        return x.item()
    if hasattr(x, "tolist"):
        return x.tolist()
    return x


def run(sc, sim):
    import yaml
    from sim import session, snake
    from sim.fs import real_open
    root = os.path.join(sim.scratch, "work")
    os.mkdir(root)
    rules = sc["rules"]
    path = os.path.join(session.REPO, FILES[rules])
    old = os.getcwd()
    os.chdir(root)
    sim.nontrivial = True
    try:
        if sc.get("config"):
            ts, es, ns, seeds, runs, given = configured(sim, sc)
        else:
            ts, es, ns, seeds, runs, given = scripted(sim, sc)
        # every run on its own, by the real code
        recs = {}
        for o, t, e, n, s in runs:
            sample = os.path.join(sim.scratch, f"s{n}.csv")
            if not os.path.exists(sample):
                from sim.props.common import pair, write_csv
                write_csv(sample, *pair(n, n, 1, 1))
            r = make_run(sim, o, sample, t.id, e, s)
            p = f"results/{e}/{t.id}/{n}-{s}.yaml"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            r.dump(p)
            recs[e, t.id, n, s] = yaml.safe_load(real_open(p).read())
            if not r.success:
                sim.probe("failed_run")
                sim.fault("run_fails_" + o["k"])
        wf = lambda: snake.Workflow(path, given)
        inv = snake.Invocation(sim, wf, snake.Store(), ["results.csv"], mode="worker")
        inv.run()
        sim.check(not inv.failed, "aggregation-fails", lambda: f"{inv.failed[0][0]!r}: {inv.failed[0][1]!r}")
        for name, read in readers(sim, rules):
            check_reader(sim, sc, name, read, recs, {t.id: t for t in ts})
        if not sc.get("config"):
            check_tables(sim, sc, rules, recs, {t.id: t for t in ts}, ns)
    finally:
        os.chdir(old)


def scripted(sim, sc):
    from bmi.benchmark import Task
    from bmi.samplers import BivariateNormalSampler

    class Fixed(BivariateNormalSampler):
        def __init__(self, mi):
            super().__init__(0.5)
            self.fixed = mi

        def mutual_information(self):
            return self.fixed

    ts = [Task(Fixed(t["mi"]), f"t{k}-0.{k}", f"Task {k}", task_params={n: tree(v) for n, v in t["params"]}) for k, t in enumerate(sc["tasks"])]
    es = sc["ests"]
    have = {(t, e, n, s): o for o, t, e, n, s in sc["runs"]}
    runs = []
    for t in range(len(ts)):
        for e in range(len(es)):
            for n in range(len(sc["ns"])):
                for s in range(len(sc["seeds"])):
                    runs.append((have.get((t, e, n, s), {"k": "value", "v": 1.0}), ts[t], es[e], sc["ns"][n], sc["seeds"][s]))
    given = {"N_SAMPLES": list(sc["ns"]), "SEEDS": list(sc["seeds"])}
    d = {e: None for e in es}
    if sc["rules"] == "A":
        given.update(TASKS=ts, ESTIMATORS_DICT=d)
    elif sc["rules"] == "B":
        given.update(TASKS={t.id: t for t in ts}, ESTIMATORS=d)
    else:
        given.update(UNSCALED_TASKS={t.id: t for t in ts}, ESTIMATORS=d)
    return ts, es, sc["ns"], sc["seeds"], runs, given


def configured(sim, sc):
    """The tasks of a configuration of the repository, one sample size, two seeds."""
    from sim import session, snake
    snake.forget(["config", "_utils", "_common_figure_utils", "_high_mi_utils", "_sparsity_utils"])
    wf = snake.Workflow(os.path.join(session.REPO, f"workflows/projects/Beyond_Normal/{sc['config']}.smk"))
    ts = list(wf.ns["TASKS"].values())
    ts = [t for k, t in enumerate(ts) if k % max(1, len(ts) // 8) == 0]
    runs = [({"k": "value", "v": 0.5} if s else {"k": "fail", "exc": "ValueError", "text": "it's \"both\""}, t, "KSG", 5, s) for t in ts for s in (0, 1)]
    return ts, ["KSG"], [5], [0, 1], runs, {"TASKS": {t.id: t for t in ts}, "ESTIMATORS": {"KSG": None}, "N_SAMPLES": [5], "SEEDS": [0, 1]}


def tolerated(sim, sc, recs, ts):
    """Known finding: the table of the benchmark holds Python texts instead of YAML texts.  Where a
    cell is exactly that, it is replaced by the YAML text; anything else stays as it is."""
    import pandas as pd
    import yaml
    if sc["rules"] != "A" or not listed(sc, "results-table-repr"):
        return "results.csv"
    df = pd.read_csv("results.csv", dtype=str, keep_default_na=False)
    changed = False
    for k, row in df.iterrows():
        key = (row["estimator_id"], row["task_id"], int(row["n_samples"]), int(row["seed"]))
        if key not in recs:
            continue
        for col, d in (("additional_information", recs[key]["additional_information"]), ("task_params", ts[key[1]].params)):
            if row[col] == str(d):
                df.at[k, col] = yaml.safe_dump(normal(d), default_flow_style=True, width=10**9, allow_unicode=False)
                changed = True
    if not changed:
        return "results.csv"
    df.to_csv("results-yaml.csv", index=False)
    return "results-yaml.csv"


def read_table(sim, sc, read, recs, ts, **kw):
    return read(tolerated(sim, sc, recs, ts), **kw)


def check_reader(sim, sc, name, read, recs, ts):
    for kw in ({}, {"unpack_task_params": False}, {"unpack_task_params": False, "unpack_additional_information": True}):
        o = call(read_table, sim, sc, read, recs, ts, **kw)
        sim.check(o.ok, "unreadable", lambda: f"{name}.read_results({kw}) on {list(recs.values())}: {o!r}")
        df = o.value
        rows = [r for _, r in df.iterrows()]
        keys = [(r["estimator_id"], r["task_id"], int(r["n_samples"]), int(r["seed"])) for r in rows]
        sim.check(sorted(keys) == sorted(recs), "rows", lambda: f"{name}: rows {sorted(keys)}, records {sorted(recs)}")
        for key, r in zip(keys, rows):
            rec = recs[key]
            sim.check(bool(r["success"]) == rec["success"], "success", lambda: f"{name} {key}: success {r['success']}, record {rec['success']}")
            sim.check(eq(float(r["mi_estimate"]), rec["mi_estimate"]), "estimate", lambda: f"{name} {key}: {r['mi_estimate']}, record {rec['mi_estimate']}")
            sim.check(eq(float(r["mi_true"]), float(ts[key[1]].mutual_information)), "ground-truth", lambda: f"{name} {key}: {r['mi_true']}")
            info, params = rec["additional_information"], normal(ts[key[1]].params)
            if kw.get("unpack_additional_information"):
                bad = [k for k, v in info.items() if k not in r.index or not eq(normal(r[k]), v) and not (v is None and r[k] != r[k])]
                sim.check(not bad, "additional-information", lambda: f"{name} {key}: {bad}: {dict(r)}, record {info}")
            else:
                sim.check(eq(r["additional_information"], info), "additional-information", lambda: f"{name} {key}: {r['additional_information']!r}, record {info!r}")
            if kw.get("unpack_task_params", True):
                bad = [k for k, v in params.items() if k not in r.index or not eq(normal(r[k]), v) and not (v is None and r[k] != r[k])]
                sim.check(not bad, "parameters", lambda: f"{name} {key}: {bad}: {dict(r)}, task {params}")
            else:
                sim.check(eq(r["task_params"], params), "parameters", lambda: f"{name} {key}: {r['task_params']!r}, task {params!r}")
            sim.probe("rows_read_back")
    sim.event("read", name, len(recs))


def mean(xs):
    xs = [x for x in xs if x == x]
    return sum(xs) / len(xs) if xs else math.nan


def close(a, b):
    return (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(b))


def group(recs, e, t, n):
    return [r["mi_estimate"] for (e2, t2, n2, _), r in recs.items() if (e2, t2) == (e, t) and (n is None or n2 == n)]


def conv(recs, e, t, n):
    """[converged?] by run: not failed and at least a tenth of the best of its size."""
    out = []
    for m in sorted({k[2] for k in recs}) if n is None else [n]:
        xs = group(recs, e, t, m)
        top = max((x for x in xs if x == x), default=math.nan)
        out += [(x, x == x and x > 0.1 * top) for x in xs]
    return out


def check_tables(sim, sc, rules, recs, ts, ns):
    es, tids = sorted({k[0] for k in recs}), sorted(ts)
    sel = None if sc.get("select") is None else ns[min(sc["select"], len(ns) - 1)]
    n = max(ns) if sel is None else sel
    for name, read in readers(sim, rules):
        df = read_table(sim, sc, read, recs, ts, unpack_task_params=False)
        if name == "_utils":
            u = module(sim, "workflows/benchmark", "_utils")
            alt = [n, None] if listed(sc, "table-mixes-sizes") else [n]
            for only in (False, True):
                o = call(u.create_benchmark_table, df.copy(), n_samples=sel, converged_only=only)
                sim.check(o.ok, "table-fails", lambda: f"create_benchmark_table({sel}, {only}): {o!r}")
                tab = o.value.data
                for e in es:
                    for t in tids:
                        want = [mean(group(recs, e, t, m)) if not only else mean([x for x, c in conv(recs, e, t, m) if c]) for m in alt]
                        got = cell(tab, t, e)
                        sim.check(any(close(got, w) for w in want), "benchmark-table",
                                  lambda: f"n_samples={n} converged_only={only}: {e} on {t}: {got}, expected {want} from {group(recs, e, t, None)} (all sizes)")
                        sim.probe("table_cells_compared")
                for t in tids:
                    sim.check(close(cell(tab, t, "True MI"), float(ts[t].mutual_information)), "benchmark-table", lambda: f"True MI of {t}: {cell(tab, t, 'True MI')}")
            o = call(u.create_convergence_table, df.copy(), n_samples=sel)
            sim.check(o.ok, "table-fails", lambda: f"create_convergence_table({sel}): {o!r}")
            for e in es:
                for t in tids:
                    cs = [conv(recs, e, t, m) for m in alt]
                    want = [sum(c for _, c in x) / len(x) for x in cs]
                    got = cell(o.value.data, t, e)
                    sim.check(any(close(got, w) for w in want), "convergence-table", lambda: f"n_samples={n}: {e} on {t}: {got}, expected {want} from {cs}")
        elif name == "v2_results_table":
            o = call(v2_table(sim)["create_benchmark_table"], df.copy(), n)
            sim.check(o.ok, "table-fails", lambda: f"v2 create_benchmark_table({n}): {o!r}")
            for e in es:
                for t in tids:
                    xs = [x for x in group(recs, e, t, n) if x == x]
                    text = o.value.loc[t, e] if t in o.value.index and e in o.value.columns else None
                    ok = v2_cell(text, xs)
                    sim.check(ok, "latex-table", lambda: f"n_samples={n}: {e} on {t}: {text!r} from {xs} (all sizes: {group(recs, e, t, None)})")
                    sim.probe("table_cells_compared")
        else:
            check_figures(sim, sc, recs, ts, df, es, tids)
    sim.event("tables", n, len(es), len(tids))


def cell(tab, t, e):
    return float(tab.loc[t, e]) if t in tab.index and e in tab.columns else math.nan


def v2_cell(text, xs):
    if text is None or text != text:
        return not xs
    body = text.strip("$").split("\\pm")
    m, s = float(body[0]), float(body[1])
    if not xs:
        return m != m
    if abs(m - sum(xs) / len(xs)) > 0.0051:
        return False
    if len(xs) == 1:
        return True
    sd = float(np.std(xs, ddof=1))
    return sd - 1e-9 <= s + 0.0051 and s <= max(sd, 0) + 0.0151 or s == 0.01 and sd < 0.01


def check_figures(sim, sc, recs, ts, df, es, tids):
    """The heat maps of the article: arguments of the (stubbed) seaborn call."""
    import bmi.estimators as E
    m = module(sim, "workflows/projects/Beyond_Normal", "_common_figure_utils")
    neural = {"NN"}
    ests = {e: (E.InfoNCEEstimator(verbose=False) if e in neural else E.CCAMutualInformationEstimator()) for e in es}
    if set(es) == neural:
        return          # the figures always have other estimators
    names = {e: "name of " + e for e in es}

    class Ax:
        def __getattr__(self, n):
            return lambda *a, **k: None

    def heat(fn):
        sns = sys.modules["seaborn"]
        sns.calls.clear()
        o = call(fn, Ax(), df.copy(), ests, ts, names)
        sim.check(o.ok, "table-fails", lambda: f"{fn.__name__}: {o!r}")
        return sns.calls[-1]

    def fails(e, t, n):
        xs = group(recs, e, t, n)
        top = max((x for x in xs if x == x), default=math.nan)
        return [x for x in xs if x == x and not (e in neural and (x < 0 or x < 0.1 * top))]

    n = max(k[2] for k in recs)
    _, a, k = heat(m.plot_benchmark_mi_estimate)
    tab = k["annot"]
    for e in es:
        for t in tids:
            want = mean(fails(e, t, n))
            got = float(tab.loc[names[e], ts[t].name])
            sim.check(close(got, want), "figure-table", lambda: f"{e} on {t}: {got}, expected {want} from {group(recs, e, t, n)}")
            sim.probe("table_cells_compared")
    for t in tids:
        sim.check(close(float(tab.loc["True MI", ts[t].name]), float(ts[t].mutual_information)), "figure-table", lambda: f"True MI of {t}")
    if any(not fails(e, t, q) and e in neural for e in es for t in tids for q in {k[2] for k in recs}):
        return
    _, a, k = heat(m.plot_benchmark_n_samples)
    tab = a[0]
    top = max(k2[2] for k2 in recs)
    for e in es:
        for t in tids:
            mi = float(ts[t].mutual_information)
            ok = {}
            for q in sorted({k2[2] for k2 in recs}):
                with np.errstate(all="ignore"):
                    xs = [float(np.log(np.float64(x) / np.float64(mi))) for x in fails(e, t, q)]
                v = mean(xs)
                if v == v and abs(abs(v) - math.log(1.5)) < 1e-6:
                    return
                ok[q] = v == v and abs(v) < math.log(1.5)
            bad = [q for q in ok if not ok[q]]
            need = min((q for q in ok if not bad or q > max(bad)), default=math.inf)
            got = float(tab.loc[names[e], ts[t].name])
            sim.check(got == min(need, 100 * top), "needed-samples", lambda: f"{e} on {t}: needs {got}, expected {need} from {ok}")
