"""P21: the figure and study workflows converge to what their parts say."""
import csv
import inspect
import json
import math
import os

import numpy as np

from sim.props import ests
from sim.props.common import call
from sim.props.p17 import check_row, files_under, g_fault, read_csv, rows_of

TIERS = {"quick": {"sessions": 8, "episodes": 12}, "thorough": {"sessions": 32, "episodes": 60, "timeout": 1700}}
LISTS = ("invs",)
MIN_LEN = {"invs": 1}
OPTIONAL = ("fault", "delete", "preempts", "target", "more")
INFO = {
    "rule": "Each run: one of the study workflows of workflows/projects, with the sizes, seeds and numbers of draws made small, is executed by the simulated "
            "Snakemake in 1-4 invocations (random order of ready jobs, 1-4 at a time with switches at random lines, kills at random lines, storage faults "
            "at byte positions of any file, everything killed in the middle of a write, outputs deleted in between; only a part requested at first). The "
            "last invocation is undisturbed. Every data file and figure is compared with a reference execution in which each job sees nothing but its "
            "declared inputs; the reference itself is compared, number by number, with values computed directly from the distributions, tasks and "
            "estimators of the workflow.",
    "real": "the .smk files and their helper modules, distributions, samplers, tasks, estimators, lower bounds, run_estimator, matplotlib's axes",
    "stub": "Snakemake, rendering of figures (the content of the axes is written instead), seaborn, the PyPI package subplots_from_axsize, NUTS, R/Julia "
            "programs, storage faults, kills; sizes are overridden through the names the workflow files assign",
    "assumptions": ["Snakemake removes the outputs of failed jobs and repeats incomplete ones", "sections 'script:' are not executed"],
}
MIX, BN = "workflows/projects/Mixtures/", "workflows/projects/Beyond_Normal/"


class Proxy:
    """A module with some of its functions asked for less."""

    def __init__(self, mod, **over):
        self.__dict__["_mod"], self.__dict__["_over"] = mod, over

    def __getattr__(self, k):
        over = self.__dict__["_over"]
        return over[k] if k in over else getattr(self.__dict__["_mod"], k)


def fewer(fn, name, by):
    """fn with its argument ``name`` divided; what was asked for still decides how many there are."""
    sig = inspect.signature(fn)

    def f(*a, **k):
        b = sig.bind(*a, **k)
        if name in b.arguments:
            b.arguments[name] = max(3, b.arguments[name] // by)
        return fn(*b.args, **b.kwargs)
    return f


def small_bmm(m):
    over = {k: fewer(getattr(m, k), "n", 200) for k in ("monte_carlo_mi_estimate", "pmi_profile") if hasattr(m, k)}
    over["BMMSampler"] = lambda *a, **k: m.BMMSampler(*a, **{**k, "mi_estimate_sample": k.get("mi_estimate_sample", 100_000) // 200})
    return Proxy(m, **over)


def small_np(m):
    return Proxy(m, linspace=lambda a, b, n=50, **k: m.linspace(a, b, max(3, n // 150) if n > 1000 else n, **k))


def tiny(e):
    """The same kind of estimator, trained for a moment."""
    import bmi.estimators as E
    for cls in (E.InfoNCEEstimator, E.NWJEstimator, E.DonskerVaradhanEstimator, E.MINEEstimator):
        if type(e) is cls:
            return cls(batch_size=8, max_n_steps=5, test_every_n_steps=2, hidden_layers=(3,), verbose=False)
    return e


def only(*ids):
    def fn(d):
        keep = [k for k in ids if k in d] or sorted(d)[:2]
        return {k: tiny(d[k]) for k in keep}
    return fn


def simple(d):
    """The same names for quick estimators (all different)."""
    import bmi.estimators as E
    return {k: E.CCAMutualInformationEstimator() if k == "CCA" else E.HistogramEstimator(n_bins_x=3 + i) for i, k in enumerate(d)}


def neighbours(d):
    import bmi.estimators as E
    return {k: E.KSGEnsembleFirstEstimator(neighborhoods=(i + 1,)) for i, k in enumerate(list(d)[::2])}


def some(*pos, ordered=True):
    def fn(d):
        keys = list(d) if ordered else sorted(d)
        return {keys[p % len(keys)]: d[keys[p % len(keys)]] for p in pos}
    return fn


def A(fn):
    from sim.snake import Adapt
    return Adapt(fn)


# name -> (file, overrides per variant, targets per variant (None: the first rule), oracle)
def how(v):
    return {"N_POINTS": [[8, 6], [5]][v], "SEEDS": [[0, 1], [3, 10, 0]][v], "_N_SEEDS_GROUND_TRUTH": 2 + v, "ESTIMATORS": A(only(*[("NWJ", "MC"), ("InfoNCE", "DV")][v])), "bmm": A(small_bmm)}


def how_targets(v):
    s = ["Four_Balls_Biased", "Four_Balls_SinSquare"][v]
    return [f"{s}/ground_truth.json", f"{s}/estimates.csv", f"{s}/performance.pdf"] + (["Normal-25Dim/ground_truth.json"] if v else ["Four_Balls/ground_truth.json"])


def outliers(v):
    return {"ALPHAS": [[0.3, 0.1], [0.05, 0.5, 0.001]][v], "VARIANCES": [[0.5, 2.0], [0.25]][v], "SEEDS": [[0, 1], [2, 11]][v], "N_SAMPLES": [[40], [30]][v],
            "ESTIMATORS": A(only("KSG", "CCA")), "bmm": A(small_bmm)}


def gmm_fit(v):
    return {"N_MCMC_SAMPLES": [3, 11][v], "N_WARMUP": 2, "N_MC_PROFILE_SAMPLES": [40, 25][v]}


def core(v, **over):
    return {"N_SAMPLES": [[20], [25, 30]][v], "SEEDS": [[0, 1], [0, 2, 10]][v], **over}


def cool(v):
    return {"N_SAMPLES": [[30, 5000], [40, 7]][v], "SEEDS": [[0, 1], [0, 10]][v], "_SAMPLE_ESTIMATE": 300, "ESTIMATORS": A(simple)}


def bnl(pick):
    return lambda v: core(v, ESTIMATORS=A(only(*pick[v])), TASKS=A(some(0, 5 + v, ordered=False)))


MANY = [("R-KSG-I-10", "InfoNCE", "CCA"), ("Julia-Hist-10", "CCA")]
WFS = {
    "how_good": (MIX + "how_good_integration_is.smk", how, how_targets, "o_how"),
    "outliers": (MIX + "outliers.smk", outliers, lambda v: None, "o_outliers"),
    "fitting_gmm": (MIX + "fitting_gmm.smk", gmm_fit, lambda v: ["plots/AI-60-10.pdf", "plots/Galaxy-60-3.pdf"] if v == 0 else ["plots/X-30-2.pdf", "plots/Waves-25-2.pdf"], "o_fit"),
    "discrete": (MIX + "figure_discrete_continuous.smk", lambda v: {"bmm": A(small_bmm)}, lambda v: None, "o_discrete"),
    "profiles": (MIX + "pmi_profiles.smk", lambda v: {"bmi_tfp": A(small_bmm)}, lambda v: None, "o_profiles"),
    "pmi_1v1": (MIX + "pmi_plot_1v1.smk", lambda v: {"np": A(small_np)}, lambda v: None, "o_pmi_plot"),
    "distinct": (MIX + "distinct_profiles.smk", lambda v: {"n_samples": 30_000}, lambda v: None, "o_distinct"),
    "cool_tasks": (MIX + "cool_tasks.smk", cool, lambda v: None, "o_core"),
    "bmm_vs_other": (MIX + "figure_bmm_vs_other.smk", lambda v: {}, lambda v: None, "o_bmm_vs"),
    "high_mi": (BN + "figure_high_mi.smk", lambda v: core(v, ESTIMATORS=A(only(*MANY[v])), TASKS=A(some(4, 1, 17, 9 + v))), lambda v: None, "o_core"),
    "sparsity": (BN + "figure_sparsity.smk", lambda v: core(v, ESTIMATORS=A(only(*MANY[1 - v])), TASKS=A(some(11 + v, 4, 0))), lambda v: None, "o_core"),
    "spiral": (BN + "figure_spiral.smk", lambda v: core(v, ESTIMATORS=A(only(*MANY[v])), TASKS=A(some(3, 6, v))), lambda v: ["figures/performance.pdf"], "o_core"),
    "tails": (BN + "figure_tails.smk", lambda v: core(v, ESTIMATORS=A(only(*MANY[1 - v])), TASKS=A(some(4 + v, 0, 15, 12))), lambda v: None, "o_core"),
    "benchmark": (BN + "benchmark.smk", bnl(MANY), lambda v: None, "o_core"),
    "ksg": (BN + "benchmark_ksg.smk", bnl([("KSG-5", "R-KSG-II-5"), ("Julia-KSG-I-5", "R-LNN-5-30")]), lambda v: None, "o_core"),
    "neural_arch": (BN + "benchmark_neural_arch.smk", lambda v: core(v, ESTIMATORS=A(neighbours), TASKS=A(some(2, 7 + v, ordered=False))), lambda v: ["figures/mi_estimate.pdf", "results.csv"], "o_core"),
    "qualifiers": (BN + "benchmark_qualifiers.smk", bnl([("R-BNSL", "Julia-Kernel"), ("Julia-Transfer-30", "R-LNN")]), lambda v: None, "o_core"),
    "gaussianise": (BN + "benchmark_gaussianise.smk", bnl(MANY[::-1]), lambda v: None, "o_core"),
    "uniformise": (BN + "benchmark_uniformise.smk", bnl(MANY[::-1]), lambda v: None, "o_core"),
    "tasks": (BN + "figure_visualise_tasks.smk", lambda v: {"TASK_IDS": A(lambda l: [l[3], l[10 + v], l[-1]])}, lambda v: None, "o_tasks"),
    "pointwise": (BN + "figure_visualise_pointwise_mi.smk", lambda v: {"bmi": A(small_bmi), "jnp": A(small_grid)}, lambda v: None, "o_pointwise"),
}
QUICK = ["how_good:0 tails:0 tails:0 how_good:0 tails:0 sparsity:0", "outliers:0 bmm_vs_other:0 spiral:1 bmm_vs_other:0 outliers:0 high_mi:1",
         "fitting_gmm:0 ksg:0 fitting_gmm:0 ksg:0 ksg:0", "profiles:0 bmm_vs_other:1 ksg:1 profiles:0 ksg:1 profiles:0 tails:0", "distinct:0 high_mi:1 distinct:0 high_mi:1 high_mi:1",
         "discrete:0 gaussianise:0 tasks:0 gaussianise:0 tasks:1 sparsity:0 uniformise:0", "pmi_1v1:0 pointwise:0 neural_arch:0 pmi_1v1:0 pointwise:0 neural_arch:0 neural_arch:0",
         "benchmark:0 cool_tasks:1 spiral:1 qualifiers:0 spiral:1 qualifiers:0 sparsity:0 uniformise:0 spiral:1 benchmark:0"]
QUICK = [q.split() for q in QUICK]


def small_bmi(m):
    E = m.estimators

    class Small(E.InfoNCEEstimator):
        def __init__(self, *a, **k):
            super().__init__(*a, **{"batch_size": 32, "max_n_steps": 6, "test_every_n_steps": 3, "hidden_layers": (3,), "verbose": False, **k})

        def estimate(self, x, y):
            return super().estimate(x[:200], y[:200])
    return Proxy(m, estimators=Proxy(E, InfoNCEEstimator=Small))


def small_grid(m):
    return Proxy(m, linspace=lambda a, b, n=50, **k: m.linspace(a, b, max(3, n // 8), **k))


def gen(rng, session, i, tier):
    if tier == "quick":
        name, v = QUICK[session % 8][i % len(QUICK[session % 8])].split(":")
        sc = {"wf": name, "v": int(v)}
    else:
        names = list(WFS)
        sc = {"wf": names[(session + 11 * (i // 6 % 3)) % len(names)], "v": (session // len(names) + i // 18) % 2}
    n = rng.weighted([(1, 1), (2, 5), (3, 4), (4, 2)])
    invs = []
    for k in range(n):
        v = {"order": rng.randrange(10**6), "cores": rng.weighted([(1, 4), (2, 3), (3, 2), (4, 1)]), "mode": "worker", "keep_going": rng.chance(0.6)}
        v["preempts"] = sorted([rng.log_int(1, 6000), rng.randrange(4)] for _ in range(rng.log_int(1, 40))) if v["cores"] > 1 else []
        if k < n - 1:
            v["fault"] = g_fault(rng, True, 40)
            if v["fault"] and v["fault"]["k"] == "fs":
                v["fault"]["match"] = rng.pick(["", "", ".npz", ".json", ".csv", ".pdf", ".yaml", "seeds", "sample"])
                if v["fault"]["op"] in ("read", "openr") and v["fault"]["match"] == "":
                    v["fault"]["match"] = ".npz"
                v["fault"]["nth"] = rng.log_int(1, 20) - 1
            if v["fault"] and v["fault"]["k"] == "kill":
                v["fault"]["at"] = rng.log_int(1, 120)
            if rng.chance(0.3):
                v["more"] = True                        # settings with further sizes and seeds
            elif rng.chance(0.35):
                v["target"] = round(rng.frac(), 4)      # only some file is asked for
        if k and rng.chance(0.5):
            v["delete"] = [round(rng.frac(), 4) for _ in range(rng.randrange(1, 5))]
        invs.append(v)
    sc["invs"] = invs
    return sc


def shrink(sc):
    for k, v in enumerate(sc.get("invs", [])):
        for change in ({"cores": 1, "preempts": []}, {"target": None}, {"preempts": v.get("preempts", [])[: len(v.get("preempts", [])) // 2]}):
            if any(v.get(a) != b for a, b in change.items()):
                yield {**sc, "invs": sc["invs"][:k] + [{**v, **change}] + sc["invs"][k + 1:]}


def prepare(sim):
    from sim import figs, jobs, snake
    from sim.props import mcmc
    jobs.install()
    snake.install(sim)
    figs.install(sim)
    mcmc.install()


# ---------------------------------------------------------------- executing

MORE = {"SEEDS": lambda l: [7] + l, "N_SAMPLES": lambda l: l + [15], "N_POINTS": lambda l: [4] + l, "ALPHAS": lambda l: [0.2] + l, "VARIANCES": lambda l: l + [4.0],
        "_N_SEEDS_GROUND_TRUTH": lambda n: n + 1}


class Missing(Exception):
    """The workflow does not have a name this simulation relies on."""


def loader(sim, sc, more=False):
    """more: the settings of an earlier time, with further sizes and seeds"""
    from sim import session, snake
    from sim.props import mcmc
    file, over, targets, _ = WFS[sc["wf"]]
    path = os.path.join(session.REPO, file)

    def load():
        snake.forget(["config", "_utils", "example_distributions", "_common_figure_utils", "_high_mi_utils", "_sparsity_utils"])
        mcmc.install()
        o = over(sc["v"])
        if more:
            o.update({k: MORE[k](x) for k, x in o.items() if k in MORE})
        wf = snake.Workflow(path, overrides=o)
        for k in o:
            if k not in wf.ns:
                raise Missing(k)
        return wf
    return load, targets(sc["v"])


class Settings:
    """Global settings that a workflow file may change (it has a process of its own)."""

    def __enter__(self):
        import jax
        self.x64 = jax.config.jax_enable_x64
        self.cwd = os.getcwd()

    def __exit__(self, *a):
        import jax
        import matplotlib.pyplot as plt
        jax.config.update("jax_enable_x64", self.x64)
        os.chdir(self.cwd)
        plt.close("all")


class Quiet:
    """No events: what is computed once per session is not part of a run."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.sim.event = lambda *a: None

    def __exit__(self, *a):
        del self.sim.event


def world(sim, perm):
    from sim import fakeprog, jobs, proc
    return proc.World(sim, fakeprog.programs(), []), jobs.JobControl(sim, perm=perm)


def given_files(sc, root):
    """Files that a workflow takes from other workflows."""
    if sc["wf"] != "bmm_vs_other":
        return
    rng = np.random.default_rng(5 + sc["v"])
    ids = ['1v1-AI', 'mult-sparse-w-inliers-5-5-2-2.0-0.2', '5v1-concentric_gaussians-5', 'multinormal-sparse-5-5-2-2.0', 'other']
    a, b = os.path.join(root, "generated/benchmark/v2/results.csv"), os.path.join(root, "generated/projects/Mixtures/gmm_benchmark/results.csv")
    for p in (a, b):
        os.makedirs(os.path.dirname(p))
    with open(a, "w") as f:
        w = csv.writer(f)
        w.writerow(["estimator_id", "task_id", "n_samples", "seed", "mi_estimate", "mi_true"])
        for k in rng.permutation(5 * 3 * 2 * 3):
            t, e, n, s = ids[k // 18], ["KSG-10", "InfoNCE", "MINE"][k // 6 % 3], [1000, 5000][k // 3 % 2], k % 3
            w.writerow([e, t, n, s, round(float(rng.normal()), 6) if k % 17 else "", 0.25 + ids.index(t)])
    with open(b, "w") as f:
        w = csv.writer(f)
        w.writerow(["task_id", "estimator_id", "seed", "mi_mean", "mi_q_low", "mi_q_high"])
        for k in rng.permutation(15):
            m = round(float(rng.normal()), 6)
            w.writerow([ids[k // 3], "GMM", k % 3, m, m - 0.125 * (1 + k), m + 0.25 * (1 + k)])


def canon(path):
    from sim.fs import real_open
    with real_open(path, "rb") as f:
        raw = f.read()
    if path.endswith(".npz"):
        with np.load(path) as z:
            return {k: np.asarray(z[k]).tolist() for k in z.files}
    if path.endswith((".json", ".pdf")):
        d = json.loads(raw)
        if "cool_tasks-results" in path:       # random jitter along the x axis
            for a in d["axes"]:
                for p in a["points"]:
                    p["xy"] = [q[1] for q in p["xy"]]
                a["xlim"] = None
        return d
    if path.endswith(".csv"):
        rows = list(csv.reader(raw.decode().splitlines()))
        if rows and "time_in_seconds" in rows[0]:
            k = rows[0].index("time_in_seconds")
            rows = [r[:k] + r[k + 1:] for r in rows]
        return rows
    if path.endswith(".yaml"):
        import yaml
        d = yaml.safe_load(raw)
        if isinstance(d, dict):
            d.pop("time_in_seconds", None)
        return d
    return raw


def alike(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a != b:
        try:
            a, b = float(a), float(b)
        except ValueError:
            return False
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b or a != a and b != b or abs(a - b) <= 1e-4 * max(1e-3, abs(a), abs(b))
    return a == b


def reference(sim, sc):
    """({file: content}, wanted files) of an undisturbed execution, checked against direct computation."""
    from sim import snake
    cache = sim.shared.setdefault("p21", {})
    key = (sc["wf"], sc["v"])
    if key in cache:
        return cache[key]
    root = os.path.join(sim.scratch, "reference")
    os.mkdir(root)
    load, targets = loader(sim, sc)
    with Quiet(sim), Settings():
        given_files(sc, root)
        os.chdir(root)
        w, j = world(sim, [0, 1, 2])
        with w, j:
            inv = snake.Invocation(sim, load, snake.Store(), targets or (), mode="worker", isolate=True)
            try:
                inv.plan()
            except snake.WorkflowError as e:
                sim.fail("job-graph", f"{sc['wf']}: {e}")
            if len(inv.todo) > 400:
                raise Missing("jobs")
            inv.run()
            sim.check(not inv.failed, "undisturbed-job-fails", lambda: f"{sc['wf']}: {inv.failed[0][0]!r}, given its inputs alone, failed: {inv.failed[0][1]!r}")
            left = [p for p in inv.wanted if not os.path.exists(p)]
            sim.check(not left, "incomplete", lambda: f"{sc['wf']}: finished without {left}")
            check = globals()[WFS[sc["wf"]][3]]
            try:
                check(sim, sc, inv.wf.ns, inv)
            except Missing as e:
                sim.probe(f"not compared directly: {e}")
            files = {p: canon(p) for p in files_under(root)}
    cache[key] = files, list(inv.wanted)
    sim.probe("workflows_compared_with_direct_computation")
    return cache[key]


def run(sc, sim):
    from sim import fs as simfs, session, snake
    if not os.path.exists(os.path.join(session.REPO, WFS[sc["wf"]][0])):
        return
    try:
        ref, wanted = reference(sim, sc)
    except Missing as e:
        sim.probe(f"not simulated: {e}")
        return
    root = os.path.join(sim.scratch, "work")
    os.mkdir(root)
    given_files(sc, root)
    kept = set(files_under(root))
    store = snake.Store()
    fs = simfs.FS(sim, root)
    earlier = set()
    with Settings():
        os.chdir(root)
        w, j = world(sim, [1, 0, 2])
        with w, j, fs:
            last = len(sc["invs"]) - 1
            for k, v in enumerate(sc["invs"]):
                for f in v.get("delete") or []:
                    have = [p for p in files_under(root) if p not in kept]
                    if have:
                        victim = have[min(len(have) - 1, int(f * len(have)))]
                        os.unlink(victim)
                        store.mtime.pop(victim, None)
                        sim.probe("output_deleted_by_the_user")
                load, targets = loader(sim, sc, bool(v.get("more")) and k < last)
                inv = invocation(sim, sc, v, load, targets, store, fs, ref, k == last)
                if v.get("more") and k < last:
                    sim.probe("earlier_settings_with_more_files")
                    earlier |= set(inv.by_output)
            have = {p for p in files_under(root) if p in ref or p not in earlier}
            left = [p for p in wanted if p not in have]
            sim.check(not left, "incomplete", lambda: f"finished without {left}")
            for p in sorted(have):
                sim.check(p in ref, "unexpected-file", lambda: f"{p} is left, although an undisturbed execution does not create it")
                got = canon(p)
                sim.check(alike(got, ref[p]), "content", lambda: f"{p} differs from an undisturbed execution: {differ(got, ref[p])}")
                sim.probe("files_compared")
            sim.event("files", sorted(have))


def differ(a, b, at=""):
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if not alike(a[k], b[k]):
                return differ(a[k], b[k], f"{at}/{k}")
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if not alike(x, y):
                return differ(x, y, f"{at}/{k}")
    return f"at {at or 'top'}: {str(a)[:200]} instead of {str(b)[:200]}"


def invocation(sim, sc, v, load, targets, store, fs, ref, final):
    from sim import snake
    from sim.core import SimCrash
    from sim.rng import Rng
    f = None if final else v.get("fault")
    inject = None
    fs.set_plans([])
    if f and f["k"] == "fs":
        fs.set_plans([{k: x for k, x in f.items() if k != "k" and (k != "match" or x)}])
    elif f and f["k"] == "kill":
        cls = {"SimCrash": SimCrash, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}[f["exc"]]
        inject = {"job": f["job"], "at": f["at"], "make": cls, "kind": "job_" + f["exc"]}
    r = Rng(v["order"])

    def pick(ready, k):
        return ready[r.randrange(len(ready))]
    if v.get("target") is not None and not final:
        made = sorted(ref)
        targets = [made[min(len(made) - 1, int(v["target"] * len(made)))]]
    inv = snake.Invocation(sim, load, store, targets or (), cores=v["cores"], pick=pick, preempts=v.get("preempts") or [], keep_going=v["keep_going"] or final,
                           mode=v["mode"], inject=inject, fs=fs)
    inv.run()
    fs.set_plans([])
    if fs.restore_after_crash():
        inv.dead = True
        sim.probe("whole_workflow_killed")
    for _ in inv.failed:
        sim.probe("job_failed")
    sim.event("invocation", len(inv.done), len(inv.failed), inv.dead)
    if final:
        sim.check(not inv.failed, "undisturbed-job-fails", lambda: f"{inv.failed[0][0]!r} failed without any fault: {inv.failed[0][1]!r}")
    sim.nontrivial = True
    return inv


# ---------------------------------------------------------------- direct computation

def need(ns, *names):
    for n in names:
        if n not in ns:
            raise Missing(n)
    return [ns[n] for n in names]


def npz(path):
    with np.load(path, allow_pickle=True) as z:
        return {k: np.asarray(z[k]) for k in z.files}


def js(path):
    from sim.fs import real_open
    with real_open(path) as f:
        return json.load(f)


def near(sim, got, want, what, tol=1e-4):
    a, b = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    ok = a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * max(1.0, float(np.max(np.abs(b[np.isfinite(b)]), initial=0.0))), equal_nan=True)
    sim.check(ok, "content", lambda: f"{what}: {short(a)}, computed directly {short(b)}")
    sim.probe("values_compared_directly")


def short(a):
    return f"{np.asarray(a).shape} {np.asarray(a).ravel()[:6].tolist()}"


def key(seed):
    import jax
    return jax.random.PRNGKey(seed)


def arr(x):
    return np.asarray(x, dtype=np.float64)


def mc(dist, n, k):
    """(mean of the PMI, standard error) over n fresh points."""
    x, y = dist.sample(n, k)
    p = arr(dist.pmi(x, y))
    return p.mean(), p.std() / math.sqrt(n), p


def logsumexp(a, axis):
    m = a.max(axis=axis, keepdims=True)
    return (m + np.log(np.exp(a - m).sum(axis=axis, keepdims=True))).squeeze(axis)


def bound(name, f, x, y):
    """Value of a lower bound with critic f, from its definition (negatives of NWJ and DV: all pairs of different points)."""
    n = len(x)
    T = np.array([[float(v) for v in arr(f(np.repeat(x[i:i + 1], n, axis=0), y)).ravel()] for i in range(n)])
    joint = np.diag(T)
    if name == "MC":
        return joint.mean()
    if name == "InfoNCE":
        return (joint - logsumexp(T, 1)).mean() + math.log(n)
    if name == "NWJ":
        return (joint + 1).mean() - np.exp(T[~np.eye(n, dtype=bool)]).mean()
    if name == "DV":
        return joint.mean() - math.log(np.exp(T[~np.eye(n, dtype=bool)]).mean())
    raise Missing("bound " + name)


def lines(ax, style=None):
    return [l for l in ax["lines"] if style is None or l["style"] == style]


def o_how(sim, sc, ns, inv):
    dists, names, points, seeds, gts = need(ns, "DISTRIBUTION_AND_PMIS", "ESTIMATORS", "N_POINTS", "SEEDS", "_N_SEEDS_GROUND_TRUTH")
    done = {p for j in inv.done for p in j.outputs}
    for s, d in dists.items():
        vals = {}
        if f"{s}/estimates.csv" in done:
            for n in points:
                for seed in seeds:
                    x, y = d.dist.sample(n, key(seed))
                    z = npz(f"{s}/samples/{n}-{seed}.npz")
                    near(sim, z["xs"], arr(x), f"{s}, {n} points, seed {seed}: sample")
                    near(sim, z["ys"], arr(y), f"{s}, {n} points, seed {seed}: sample")
                    for e in names:
                        want = bound(e, d.pmi, np.asarray(x), np.asarray(y))
                        got = js(f"{s}/estimates/{e}/{n}-{seed}.json")
                        near(sim, got["estimate"], want, f"{s}/{e}/{n}-{seed}", 1e-3)
                        sim.check((got["estimator"], got["setup"], got["n_points"]) == (e, s, n), "labels", lambda: f"{s}/{e}/{n}-{seed}: {got}")
                        vals.setdefault((e, n), []).append(got["estimate"])
            rows = rows_of(f"{s}/estimates.csv")
            table = {}
            for r in rows:
                sim.check(r["setup"] == s, "rows", lambda: f"{s}/estimates.csv has {r}")
                table.setdefault((r["estimator"], int(r["n_points"])), []).append(float(r["estimate"]))
            sim.check(table.keys() == vals.keys(), "rows", lambda: f"{s}/estimates.csv: {sorted(table)} instead of {sorted(vals)}")
            for k in vals:
                near(sim, sorted(table[k]), sorted(vals[k]), f"{s}/estimates.csv {k}")
        if f"{s}/ground_truth.json" in done:
            g = js(f"{s}/ground_truth.json")
            each = [mc(d.dist, 100_000 // 200, key(q))[:2] for q in range(gts)]
            aggregate(sim, s, g, each)
        if f"{s}/performance.pdf" in done:
            ax, = js(f"{s}/performance.pdf")["axes"]
            plotted_estimates(sim, s, ax, vals, points, list(names), g["mi_mean"])
    if "how_good_integration_is.pdf" in done:
        sim.probe("publication_figure_made")


def aggregate(sim, what, g, each):
    near(sim, g["mi_mean"], np.mean([e[0] for e in each]), f"{what}: mean over the seeds")
    near(sim, g["mi_std"], np.std([e[0] for e in each], ddof=1), f"{what}: deviation over the seeds", 1e-3)
    near(sim, g["mi_stderr_mean"], np.mean([e[1] for e in each]), f"{what}: mean standard error", 2e-2)      # the divisor (n or n - 1) is P11's matter
    near(sim, sorted(q["mi"] for q in g["samples"]), sorted(e[0] for e in each), f"{what}: list of seeds")


def plotted_estimates(sim, what, ax, vals, points, names, truth):
    """One line per estimator through its means, a band of one standard deviation, the truth dotted."""
    xs = sorted(points)
    solid, dotted = lines(ax, "-"), lines(ax, ":")
    want = {e: ([float(np.mean(vals[e, n])) for n in xs], [float(np.std(vals[e, n], ddof=1)) for n in xs]) for e in names}
    got = sorted([l["y"] for l in solid])
    sim.check(len(got) == len(names) and all(l["x"] == [float(x) for x in xs] for l in solid), "figure", lambda: f"{what}: lines {solid}")
    near(sim, got, sorted(w[0] for w in want.values()), f"{what}: means in the figure", 1e-3)
    for p in ax["points"]:
        sim.check(p["label"] in want, "figure", lambda: f"{what}: label {p['label']!r}")
        near(sim, [q[1] for q in p["xy"]], want[p["label"]][0], f"{what}: {p['label']} in the figure", 1e-3)
    spread(sim, what, ax, [{n: (m, s) for n, m, s in zip(xs, *want[e])} for e in want])
    sim.check(len(dotted) == 1, "figure", lambda: f"{what}: {len(dotted)} dotted lines")
    near(sim, dotted[0]["y"], [truth] * 2, f"{what}: true value in the figure")


def o_outliers(sim, sc, ns, inv):
    setups, alphas, seeds, cov = need(ns, "CHANGE_MIXING_SETUPS", "ALPHAS", "SEEDS", "signal_cov_matrix")
    n = 100_000 // 200
    truth = {}
    for s, d in setups.items():
        x, y = d.dist_true.sample(50, key(9))
        for alpha in alphas:
            m = d.mixture(alpha=alpha)
            want = np.log((1 - alpha) * np.exp(arr(d.dist_true.dist_joint.log_prob(np.hstack([x, y])))) + alpha * np.exp(arr(d.dist_noise.dist_joint.log_prob(np.hstack([x, y])))))
            near(sim, arr(m.dist_joint.log_prob(np.hstack([x, y]))), want, f"{s}: density of the mixture with {alpha}", 1e-3)
            g = js(f"{s}/_mixed_ground_truth/summaries/{alpha}.json")
            sim.check(g["mixing"] == alpha, "labels", lambda: f"{s}/{alpha}: {g['mixing']}")
            aggregate(sim, f"{s}/{alpha}", g, [mc(m, n, key(q))[:2] for q in seeds])
            truth[s, alpha] = g
        g = js(f"{s}/signal.json")
        aggregate(sim, f"{s}/signal", g, [mc(d.dist_true, n, key(q))[:2] for q in range(ns.get("N_SEEDS_GROUND_TRUTH", 2))])
        c = arr(cov)
        mi = 0.5 * (np.linalg.slogdet(c[:2, :2])[1] + np.linalg.slogdet(c[2:, 2:])[1] - np.linalg.slogdet(c)[1])
        near(sim, g["mi_analytic"], mi, f"{s}: analytic mutual information of the signal")
    g = js("parameters.json")
    near(sim, g["signal_covariance"], arr(cov), "parameters.json")
    near(sim, g["signal_mutual_information"], mi, "parameters.json")
    near(sim, js("covariance_heatmap.pdf")["axes"][0]["heat"][0], arr(cov), "covariance_heatmap.pdf")
    rows = o_core(sim, sc, ns, inv)
    axes = js("outliers_plot.pdf")["axes"]
    for ax, s in zip(axes, ("Gauss-Inlier", "Gauss-Outlier")):
        dotted, = lines(ax, ":")
        near(sim, dotted["x"], sorted(alphas), f"outliers_plot, {s}: contamination")
        near(sim, dotted["y"], [truth[s, a]["mi_mean"] for a in sorted(alphas)], f"outliers_plot, {s}: true values")
        for p in ax["points"]:
            want = [np.mean([float(r["mi_estimate"]) for r in rows if r["estimator_id"] == p["label"] and r["task_id"] == f"mixing-{s}-{a}"]) for a in sorted(alphas)]
            near(sim, p["xy"], np.stack([sorted(alphas), want], 1), f"outliers_plot, {s}: {p['label']}")
        sim.check(sorted(p["label"] for p in ax["points"]) == sorted(ns["ESTIMATORS"]), "figure", lambda: f"outliers_plot, {s}: {[p['label'] for p in ax['points']]}")
    ax = axes[2]
    var = sorted(ns["VARIANCES"])
    for p in ax["points"]:
        want = [np.mean([float(r["mi_estimate"]) for r in rows if r["estimator_id"] == p["label"] and r["task_id"] == f"variance-{a}"]) for a in var]
        near(sim, p["xy"], np.stack([var, want], 1), f"outliers_plot, variance: {p['label']}")
    near(sim, lines(ax, ":")[0]["y"], [float(ns["VARIANCE_TASKS"][f"variance-{a}"].mutual_information) for a in ns["VARIANCES"]], "outliers_plot, variance: true values")


def o_core(sim, sc, ns, inv):
    """results.csv of a benchmark, and what can be said about the tasks of the particular study."""
    es, ts, sizes, seeds = need(ns, "ESTIMATORS", "TASKS", "N_SAMPLES", "SEEDS")
    rows = rows_of("results.csv")
    keys = [(r["estimator_id"], r["task_id"], int(r["n_samples"]), int(r["seed"])) for r in rows]
    want = {(e, t, n, s) for e in es for t in ts for n in sizes for s in seeds}
    sim.check(len(keys) == len(set(keys)) and set(keys) == want, "rows", lambda: f"rows {sorted(set(keys) ^ want)} missing or superfluous, or repeated")
    drawn = {}
    for k, r in zip(keys, rows):
        t = ts[k[1]]
        sim.check(t.id == k[1], "configuration", lambda: f"task {t.id!r} is listed as {k[1]!r}")
        if k[1:] not in drawn:
            x, y = t.sample(k[2], k[3])
            head, a = read_csv(f"tasks/{t.id}/{k[2]}-{k[3]}.csv")
            both = np.concatenate([arr(x), arr(y)], axis=1)
            near(sim, a, both, f"sample of {k[1:]}", 1e-5)
            dx = both.shape[1] - arr(y).shape[1]
            drawn[k[1:]] = a[:, :dx], a[:, dx:]
        near(sim, float(r["mi_true"]), float(t.mutual_information), f"{k}: mi_true", 1e-5)
        o = call(es[k[0]].estimate, *drawn[k[1:]])
        sim.check((r["success"] == "True") == o.ok, "success-flag", lambda: f"{k}: success {r['success']}, alone {o!r}")
        if o.ok:
            near(sim, float(r["mi_estimate"]), float(o.value), f"{k}: estimate", 1e-4)
    wf = sc["wf"]
    if wf == "high_mi":
        for t in ns["TASK_LIST"]:
            near(sim, float(t.mutual_information), t.params["desired_mi"], f"{t.id}: mutual information against the axis of the figure", 1.1e-4)
        sim.check({(t.params["family_name"], t.params["desired_mi"]) for t in ns["TASK_LIST"]} >= {(f, m) for f in ns["DISTRIBUTION_FAMILIES"] for m in ns["DESIRED_MUTUAL_INFORMATION"] if m < 4},
                  "configuration", lambda: f"tasks {[t.params for t in ns['TASK_LIST']]}")
        for ax, fam in zip(js("figure_high_mi.pdf")["axes"], sorted({ts[k[1]].params["family_name"] for k in keys})):
            sim.check(ax["title"] == fam, "figure", lambda: f"{ax['title']} instead of {fam}")
            drawn_mi(sim, f"figure_high_mi, {fam}", ax, [(r, ts[r["task_id"]].params["desired_mi"]) for r in rows if ts[r["task_id"]].params["family_name"] == fam])
    if wf == "sparsity":
        for t in ns["TASK_LIST"]:
            near(sim, float(t.mutual_information), ns["DESIRED_MUTUAL_INFORMATION"], f"{t.id}: mutual information", 1.1e-4)
        axes = js("figures/sparsity.pdf")["axes"]
        low = [(r, ts[r["task_id"]].params) for r in rows if r["success"] == "True" and float(r["mi_estimate"]) < 3.0]
        drawn_mi(sim, "figures/sparsity, alpha", axes[0], [(r, p["alpha"]) for r, p in low if p["n_interacting"] == ns["DIM"]])
        drawn_mi(sim, "figures/sparsity, interactions", axes[1], [(r, p["n_interacting"]) for r, p in low if p["alpha"] == 0])
    if wf == "spiral":
        for t in ns["TASK_LIST"]:
            near(sim, float(t.mutual_information), -0.5 * math.log(1 - t.params["correlation"] ** 2), f"{t.id}: mutual information", 1e-4)
        low = [(r, ts[r["task_id"]].params["speed"]) for r in rows if r["success"] == "True" and float(r["mi_estimate"]) < 3.0]
        drawn_mi(sim, "figures/performance", js("figures/performance.pdf")["axes"][0], low)
    if wf == "tails":
        low = [(r, ts[r["task_id"]].params) for r in rows if r["success"] == "True" and float(r["mi_estimate"]) < 3.0]
        axes = js("figures/tails.pdf")["axes"]
        drawn_mi(sim, "figures/tails, exponent", axes[0], [(r, float(p["alpha"])) for r, p in low if "alpha" in p])
        drawn_mi(sim, "figures/tails, degrees of freedom", axes[1], [(r, float(p["dof"])) for r, p in low if "dof" in p])
    return rows


def drawn_mi(sim, what, ax, rows):
    """The lines of one axis: means of the estimates of each estimator at each place, and the truth."""
    places = sorted({x for _, x in rows})
    found = {l["label"]: l for l in ax["lines"]}
    groups = {}
    for r, x in rows:
        if r["mi_estimate"] != "":
            groups.setdefault(r["estimator_id"], {}).setdefault(x, []).append(float(r["mi_estimate"]))
    truth = found.pop("True MI", None)
    sim.check(truth is not None and len(found) == len(groups), "figure", lambda: f"{what}: lines {list(found)} for {list(groups)}")
    near(sim, truth["x"], places, f"{what}: places", 1e-3)
    near(sim, truth["y"], [np.mean([float(r["mi_true"]) for r, x in rows if x == p]) for p in places], f"{what}: true values")
    want = sorted([[float(x), float(np.mean(v))] for x, v in sorted(g.items())] for g in groups.values())
    got = sorted([[a, b] for a, b in zip(l["x"], l["y"]) if b == b] for l in found.values())
    sim.check(len(want) == len(got) and all(len(a) == len(b) for a, b in zip(want, got)), "figure", lambda: f"{what}: {got}, computed directly {want}")
    for a, b in zip(want, got):
        near(sim, b, a, f"{what}: means", 1e-3)
    spread(sim, what, ax, [{x: (float(np.mean(v)), float(np.std(v, ddof=1))) for x, v in g.items() if len(v) > 1} for g in groups.values()])


def spread(sim, what, ax, groups):
    """The shaded areas of one axis: mean plus and minus standard deviation at each place."""
    want = sorted([[float(x), m - s, m + s] for x, (m, s) in sorted(g.items())] for g in groups if g)
    got = []
    for area in ax["areas"]:
        at = {}
        for poly in area:
            for x, y in poly:
                at.setdefault(round(x, 6), []).append(y)
        got.append([[x, min(v), max(v)] for x, v in sorted(at.items())])
    got = sorted(g for g in got if g)
    sim.check(len(want) == len(got) and all(len(a) == len(b) for a, b in zip(want, got)), "figure", lambda: f"{what}: areas {got}, computed directly {want}")
    for a, b in zip(want, got):
        near(sim, b, a, f"{what}: standard deviations", 1e-3)


def o_fit(sim, sc, ns, inv):
    from bmi.samplers import bmm
    from sim.props import mcmc
    dists, n_mcmc, n_prof, warm = need(ns, "DISTRIBUTIONS", "N_MCMC_SAMPLES", "N_MC_PROFILE_SAMPLES", "N_WARMUP")
    for j in inv.done:
        if j.rule.name != "plot_pdf":
            continue
        name, n, comp = j.wc["dist_name"], int(j.wc["n_points"]), int(j.wc["n_components"])
        d = dists[name]
        x, y = d.sampler.sample(n, 0)
        z = npz(f"data/{name}-{n}.npz")
        near(sim, z["xs"], arr(x), f"data of {name}")
        near(sim, z["ys"], arr(y), f"data of {name}")
        fit = npz(f"gmm_fit/{name}-{n}-{comp}.npz")
        pts = np.hstack([arr(x), arr(y)])
        mine = [c for c in mcmc.CALLS if c["data"].shape == pts.shape and c["K"] == comp and c["samples"] == n_mcmc and c["warmup"] == warm and np.allclose(c["data"], pts, atol=1e-5)]
        sim.check(bool(mine), "fit", lambda: f"{name}, {comp} components: no fit of these data with {n_mcmc} draws after {warm}")
        for k, v in mine[-1]["draws"].items():
            near(sim, fit[k], v, f"draws of {k} for {name}")
        near(sim, mine[-1]["conc"], np.full(comp, 1.0 / comp), f"{name}: concentration of the prior")

        def approx(i):
            cs = [bmm.MultivariateNormalDistribution(dim_x=x.shape[1], dim_y=y.shape[1], mean=fit["mu"][i][c], covariance=fit["cov"][i][c]) for c in range(comp)]
            return bmm.mixture(proportions=fit["pi"][i], components=cs)
        prof = []
        for i in range(n_mcmc):
            p = mc(approx(i), n_prof, key(2048))[2]
            near(sim, npz(f"pmi_individual/{name}-{n}-{comp}-{i}.npz")["pmi"], p, f"{name}: profile of draw {i}", 1e-3)
            prof.append(p)
        near(sim, npz(f"pmi_collected/{name}-{n}-{comp}.npz")["pmi"], prof, f"{name}: all profiles", 1e-3)
        ax_, ay_ = approx(0).sample(n, key(2048))
        z = npz(f"approx_samples/{name}-{n}-{comp}-0.npz")
        near(sim, z["xs"], arr(ax_), f"{name}: sample of the first draw", 1e-3)
        near(sim, z["ys"], arr(ay_), f"{name}: sample of the first draw", 1e-3)
        true = mc(d.dist, n_prof, key(2048))[2]
        near(sim, npz(f"pmi_true/{name}-{n}.npz")["pmi"], true, f"{name}: true profile", 1e-3)
        axes = js(j.outputs[0])["axes"]
        for ax, (u, v) in zip(axes, ((x, y), (ax_, ay_))):
            u, v = arr(u), arr(v)
            near(sim, ax["points"][0]["xy"], u if u.shape[1] == 2 else np.hstack([u, v]), f"{name}: points in the figure", 1e-3)
            if u.shape[1] == 2:
                near(sim, ax["points"][0]["c"], v.ravel(), f"{name}: colours in the figure", 1e-3)
        near(sim, sorted(l["x"][0] for l in axes[2]["lines"]), sorted([np.mean(prof), np.mean(true)]), f"{name}: means in the figure", 1e-3)
        sim.check(len(axes[3]["steps"]) == n_mcmc + 1, "figure", lambda: f"{name}: {len(axes[3]['steps'])} profiles in the figure")


def o_discrete(sim, sc, ns, inv):
    define, = need(ns, "define_distribution")
    d = define()
    m, se, _ = mc(d, 1_000_000 // 200, key(121))
    g = js("estimate.json")
    near(sim, g["estimate"], m, "estimate.json", 1e-6)
    near(sim, g["std_err"], se, "estimate.json", 1e-2)
    x, y = d.sample(1000, key(1000))
    z = npz("joint_samples.npz")
    near(sim, z["x"], arr(x), "joint_samples.npz", 1e-9)
    near(sim, z["y"], arr(y), "joint_samples.npz", 1e-9)
    sim.check(set(np.unique(z["y"])) <= {0.0, 1.0}, "content", lambda: f"values of Y: {np.unique(z['y'])[:5]}")
    p = mc(d, 1_000_000 // 200, key(101))[2]
    near(sim, npz("pmi_samples.npz")["samples"], p, "pmi_samples.npz", 1e-6)
    axes = js("figure_discrete_continuous_example.pdf")["axes"]
    near(sim, axes[0]["points"][0]["xy"], arr(x), "points in the figure")
    histogram(sim, axes[1], p, 100, "profile in the figure")


def histogram(sim, ax, values, bins, what):
    h, e = np.histogram(np.asarray(values), bins=bins, density=True)
    near(sim, [b[2] for b in ax["bars"][:len(h)]], h, what, 1e-3)
    near(sim, [b[0] for b in ax["bars"][:len(h)]], e[:-1], what, 1e-3)


def o_profiles(sim, sc, ns, inv):
    ds, = need(ns, "DISTRIBUTIONS")
    for name, d in ds.items():
        p = mc(d, 10_000 // 200, key(0))[2]
        g = js(f"pmi-profile-{name}.pdf")
        h = g["axes"][0]["bars"]
        near(sim, sum(b[1] * b[2] for b in h), 1.0, f"{name}: area of the histogram", 1e-3)
        near(sim, sum(b[1] * b[2] * (b[0] + b[1] / 2) for b in h), p.mean(), f"{name}: centre of the histogram", 3e-2)
        near(sim, [h[0][0], h[-1][0] + h[-1][1]], [p.min(), p.max()], f"{name}: range of the histogram", 1e-3)
        sim.check(f"{name}. Mean (MI): {p.mean():.2f}" in g["suptitle"], "figure", lambda: f"{name}: title {g['suptitle']}, mean {p.mean()}")


def o_pmi_plot(sim, sc, ns, inv):
    ds, np_ = need(ns, "DISTRIBUTIONS", "np")
    grid = np_.linspace(-10, 10, 3000)
    for name, d in ds.items():
        axes = js(f"pmi-plot-{name}.pdf")["axes"]
        im = axes[0]["images"][0]
        z = np.array([[float(v) for v in arr(d.pmi(grid.reshape(-1, 1), np.full((len(grid), 1), b))).ravel()] for b in grid])
        if im["origin"] != "lower":
            z = z[::-1]
        near(sim, im["data"], z, f"{name}: PMI over the plane (rows: y)", 1e-3)
        near(sim, im["extent"], [-10, 10, -10, 10], f"{name}: extent")
        x, y = d.sample(10_000, key(0))
        near(sim, axes[1]["points"][0]["xy"], np.hstack([arr(x), arr(y)]), f"{name}: points")
        for ax, v in zip(axes[2:], (x, y)):
            histogram(sim, ax, np.asarray(v).ravel(), 50, f"{name}: marginal")


def o_distinct(sim, sc, ns, inv):
    d, n, rho = need(ns, "bivariate_normal", "n_samples", "correlation")
    z = npz("normal.npz")
    x, y = d.sample(n, key(0))
    a, b = arr(x).ravel(), arr(y).ravel()
    s = z["samples"].reshape(n, 2)
    near(sim, s, np.stack([a, b], 1), "normal.npz")
    p = -0.5 * math.log(1 - rho ** 2) - (rho ** 2 * (a ** 2 + b ** 2) - 2 * rho * a * b) / (2 * (1 - rho ** 2))
    near(sim, z["pmi_profile"].ravel(), p, "normal.npz: profile", 1e-3)
    from scipy.stats import norm
    t = npz("transformed_normal.npz")
    u = t["samples"].reshape(n, 2).astype(float)
    near(sim, 0.3 * norm.cdf(u[:, 0]) + 0.7 * norm.cdf(u[:, 0] - 5), norm.cdf(a), "transformed_normal.npz: distribution of X", 2e-3)
    near(sim, 0.5 * norm.cdf(u[:, 1] + 1) + 0.5 * norm.cdf(u[:, 1] - 3), norm.cdf(b), "transformed_normal.npz: distribution of Y", 2e-3)
    near(sim, t["pmi_profile"], z["pmi_profile"], "transformed_normal.npz: the profile is invariant")
    w = npz("u_shape.npz")
    q = w["samples"].reshape(n, 2).astype(float)
    f = sum(np.exp(-(q[:, 0] - m[0]) ** 2 / (2 * v[0]) - (q[:, 1] - m[1]) ** 2 / (2 * v[1])) / (2 * np.pi * math.sqrt(v[0] * v[1])) / 3 for m, v in U)
    fx = sum(np.exp(-(q[:, 0] - m[0]) ** 2 / (2 * v[0])) / math.sqrt(2 * np.pi * v[0]) / 3 for m, v in U)
    fy = sum(np.exp(-(q[:, 1] - m[1]) ** 2 / (2 * v[1])) / math.sqrt(2 * np.pi * v[1]) / 3 for m, v in U)
    near(sim, w["pmi_profile"].ravel(), np.log(f / fx / fy), "u_shape.npz: profile", 1e-2)
    axes = js("figure_distinct_profiles.pdf")["axes"]
    for ax, r in zip(axes, (s, u, q)):
        near(sim, ax["points"][0]["xy"], r[:10_000], "points in the figure")
    bins = np.linspace(-2, 2, 51)
    h = [b[2] for b in axes[3]["bars"]]
    near(sim, h, np.concatenate([np.histogram(v.ravel(), bins=bins, density=True)[0] for v in (z["pmi_profile"], w["pmi_profile"])]), "profiles in the figure", 1e-3)


U = [((-3, 0), (0.2, 1.0)), ((0, -3), (1.0, 0.2)), ((3, 0), (0.2, 1.0))]


def o_bmm_vs(sim, sc, ns, inv):
    tasks, points, size = need(ns, "TASKS", "POINT_ESTIMATORS", "N_SAMPLES")
    a, b = rows_of("generated/benchmark/v2/results.csv"), rows_of("generated/projects/Mixtures/gmm_benchmark/results.csv")
    axes = js("generated/projects/Mixtures/figure_bmm_vs_other.pdf")["axes"]
    for ax, (tid, cfg) in zip(axes, tasks.items()):
        sim.check(ax["title"] == cfg.name, "figure", lambda: f"title {ax['title']} for {cfg.name}")
        true = next(float(r["mi_true"]) for r in a if r["task_id"] == tid)
        near(sim, [l["x"][0] for l in lines(ax, ":")], [true], f"{tid}: true value")
        mine = [r for r in b if r["task_id"] == tid]
        want = sorted([[float(r["mi_q_low"]), float(r["mi_q_high"])] for r in mine])
        got = sorted(sorted([s[0][0], s[1][0]]) for seg in ax["segments"] for s in seg)
        near(sim, got, want, f"{tid}: intervals")
        sets = [sorted(float(r["mi_mean"]) for r in mine)] + [sorted(float(r["mi_estimate"]) for r in a if r["task_id"] == tid and r["estimator_id"] == p.id and
                                                                     int(r["n_samples"]) == size and r["mi_estimate"] != "") for p in points]
        for k, (p, w) in enumerate(zip(ax["points"], sets)):
            near(sim, sorted(q[0] for q in p["xy"] if q[0] == q[0]), w, f"{tid}: points of estimator {k}")
            ys = [q[1] for q in p["xy"]]
            sim.check(all(k / len(sets) < v < (k + 1) / len(sets) for v in ys), "figure", lambda: f"{tid}: points of estimator {k} at {ys}")
        sim.check(len(ax["points"]) == len(sets), "figure", lambda: f"{tid}: {len(ax['points'])} groups of points")


def o_tasks(sim, sc, ns, inv):
    ts, ids = need(ns, "BENCHMARK_TASKS", "TASK_IDS")
    for i in ids:
        g = js(f"{i}.pdf")
        x, y = ts[i].sample(2000, 0)
        got = np.array(list(g["pairs"].values())).T
        near(sim, got, np.hstack([arr(x), arr(y)]), f"{i}: points", 1e-5)
        sim.check(ts[i].id == i and g["suptitle"] == ts[i].name, "figure", lambda: f"{i}: title {g['suptitle']!r}")


def o_pointwise(sim, sc, ns, inv):
    import scipy.special as sp
    bmi, jnp, radius = need(ns, "bmi", "jnp", "RADIUS")
    T = bmi.benchmark.tasks
    g = arr(jnp.linspace(-radius, radius, 71))
    X, Y = np.meshgrid(g, g)
    r = 0.5
    quad = (X ** 2 + Y ** 2 - 2 * r * X * Y) / (1 - r * r)
    first = True
    for name, df in [("Gauss", None)] + [(f"Student-{d}", d) for d in (1, 2, 3, 5, 10)]:
        z = npz(f"arrays/{name}.npz")
        if df is None:
            want = -0.5 * math.log(1 - r * r) - 0.5 * quad + 0.5 * X ** 2 + 0.5 * Y ** 2
            t = T.task_multinormal_dense(1, 1, off_diag=r)
        else:
            lg = sp.gammaln
            want = (lg((df + 2) / 2) + lg(df / 2) - 2 * lg((df + 1) / 2) - 0.5 * math.log(1 - r * r) - (df + 2) / 2 * np.log1p(quad / df)
                    + (df + 1) / 2 * (np.log1p(X ** 2 / df) + np.log1p(Y ** 2 / df)))
            t = T.task_student_dense(1, 1, off_diag=r, df=df)
        near(sim, z["pmi_true"], want, f"{name}: PMI over the plane (rows: y)", 1e-3)
        x, y = t.sample(10_000, 42)
        near(sim, z["samples_x"], arr(x)[:1000], f"{name}: sample", 1e-5)
        near(sim, z["samples_y"], arr(y)[:1000], f"{name}: sample", 1e-5)
        if first:
            est = bmi.estimators.InfoNCEEstimator()
            est.estimate(x, y)
            c = est.trained_critic
            for i, k in ((0, 0), (3, 6), (len(g) - 1, 5)):
                near(sim, z["pmi_critic"][i, k], float(c(np.array([g[k]]), np.array([g[i]]))), f"{name}: critic at row {i}, column {k}", 1e-2)
            first = False
    axes = js("figures/plot_pmi.pdf")["axes"]
    sim.check(len(axes) == 12, "figure", lambda: f"{len(axes)} axes")
    for k, name in enumerate([f"Student-{d}" for d in (1, 2, 3, 5, 10)] + ["Gauss"]):
        z = npz(f"arrays/{name}.npz")
        images = [ax["images"][0]["data"] for ax in axes]
        for what in ("pmi_true", "pmi_critic"):
            sim.check(any(np.shape(im) == z[what].shape and np.allclose(im, z[what], rtol=1e-3, atol=1e-3, equal_nan=True) for im in images), "figure",
                      lambda: f"{what} of {name} is not in the figure")
