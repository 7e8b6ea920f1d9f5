"""P02: run records never leak into one another."""
from sim.props import runhist

TIERS = {"quick": {"sessions": 8, "episodes": 130}, "thorough": {"sessions": 32, "episodes": 1000, "timeout": 1500}}
INFO = {
    "rule": "Each run: a history of 2-14 benchmark runs that share estimator objects, information dictionaries, sample "
            "files, ids and seeds, mixing successes with injected failures and interrupts; after every run all earlier "
            "records and all caller dictionaries are compared with their snapshots and the model.",
    "real": "bmi.benchmark.run_estimator, RunResult, all CPU estimators, external estimator front ends",
    "stub": "Rscript/julia processes, exceptions injected by sys.monitoring",
    "assumptions": ["edits of values nested inside the caller's dictionary after the run are not checked"],
}
OPTIONAL = ("info",)
MIN_LEN = {"ops": 1}


golden_plan, golden, golden_merge = runhist.golden_plan, runhist.golden, runhist.golden_merge


def gen(rng, session, i, tier):
    if i % 10 == 9:
        return runhist.g_history(rng, shared=True, max_runs=4, kinds=[("neural", 5), ("stub_info", 1)])
    return runhist.g_history(rng, shared=True, max_runs=14)


def run(sc, sim):
    runhist.run_history(sc, sim, isolation=True)
