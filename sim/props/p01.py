"""P01: failing runs become explicit failure records."""
from sim.props import runhist

TIERS = {"quick": {"sessions": 8, "episodes": 400}, "thorough": {"sessions": 32, "episodes": 1200, "timeout": 1500}}
INFO = {
    "rule": "Each run: a history of 1-8 benchmark runs over scripted, wrapped-function, real and external estimators; "
            "estimators raise one of 23 ordinary or 4 escaping exception types, before or after work, at an arbitrary "
            "line or bytecode of real estimators, or through child processes that fail to start, exit non-zero, die by "
            "signal, print garbage or are interrupted.",
    "real": "bmi.benchmark.run_estimator, RunResult, read_sample, all CPU estimators, external estimator front ends",
    "stub": "Rscript/julia processes (subprocess.Popen), exceptions injected by sys.monitoring",
    "assumptions": ["the fake programs follow the command lines documented in external/"],
}
OPTIONAL = ("info",)


golden_plan, golden, golden_merge = runhist.golden_plan, runhist.golden, runhist.golden_merge


def gen(rng, session, i, tier):
    if i % 15 == 14:
        return runhist.g_history(rng, shared=False, max_runs=4, kinds=[("neural", 5), ("stub_info", 1)])
    if i % 3 == 2:      # errors within the package's own estimators
        return runhist.g_history(rng, shared=False, max_runs=6, kinds=[("real", 8), ("external", 1)])
    return runhist.g_history(rng, shared=False)


def run(sc, sim):
    runhist.run_history(sc, sim)
