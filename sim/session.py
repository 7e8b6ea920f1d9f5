"""One session: a fresh interpreter that executes a list of episodes in order.

Started by the runner as ``python -m sim.session REQUEST.json``; writes one
JSON object per line to the file named in the request."""
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback

REPO = os.environ.get("BMI_REPO", "/repo")


def setup(lines=True):
    """Install the seams (before importing bmi where they must be), import bmi."""
    sys.path.insert(0, os.path.join(REPO, "src"))
    from sim import clock, fs, sched
    prefixes = (os.path.join(REPO, "src", "bmi") + os.sep, os.path.join(REPO, "workflows") + os.sep)
    clock.install()
    sched.install_locks(prefixes)
    fs.install()
    import warnings
    warnings.simplefilter("ignore")
    sys.unraisablehook = lambda *a: None
    import bmi
    import bmi.benchmark
    src = os.path.realpath(bmi.__file__)
    if not src.startswith(os.path.realpath(os.path.join(REPO, "src")) + os.sep):
        raise RuntimeError(f"bmi imported from {src}, not from {REPO}")
    if lines:
        from sim import mon
        mon.install(prefixes)
    return bmi


def run_episode(mod, sim, scenario):
    """Returns (violation or None). Anything else escapes as a harness error."""
    from sim import mon
    from sim.core import HarnessError, Violation
    sim.begin()
    mon.start_budget(sim)
    sim.event("scenario", scenario)
    v = None
    try:
        mod.run(scenario, sim)
    except Violation as e:
        v = e
    except HarnessError:
        raise
    except Exception as e:
        # nobody expected this: the code under test raised it, or returned something that
        # the oracle cannot even look at
        if sim.pending is None:
            v = Violation("unexpected-exception", "".join(traceback.format_exception(e))[-2500:])
    finally:
        sim.end()
    return sim.pending or v


def shrink_candidates(mod, sc):
    """Generic: drop list elements, drop faults, then what the property module offers."""
    for key in getattr(mod, "LISTS", ("ops",)):
        xs = sc.get(key)
        if not isinstance(xs, list):
            continue
        n = len(xs)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                ys = xs[:i] + xs[i + k:]
                if len(ys) < getattr(mod, "MIN_LEN", {}).get(key, 0):
                    continue
                yield {**sc, key: ys}
            k //= 2
        for i, op in enumerate(xs):
            if isinstance(op, dict):
                for f in getattr(mod, "OPTIONAL", ("fault",)):
                    if op.get(f) is not None:
                        yield {**sc, key: xs[:i] + [{**op, f: None}] + xs[i + 1:]}
    if hasattr(mod, "shrink"):
        yield from mod.shrink(sc)


def do_shrink(mod, sim, scenario, kind, out, budget):
    t0 = time.perf_counter()
    from sim.clock import real
    now = real()
    t0 = now()
    best = scenario
    tried = 0
    improved = True
    seen = set()
    while improved and now() - t0 < budget:
        improved = False
        for cand in shrink_candidates(mod, best):
            if now() - t0 > budget:
                break
            key = json.dumps(cand, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            bound_memory()
            try:
                v = run_episode(mod, sim, cand)
            except BaseException:
                continue
            if v is not None and v.kind == kind:
                best = cand
                out({"type": "shrunk", "scenario": best, "kind": v.kind, "message": v.message})
                improved = True
                break
    out({"type": "shrink_done", "tried": tried, "scenario": best})


def bound_memory(limit=1_800_000_000):
    """Between runs: compiled code that JAX keeps for ever is dropped before it fills the memory."""
    with open("/proc/self/statm") as f:
        if int(f.read().split()[1]) * 4096 < limit:
            return
    import ctypes
    import gc
    jax = sys.modules.get("jax")
    if jax is not None:
        jax.clear_caches()
    gc.collect()
    ctypes.CDLL("libc.so.6").malloc_trim(0)


def main():
    req = json.load(open(sys.argv[1]))
    outf = open(req["out"], "a", buffering=1)

    def out(obj):
        outf.write(json.dumps(obj) + "\n")
        outf.flush()

    faulthandler.enable()
    if req.get("dump_after"):
        faulthandler.dump_traceback_later(req["dump_after"], exit=False)
    try:
        mod = importlib.import_module("sim.props." + req["prop"].lower())
        setup(lines=True)
        from sim.core import Sim
        from sim.rng import Rng
        sim = Sim(keep_log=req.get("keep_log", False))
        if req.get("golden"):
            sim.golden = json.load(open(req["golden"]))
    except BaseException:
        out({"type": "harness", "error": traceback.format_exc(), "stage": "setup"})
        return 3
    try:
        from sim import mon
        mon.start_budget(sim)
        try:
            if hasattr(mod, "prepare"):
                mod.prepare(sim)
            if req["mode"] == "golden":
                out({"type": "golden", "value": mod.golden(sim, req["args"])})
                return 0
        except Exception as e:
            from sim.core import HarnessError
            if isinstance(e, HarnessError):
                raise
            # undisturbed use of the code under test failed
            out({"type": "start", "i": -1, "scenario": {"stage": "prepare"}})
            out({"type": "episode", "i": -1, "digest": "prepare", "nontrivial": False, "faults": {}, "steps": 0, "sim_s": 0.0,
                 "violation": {"kind": "undisturbed-use-fails", "message": "".join(traceback.format_exception(e))[-2500:]}})
            return 0
        out({"type": "ready"})
        if req["mode"] == "shrink":
            do_shrink(mod, sim, req["scenario"], req["kind"], out, req["budget"])
            return 0
        if req["mode"] == "explore":
            episodes = ((i, mod.gen(Rng(req["seed"], req["prop"], req["session"], i), req["session"], i, req["tier"]))
                        for i in range(req["n"]))
        else:
            episodes = enumerate(req["scenarios"])
        for i, sc in episodes:
            out({"type": "start", "i": i, "scenario": sc if req["mode"] == "explore" else None})
            steps0, sec0 = sim.steps, sim.sim_seconds
            v = run_episode(mod, sim, sc)
            rec = {"type": "episode", "i": i, "digest": sim.digest(), "nontrivial": bool(sim.nontrivial),
                   "faults": dict(sim.ep_faults), "steps": sim.steps - steps0, "sim_s": sim.sim_seconds - sec0}
            if sim.keep_log:
                rec["log"] = sim.log
            if v is not None:
                rec["violation"] = {"kind": v.kind, "message": v.message}
            out(rec)
            if v is not None:
                break
            bound_memory()
        out({"type": "end", "faults": dict(sim.faults), "probes": dict(sim.probes), "sim_s": sim.sim_seconds,
             "steps": sim.steps})
        return 0
    except BaseException:
        out({"type": "harness", "error": traceback.format_exc(), "stage": "run"})
        return 3
    finally:
        try:
            sim.close()
        except BaseException:
            pass


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
