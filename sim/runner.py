"""Runs one check: many sessions in parallel, then evidence, minimisation and replay file.

    python -m sim.runner P04 [--replay FILE] [--tier quick|thorough] [--jobs N]

Exit 0: held on everything explored; 1: VIOLATION printed; 2: error of the check."""
import argparse
import collections
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class CheckError(Exception):
    pass


def child_env(tmp, hashseed="0"):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "JAX", "XLA"))}
    env.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED=hashseed, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               MPLBACKEND="Agg", SIM_TMP=tmp, TMPDIR=tmp, PYTHONWARNINGS="ignore", PYTHONPATH=VERIF,
               TF_CPP_MIN_LOG_LEVEL="3")
    env.pop("COLUMNS", None)
    return env


class Pool:
    def __init__(self, prop, tmp, jobs):
        self.prop, self.tmp, self.jobs = prop, tmp, jobs
        self.procs = set()
        self.lock = threading.Lock()
        self.counter = 0
        self.stop = False

    def run(self, req, timeout, hashseed="0", env=None):
        with self.lock:
            if self.stop:
                return {"lines": [], "rc": None, "stopped": True}
            self.counter += 1
            n = self.counter
        work = os.path.join(self.tmp, f"s{n}")
        os.mkdir(work)
        req = dict(req, prop=self.prop, out=os.path.join(work, "out.jsonl"), dump_after=max(5, timeout - 5))
        path = os.path.join(work, "req.json")
        json.dump(req, open(path, "w"))
        e = child_env(work, hashseed)
        e.update(env or {})
        log = open(os.path.join(work, "log.txt"), "wb")
        p = subprocess.Popen([PY, "-m", "sim.session", path], cwd=work, env=e, stdout=log, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        timed_out = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        with self.lock:
            self.procs.discard(p)
        log.close()
        lines = []
        if os.path.exists(req["out"]):
            for l in open(req["out"]):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        tail = open(log.name, "rb").read()[-6000:].decode("utf8", "replace")
        shutil.rmtree(work, ignore_errors=True)
        return {"lines": lines, "rc": p.returncode, "timed_out": timed_out, "tail": tail, "stopped": False}

    def kill_all(self):
        with self.lock:
            self.stop = True
            for p in self.procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}


def first_violation(res):
    for l in res["lines"]:
        if l.get("type") == "episode" and "violation" in l:
            return l
    return None


def problem(res):
    """Text if the session did not end properly."""
    for l in res["lines"]:
        if l.get("type") == "harness":
            return f"harness error ({l['stage']}):\n{l['error']}"
    if res.get("timed_out"):
        last = [l for l in res["lines"] if l.get("type") == "start"][-1:]
        return f"session exceeded its time limit in episode {json.dumps(last)[:3000]}\n{res['tail'][-3000:]}"
    if res["rc"] != 0:
        return f"session died with {res['rc']}\n{res['tail'][-3000:]}"
    return None


def compute_golden(mod, pool, tmp, seed, tier, timeout):
    """Reference values from several fresh interpreters; they must agree."""
    plans = mod.golden_plan(seed, tier)      # list of (args, hashseed)
    with cf.ThreadPoolExecutor(pool.jobs) as ex:
        rs = list(ex.map(lambda a: pool.run({"mode": "golden", "args": a[0]}, timeout, a[1]), plans))
    values = []
    for r in rs:
        if problem(r):
            raise CheckError(problem(r))
        if first_violation(r):
            return None, first_violation(r)["violation"], len(plans)
        values.append(next(l["value"] for l in r["lines"] if l["type"] == "golden"))
    merged, bad = mod.golden_merge(plans, values)
    path = os.path.join(tmp, "golden.json")
    json.dump(merged, open(path, "w"))
    return path, bad, len(plans)


def do_check(args):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = args.property
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("sim.props." + prop.lower())
    jobs = args.jobs or int(os.environ.get("SIM_JOBS", "0")) or min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix=f"bmisim-{prop}-")
    t0 = time.time()
    pool = Pool(prop, tmp, jobs)
    print(f"{prop} tier={tier} VERIF_SEED={seed} jobs={jobs}", flush=True)
    try:
        if args.replay:
            return replay(mod, pool, tmp, prop, args.replay, tier)
        return explore(args, mod, pool, tmp, prop, seed, tier, jobs, t0)
    finally:
        pool.kill_all()
        shutil.rmtree(tmp, ignore_errors=True)


def golden_violation(prop, bad, seed, tier):
    path = write_replay(prop, seed, {"property": prop, "kind": "golden", "violation": bad, "seed": seed, "tier": tier})
    print(f"violation: {bad['kind']}: {bad['message']}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def replay(mod, pool, tmp, prop, path, tier):
    rep = json.load(open(path))
    golden = None
    if hasattr(mod, "golden_plan"):
        golden, bad, _ = compute_golden(mod, pool, tmp, rep.get("seed", 1), rep.get("tier", tier), 300)
        if bad:
            print(f"reproduced: {bad['kind']}: {bad['message']}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    if rep["kind"] == "golden":
        print("not reproduced")
        return 0
    r = pool.run({"mode": "replay", "scenarios": rep["scenarios"], "golden": golden, "keep_log": True,
                  "seed": rep.get("seed", 1), "tier": tier, "session": 0}, 600)
    v = first_violation(r)
    if v is None:
        if problem(r):
            raise CheckError(problem(r))
        print("not reproduced: the property held")
        return 0
    print(f"reproduced: {v['violation']['kind']}: {v['violation']['message']}")
    print(f"event log digest {v['digest']} ({'same as' if v['digest'] == rep.get('digest') else 'differs from'} the recorded one)")
    for l in v.get("log", [])[-40:]:
        print("   ", l[:300])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def write_replay(prop, seed, obj):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-seed{seed}.json")
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
    return path


def explore(args, mod, pool, tmp, prop, seed, tier, jobs, t0):
    conf = mod.TIERS[tier]
    n_sessions, n_eps = conf["sessions"], conf["episodes"]
    timeout = conf.get("timeout", 240 if tier == "quick" else 1500)
    golden, n_golden = None, 0
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    if hasattr(mod, "golden_plan"):
        golden, bad, n_golden = compute_golden(mod, pool, tmp, seed, tier, 300)
        if bad:
            golden_violation(prop, bad, seed, tier)
            write_evidence(mod, prop, tier, seed, [], t0, jobs, 1, n_golden)
            return 1
        print(f"reference values from {n_golden} fresh interpreters: {time.time() - t0:.1f}s", flush=True)
    results = [None] * n_sessions
    best = [None]      # lowest session index with a violation

    def one(s):
        if best[0] is not None and s > best[0]:
            return
        r = pool.run({"mode": "explore", "seed": seed, "tier": tier, "session": s, "n": n_eps, "golden": golden}, timeout)
        results[s] = r
        if first_violation(r) and (best[0] is None or s < best[0]):
            best[0] = s

    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, range(n_sessions)))
    done = [r for r in results if r is not None]
    bad_s = best[0]
    if bad_s is None:
        for r in done:
            p = problem(r)
            if p:
                raise CheckError(p)
        n_viol = 0
        for k in known:
            rr = pool.run({"mode": "replay", "scenarios": k["scenarios"], "golden": golden, "seed": seed, "tier": tier,
                           "session": 0}, 300)
            if first_violation(rr):
                print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
        write_evidence(mod, prop, tier, seed, done, t0, jobs, 0, n_golden)
        eps = sum(1 for r in done for l in r["lines"] if l.get("type") == "episode")
        print(f"held: {eps} simulated runs in {len(done)} sessions, {time.time() - t0:.1f}s", flush=True)
        return 0

    # ---- violation: reproduce, minimise, validate in a fresh process
    r = results[bad_s]
    v = first_violation(r)
    kind = v["violation"]["kind"]
    scs = [l["scenario"] for l in r["lines"] if l["type"] == "start"]
    print(f"violation in session {bad_s} episode {v['i']}: {kind}: {v['violation']['message'][:1500]}", flush=True)

    def attempt(scenarios, log=False):
        rr = pool.run({"mode": "replay", "scenarios": scenarios, "golden": golden, "keep_log": log, "seed": seed,
                       "tier": tier, "session": 0}, timeout)
        vv = first_violation(rr)
        return vv if vv is not None and vv["violation"]["kind"] == kind else None

    final, fv = None, None
    alone = attempt([scs[-1]])
    if alone:
        final, fv = [scs[-1]], alone
        rr = pool.run({"mode": "shrink", "scenario": scs[-1], "kind": kind, "budget": conf.get("shrink_s", 60),
                       "golden": golden, "seed": seed, "tier": tier, "session": 0}, conf.get("shrink_s", 60) + 60)
        cands = [l["scenario"] for l in rr["lines"] if l["type"] == "shrunk"]
        for c in reversed(cands[-4:]):
            vv = attempt([c])
            if vv:
                final, fv = [c], vv
                break
    else:
        # needs earlier episodes of the session
        full = attempt(scs)
        if full:
            final, fv = scs, full
            k = max(1, (len(scs) - 1) // 2)
            tries = 0
            while k >= 1 and tries < 24:
                i = 0
                while i < len(final) - 1 and tries < 24:
                    cand = final[:i] + final[min(i + k, len(final) - 1):]
                    tries += 1
                    vv = attempt(cand)
                    if vv:
                        final, fv = cand, vv
                    else:
                        i += k
                k //= 2
    if final is None:
        # uncontrolled randomness of the code under test: try again
        for _ in range(4):
            again = attempt(scs)
            if again:
                final, fv = scs, again
                break
    if final is None:
        raise CheckError(f"violation did not reproduce in a fresh process: {kind}: {v['violation']['message']}\n"
                         f"{json.dumps(scs[-1])[:4000]}")
    path = write_replay(prop, seed, {"property": prop, "kind": "scenarios", "seed": seed, "tier": tier,
                                     "violation": fv["violation"], "digest": fv["digest"], "faults": fv["faults"],
                                     "scenarios": final})
    write_evidence(mod, prop, tier, seed, done, t0, jobs, 1, n_golden)
    print(f"minimised: {fv['violation']['kind']}: {fv['violation']['message'][:2000]}")
    print(f"scenario: {json.dumps(final)[:3000]}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def write_evidence(mod, prop, tier, seed, done, t0, jobs, violations, n_golden):
    faults, probes = collections.Counter(), collections.Counter()
    digests, nontrivial = set(), set()
    evals = steps = 0
    sim_s = 0.0
    samples = []
    scen = {}
    for s, r in enumerate(done):
        for l in r["lines"]:
            if l["type"] == "start":
                scen = l
            elif l["type"] == "episode":
                evals += 1
                steps += l["steps"]
                sim_s += l["sim_s"]
                faults.update(l["faults"])
                digests.add(l["digest"])
                if l["nontrivial"]:
                    nontrivial.add(l["digest"])
                if len(samples) < 3 and l["nontrivial"]:
                    text = json.dumps(scen.get("scenario"))
                    samples.append(json.loads(text) if len(text) < 6000 else text[:6000])
            elif l["type"] == "end":
                probes.update(l["probes"])
    wall = time.time() - t0
    info = getattr(mod, "INFO", {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontrivial),
            "rule": info.get("rule", "") + " Distinct: by the digest of the complete event log of the run (operations, "
                    "outcomes, faults that fired, thread switches). Non-trivial: at least one fault fired, one thread "
                    "switch happened or the run performed a multi-operation history on shared objects.",
            "samples": samples or ["no non-trivial run"],
            "distinct_event_logs": len(digests),
            "sessions_fresh_interpreters": len(done) + n_golden,
            "faults_injected": dict(sorted(faults.items())),
            "rare_conditions_reached": dict(sorted(probes.items())),
            "controlled_steps": steps,
            "simulated_seconds": round(sim_s, 3),
            "simulated_runs_per_hour": round(evals / wall * 3600) if wall else 0,
            "seeds": f"VERIF_SEED={seed}; run i of session s uses the PRNG seeded by ({seed}, {prop}, s, i)",
            "real_components": info.get("real", ""),
            "simulated_components": info.get("stub", ""),
            "worker_processes": jobs,
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier")
    ap.add_argument("--jobs", type=int, default=0)
    args = ap.parse_args()
    try:
        return do_check(args)
    except CheckError as e:
        print(f"CHECK-ERROR property={args.property}: {e}", flush=True)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print(f"CHECK-ERROR property={args.property}: runner failed", flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
