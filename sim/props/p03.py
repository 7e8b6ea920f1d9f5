"""P03: recorded run time is elapsed monotonic time of the estimation; stopwatch against a model."""
from sim.props import runhist

TIERS = {"quick": {"sessions": 8, "episodes": 340}, "thorough": {"sessions": 32, "episodes": 1200, "timeout": 1500}}
LISTS = ("ops", "timer_ops", "work")
OPTIONAL = ("info",)
INFO = {
    "rule": "Each run: either a history of benchmark runs on a virtual clock, where reading the sample and every phase of "
            "the estimation take scripted time and the wall clock jumps forwards or backwards in between, or a sequence of "
            "stopwatch operations on 1-4 stopwatches against a model.",
    "real": "bmi.benchmark.run_estimator, bmi.benchmark.utils.timer.Timer",
    "stub": "every clock of the time module; sample-reading and program durations",
    "assumptions": [],
}


def g_work(rng):
    out = []
    for _ in range(rng.randrange(1, 4)):
        w = {"where": rng.pick(["before", "main", "after"]), "dt": rng.pick([0.0, 1e-6, 0.5, 3.25, 7200.0, 86400.0])}
        w["cpu"] = rng.pick([None, 0.0, w["dt"] / 2])
        if rng.chance(0.5):
            w["jump"] = rng.pick([-3600.0, -1.0, 1.0, 3600.0, 1e7, -1e7])
        out.append(w)
    return out


golden_plan, golden, golden_merge = runhist.golden_plan, runhist.golden, runhist.golden_merge


def gen(rng, session, i, tier):
    if rng.chance(0.3):
        n = rng.randrange(1, 5)
        ops = []
        for _ in range(rng.log_int(3, 25)):
            k = rng.weighted([("new", 2), ("reset", 2), ("check", 4), ("check_and_reset", 3), ("advance", 5), ("jump", 2)])
            op = {"k": k, "i": rng.randrange(n)}
            if k == "advance":
                op.update(dt=rng.pick([1e-6, 0.25, 1.0, 600.0, 1e6]), cpu=rng.pick([None, 0.0]))
            if k == "jump":
                op["dt"] = rng.pick([-1e6, -2.0, 5.0, 1e6])
            ops.append(op)
        return {"timer_ops": ops, "n": n}
    if i % 30 == 29:
        sc = runhist.g_history(rng, shared=False, max_runs=3, kinds=[("neural", 4), ("stub", 1)])
    else:
        sc = runhist.g_history(rng, shared=rng.chance(0.3), max_runs=5)
    for op in sc["ops"]:
        e = op["est"]
        if e["kind"] in ("real", "neural"):       # time passes (and the wall clock is set) within the package's own code
            e.pop("inject", None)
            if not e.get("toobig"):
                e["pauses"] = [{"frac": rng.frac()} for _ in range(3)]
        if e["kind"] == "external" and e["plan"]["kind"] == "ok":
            e["plan"]["duration"] = rng.pick([0.0, 0.5, 12.0, 7200.0])
    sc["read_time"] = rng.pick([0.0, 0.75, 30.0])
    sc["read_jump"] = rng.pick([None, None, -50.0, 50.0])
    sc["work"] = g_work(rng)
    return sc


def shrink(sc):
    if sc.get("work"):
        for i, w in enumerate(sc["work"]):
            if w.get("jump"):
                yield {**sc, "work": sc["work"][:i] + [{**w, "jump": None}] + sc["work"][i + 1:]}


def run(sc, sim):
    from sim.clock import Clock
    from sim.fs import FS
    clock = Clock(sim)
    if "timer_ops" in sc:
        return timers(sc, sim, clock)
    spent = [0.0]

    def work(where):
        for w in sc["work"]:
            if w["where"] == where:
                if w.get("jump"):
                    clock.jump_wall(w["jump"])
                clock.advance(w["dt"], w["cpu"])
                spent[0] += w["dt"]

    class SlowFS(FS):
        def _select(self, path, mode):
            if "r" in mode:
                clock.advance(sc["read_time"], 0.0)
                if sc.get("read_jump"):
                    clock.jump_wall(sc["read_jump"])
            return super()._select(path, mode)

    def check_time(sim, op, exp, r, w):
        t = r.time_in_seconds
        if exp["reported"] is not None:
            sim.check(t == exp["reported"], "reported-time", lambda: f"the estimator reported {exp['reported']!r} s, recorded {t!r}")
            sim.probe("reported_time" if exp["reported"] else "reported_time_zero")
        elif exp.get("own_time") is not None:
            sim.check(0 <= t <= spent[0] + 1e-6, "measured-time", lambda: f"{op['est']} took {spent[0]} s, recorded {t!r}")
        elif exp.get("external"):
            lo = (op["est"].get("plan") or {}).get("duration", 0.0)
            hi = lo + sc["read_time"]     # the front end reads the header itself
            sim.check(lo - 1e-6 <= t <= hi + 1e-6, "measured-time", lambda: f"program ran {lo} s (+ at most {sc['read_time']} s header), recorded {t!r}")
        else:
            want = spent[0] + exp.get("nested_time", 0.0)
            sim.check(abs(t - want) <= 1e-6 + 1e-9 * want, "measured-time",
                      lambda: f"estimation took {want} s (reading the sample {sc['read_time']} s), recorded {t!r}")
            sim.probe("measured_time")
        spent[0] = 0.0

    # a failed run must not leave its time behind
    def work_reset(where):
        if where in ("before", "start"):
            spent[0] = 0.0
        work(where)

    with clock, SlowFS(sim, sim.scratch):
        runhist.run_history(sc, sim, clock=clock, check_time=check_time, work=work_reset)


def timers(sc, sim, clock):
    from bmi.benchmark.utils.timer import Timer
    with clock:
        ts = [Timer() for _ in range(sc["n"])]
        origin = [clock.mono] * sc["n"]
        sim.nontrivial = len(sc["timer_ops"]) > 1
        for op in sc["timer_ops"]:
            i, k = op["i"], op["k"]
            if k == "advance":
                clock.advance(op["dt"], op["cpu"])
            elif k == "jump":
                clock.jump_wall(op["dt"])
            elif k == "new":
                ts[i], origin[i] = Timer(), clock.mono
            elif k == "reset":
                ts[i].reset()
                origin[i] = clock.mono
            else:
                want = clock.mono - origin[i]
                got = getattr(ts[i], k)()
                sim.event(k, i, got)
                sim.check(abs(got - want) <= 1e-6 + 1e-9 * abs(want), "stopwatch", lambda: f"{k} gave {got!r}, elapsed since reset {want!r}")
                if k == "check_and_reset":
                    origin[i] = clock.mono
