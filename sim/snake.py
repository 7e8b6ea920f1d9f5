"""A small Snakemake: loads the real .smk files of /repo and runs their rules as simulated jobs.

What it shares with Snakemake: rules and wildcards, the job graph, removal of the old output before
a job starts, deletion of a failed job's output, the rule that a job is repeated when its output is
missing, older than its input, or was incomplete when the workflow was killed.  What it decides
itself, from the scenario: the order of ready jobs, how many run at once, every switch between
them, where one is killed."""
import ast
import contextlib
import os
import re
import shutil
import sys
import textwrap

from sim.core import HarnessError, SimCrash
from sim.fs import real_open

PLAIN = {"message", "log", "benchmark", "threads", "resources", "priority", "conda", "container", "group", "version", "shadow", "localrule", "params",
         "wildcard_constraints", "retries", "default_target"}
SECTION = re.compile(r"^(\s+)([a-z_]+)\s*:(.*)$")


class WorkflowError(Exception):
    """The workflow itself cannot be carried out (Snakemake would stop with an error)."""


class Named(list):
    """input / output of a job."""

    def __init__(self, items=(), names=None):
        super().__init__(items)
        for k, v in (names or {}).items():
            setattr(self, k, v)

    def __str__(self):
        return " ".join(map(str, self))

    def get(self, k, default=None):
        return getattr(self, k, default)


class Wildcards:
    def __init__(self, d):
        self.__dict__.update(d)
        self._d = dict(d)

    def get(self, k, default=None):
        return self._d.get(k, default)

    def items(self):
        return self._d.items()

    def keys(self):
        return self._d.keys()

    def __getitem__(self, k):
        return self._d[k]


def flat(x):
    if isinstance(x, (str, os.PathLike)):
        return [os.fspath(x)]
    out = []
    for v in x:
        out.extend(flat(v))
    return out


def expand(pattern, *args, allow_missing=False, **kw):
    import itertools
    patterns = flat(pattern)
    combine = args[0] if args and callable(args[0]) else itertools.product
    keys = list(kw)
    values = [[v] if isinstance(v, (str, int, float)) else list(v) for v in kw.values()]
    out = []
    for p in patterns:
        for combo in combine(*values):
            d = dict(zip(keys, combo))

            def sub(m):
                name = m.group(1)
                if name in d:
                    return str(d[name])
                if allow_missing:
                    return m.group(0)
                raise WorkflowError(f"expand: no value for wildcard {name}")
            out.append(re.sub(r"\{(\w+)(?:,[^{}]*)?\}", sub, p))
    return out


def io(*a, **k):
    return a, k


def same(x, *a, **k):
    return x


class Touch(str):
    """An output that Snakemake itself creates when the job has succeeded."""


def touch(x):
    return Touch(x) if isinstance(x, str) else [Touch(v) for v in flat(x)]


class Adapt:
    """An override that depends on what the file assigns."""

    def __init__(self, fn):
        self.fn = fn


class Rule:
    def __init__(self, name):
        self.name, self.inp, self.out, self.body, self.constraints = name, ((), {}), ((), {}), None, {}

    def outputs(self):
        pos, kw = self.out
        return flat(list(pos) + list(kw.values()))

    def match(self, path):
        for t in self.outputs():
            m = re.fullmatch(pattern(t, self.constraints), path)
            if m:
                return m.groupdict()
        return None

    def resolve(self, which, wc):
        pos, kw = which
        items, names = [], {}

        def one(x):
            if callable(x) and not isinstance(x, str):
                x = x(Wildcards(wc))
            return [fill(t, wc) for t in flat(x)]
        for p in pos:
            items += one(p)
        for k, p in kw.items():
            v = one(p)
            items += v
            names[k] = v[0] if isinstance(p, str) or len(v) == 1 and not isinstance(p, (list, tuple)) else Named(v)
        return Named(items, names)


def pattern(t, constraints):
    seen = set()
    out = []
    pos = 0
    for m in re.finditer(r"\{(\w+)(?:,([^{}]*))?\}", t):
        out.append(re.escape(t[pos:m.start()]))
        n = m.group(1)
        if n in seen:
            out.append(f"(?P={n})")
        else:
            seen.add(n)
            out.append(f"(?P<{n}>{m.group(2) or constraints.get(n) or '.+'})")
        pos = m.end()
    return "".join(out) + re.escape(t[pos:])


def fill(t, wc):
    def sub(m):
        if m.group(1) not in wc:
            raise WorkflowError(f"wildcard {m.group(1)} of {t!r} is not determined by the output")
        return str(wc[m.group(1)])
    return re.sub(r"\{(\w+)(?:,[^{}]*)?\}", sub, t)


def split(path):
    """[(kind, line number, text or (name, sections))] of a .smk file."""
    with real_open(path) as f:
        lines = f.read().split("\n")
    items, buf, start = [], [], 0
    i = 0

    def flush():
        if any(l.strip() for l in buf):
            items.append(("python", start, "\n".join(buf)))
    while i < len(lines):
        l = lines[i]
        m = re.match(r"^(rule|checkpoint)\s*(\w*)\s*:\s*(.*)$", l)
        d = re.match(r"^(include|workdir|configfile|localrules|ruleorder|wildcard_constraints|onsuccess|onerror|onstart)\s*:(.*)$", l)
        if not m and not d:
            if not buf:
                start = i
            buf.append(l)
            i += 1
            continue
        flush()
        buf = []
        j = i + 1
        while j < len(lines) and (not lines[j].strip() or lines[j][0] in " \t" or lines[j].startswith("#")):
            j += 1
        if m:
            items.append(("rule", i, (m.group(2) or f"rule{i}", sections(lines, i + 1, j, path))))
        else:
            items.append((d.group(1), i, "\n".join([d.group(2)] + lines[i + 1:j])))
        i = j
    flush()
    return items


def sections(lines, a, b, path):
    """name -> (line, text) of the sections of a rule."""
    out = {}
    i = a
    indent = None
    while i < b:
        l = lines[i]
        if not l.strip() or l.lstrip().startswith("#"):
            i += 1
            continue
        w = len(l) - len(l.lstrip())
        if indent is None:
            indent = w
        m = SECTION.match(l)
        if w != indent or not m:
            if l.strip()[0] in "\"'" and not out:      # docstring of the rule
                quote = l.strip()[:3] if l.strip()[:3] in ('"""', "'''") else None
                if quote and l.strip().count(quote) < 2:
                    i += 1
                    while i < b and quote not in lines[i]:
                        i += 1
                i += 1
                continue
            raise HarnessError(f"{path}:{i + 1}: cannot parse {l!r}")
        name, rest = m.group(2), m.group(3)
        j = i + 1
        while j < b and (not lines[j].strip() or lines[j].lstrip().startswith("#") or len(lines[j]) - len(lines[j].lstrip()) > indent):
            j += 1
        body = [rest if rest.strip() else ""] + lines[i + 1:j]
        out[name] = (i, "\n".join(body))
        i = j
    return out


def code(text, path, line, mode):
    tree = ast.parse(text, path, mode)
    return tree if line == 0 else ast.increment_lineno(tree, line)


class Workflow:
    """``given``: names defined before the file is read; ``overrides``: names replaced as soon as the file
    assigns them."""

    _cache = {}

    def __init__(self, path, given=None, overrides=None):
        self.path = path
        self.rules = {}
        self.order = []
        self.workdir = None
        self.constraints = {}
        self.overrides = overrides or {}
        self.adapted = {}
        self.ns = {"__name__": "snakefile", "expand": expand, "config": {}, "temp": same, "temporary": same, "protected": same, "ancient": same,
                   "directory": same, "touch": touch, "report": same, "local": same, "workflow": None, "__unsupported__": HarnessError, **(given or {})}
        self.include(path)

    def include(self, path):
        path = os.path.normpath(path)
        folder = os.path.dirname(path)
        added = folder not in sys.path
        if added:
            sys.path.insert(0, folder)
        try:
            key = (path, os.stat(path).st_mtime_ns)
            if key not in self._cache:
                self._cache[key] = prepare(split(path), path)
            for kind, payload in self._cache[key]:
                if kind == "python":
                    for stmt in payload:
                        exec(stmt, self.ns)
                        for k, v in self.overrides.items():
                            if k not in self.ns:
                                continue
                            if not isinstance(v, Adapt):
                                self.ns[k] = v
                            elif k not in self.adapted or self.ns[k] is not self.adapted[k]:
                                self.ns[k] = self.adapted[k] = v.fn(self.ns[k])
                elif kind == "rule":
                    self.add(*payload)
                elif kind == "include":
                    self.include(os.path.join(folder, eval(payload, self.ns)))
                elif kind == "workdir":
                    self.workdir = eval(payload, self.ns)
                elif kind == "wildcard_constraints":
                    self.constraints.update(eval(payload, {**self.ns, "__io__": io})[1])
        finally:
            if added:
                sys.path.remove(folder)

    def add(self, name, secs):
        r = Rule(name)
        scope = {**self.ns, "__io__": io, "rules": Rules(self)}
        # the sections see the real namespace (lambdas keep it)
        self.ns["__io__"], self.ns["rules"] = io, scope["rules"]
        r.constraints = dict(self.constraints)
        if "wildcard_constraints" in secs:
            r.constraints.update(eval(secs["wildcard_constraints"], self.ns)[1])
        if "input" in secs:
            r.inp = eval(secs["input"], self.ns)
        if "output" in secs:
            r.out = eval(secs["output"], self.ns)
        if "params" in secs:
            r.params = eval(secs["params"], self.ns)
        if "run" in secs:
            made = {}
            exec(secs["run"], self.ns, made)
            r.body = made["__rule_" + name]
        self.rules[name] = r
        self.order.append(name)

    def producer(self, path):
        found = [(r, m) for r in (self.rules[n] for n in self.order) if (m := r.match(path)) is not None]
        if len(found) > 1:
            exact = [f for f in found if not f[1]]
            if len(exact) == 1:
                return exact[0]
            raise WorkflowError(f"rules {[f[0].name for f in found]} can all produce {path}")
        return found[0] if found else None


class Rules:
    def __init__(self, wf):
        self._wf = wf

    def __getattr__(self, name):
        r = self._wf.rules[name]
        o = Named(r.outputs(), {k: v for k, v in r.out[1].items()})
        i = Named([x for x in r.inp[0] if isinstance(x, str)], {k: v for k, v in r.inp[1].items()})
        return type("R", (), {"output": o, "input": i})


def prepare(items, path):
    out = []
    for kind, line, payload in items:
        if kind == "python":
            tree = code(payload, path, line, "exec")
            out.append(("python", [compile(ast.Module([s], []), path, "exec") for s in tree.body]))
        elif kind == "rule":
            name, secs = payload
            made = {}
            for s, (ln, text) in secs.items():
                if s in ("input", "output", "params", "wildcard_constraints"):
                    made[s] = compile(code(f"__io__({text}\n)", path, ln, "eval"), path, "eval")
                elif s == "run":
                    body = textwrap.indent(textwrap.dedent(text.split("\n", 1)[1] if "\n" in text else text), "    ")
                    src = f"def __rule_{name}(input, output, params, wildcards, threads, resources, log, rule):\n" + body
                    made[s] = compile(code(src, path, ln, "exec"), path, "exec")
                elif s in ("shell", "script", "notebook", "wrapper"):
                    src = f"def __rule_{name}(*a):\n    raise __unsupported__('{s} sections are not simulated')\n"
                    made["run"] = compile(code(src, path, ln, "exec"), path, "exec")
                elif s not in PLAIN:
                    raise HarnessError(f"{path}: unknown section {s}")
            out.append(("rule", (name, made)))
        elif kind in ("include", "workdir"):
            out.append((kind, compile(code("(" + payload + "\n)", path, line, "eval"), path, "eval")))
        elif kind == "wildcard_constraints":
            out.append((kind, compile(code("__io__(" + payload + "\n)", path, line, "eval"), path, "eval")))
        elif kind in ("localrules", "onsuccess", "onerror", "onstart", "ruleorder"):
            pass
        else:
            raise HarnessError(f"{path}: {kind} is not supported")
    return out


class Job:
    def __init__(self, rule, wc, wf):
        self.rule, self.wc = rule, wc
        self.inputs = rule.resolve(rule.inp, wc)
        self.outputs = rule.resolve(rule.out, wc)
        self.needs = []
        self.key = (rule.name, tuple(sorted(wc.items())))

    def __repr__(self):
        return f"{self.rule.name}({', '.join(f'{k}={v}' for k, v in self.wc.items())})"


class Store:
    """What survives between invocations besides the files: Snakemake's own notes."""

    def __init__(self):
        self.clock = 0
        self.mtime = {}
        self.incomplete = set()
        self.inputs = {}


class Waiting:
    def __init__(self, ready):
        self.ready = ready

    def held(self):
        return not self.ready()


class Invocation:
    """One call of snakemake in the current directory."""

    def __init__(self, sim, load, store, targets=(), cores=1, pick=None, preempts=(), keep_going=True, mode="fresh", inject=None, fs=None, isolate=False):
        self.sim, self.load, self.store = sim, load, store
        self.cores, self.pick, self.preempts, self.keep_going, self.mode, self.inject, self.fs = cores, pick, preempts, keep_going, mode, inject, fs
        self.isolate = isolate     # every job sees nothing but its inputs
        self.wf = load()
        self.targets = list(targets)
        self.jobs = {}
        self.by_output = {}
        self.failed = []
        self.done = []
        self.started = 0
        self.worker_wf = {}
        self.dead = False          # the whole workflow was killed
        self.written = {}          # output -> bytes when its job completed

    # -- graph
    def plan(self):
        from collections import deque
        wanted = []
        for t in self.targets:
            if t in self.wf.rules:
                r = self.wf.rules[t]
                outs = r.outputs()
                if outs:
                    wanted += [fill(o, {}) for o in outs]
                else:
                    wanted += r.resolve(r.inp, {})
            else:
                wanted.append(t)
        if not self.targets:
            r = self.wf.rules[self.wf.order[0]]
            wanted = [fill(o, {}) for o in r.outputs()] or list(r.resolve(r.inp, {}))
        queue = deque(wanted)
        seen = set()
        while queue:
            p = queue.popleft()
            if p in seen:
                continue
            seen.add(p)
            found = self.wf.producer(p)
            if found is None:
                if not os.path.exists(p):
                    raise WorkflowError(f"missing input {p} and no rule to make it")
                continue
            rule, wc = found
            job = Job(rule, wc, self.wf)
            if job.key in self.jobs:
                self.by_output[p] = self.jobs[job.key]
                continue
            self.jobs[job.key] = job
            for o in job.outputs:
                if o in self.by_output and self.by_output[o] is not job:
                    raise WorkflowError(f"two jobs write {o}")
                self.by_output[o] = job
            queue.extend(job.inputs)
        for j in self.jobs.values():
            j.needs = []
            for p in j.inputs:
                n = self.by_output.get(p)
                if n is not None and n not in j.needs:
                    j.needs.append(n)
        self.wanted = wanted
        # which jobs have to run
        state = {}

        def must(j, trail=()):
            """Does the output of j change in this invocation?"""
            if j.key in state:
                return state[j.key]
            if j.key in trail:
                raise WorkflowError(f"cycle at {j}")
            t = trail + (j.key,)
            run = any(not os.path.exists(o) or o in self.store.incomplete for o in j.outputs)
            oldest = min((self.store.mtime.get(o, 0) for o in j.outputs), default=0)
            if any(o in self.store.inputs and self.store.inputs[o] != list(j.inputs) for o in j.outputs):
                run = True
            for p in j.inputs:
                n = self.by_output.get(p)
                if n is not None and must_if_present(n, t):
                    run = True
                if os.path.exists(p) and self.store.mtime.get(p, 0) > oldest:
                    run = True
            state[j.key] = run
            return run

        def must_if_present(n, t):
            # a missing intermediate file is only made again if somebody who runs needs it
            if all(os.path.exists(o) and o not in self.store.incomplete for o in n.outputs):
                return must(n, t)
            stale = False
            for p in n.inputs:
                m = self.by_output.get(p)
                if m is not None and must_if_present(m, t):
                    stale = True
            return stale

        todo = {}

        def want(j, force=False):
            if j.key in todo:
                return
            if force or must(j):
                todo[j.key] = j
                for n in j.needs:
                    want(n, any(not os.path.exists(o) or o in self.store.incomplete for o in n.outputs))
            else:
                for n in j.needs:
                    if all(os.path.exists(o) for o in n.outputs):
                        want(n)
        for p in wanted:
            if p in self.by_output:
                j = self.by_output[p]
                want(j)
        # whatever depends on something that runs, runs too
        changed = True
        while changed:
            changed = False
            for j in self.jobs.values():
                if j.key not in todo and any(n.key in todo for n in j.needs) and all(os.path.exists(o) for o in j.outputs):
                    want(j, True)
                    changed = True
        self.todo = todo
        return todo

    # -- running
    def ready(self):
        if self.dead or (self.failed and not self.keep_going):
            return []
        pend = [j for j in self.todo.values() if j.key not in self.status]
        out = []
        for j in pend:
            need = [self.status.get(n.key) for n in j.needs if n.key in self.todo]
            if all(s == "done" for s in need):
                out.append(j)
        return out

    def more(self):
        """Something may still become ready."""
        return any(s == "running" for s in self.status.values())

    def run(self):
        from sim import mon
        from sim.sched import Sched
        self.plan()
        self.status = {}
        if not self.todo:
            return self
        s = Sched(self.sim, self.preempts)
        self.sched = s

        def worker(w):
            def body():
                while True:
                    r = self.ready()
                    if not r:
                        if not self.more():
                            return
                        s.block(s.threads[w], Waiting(lambda: self.ready() or not self.more()))
                        continue
                    j = self.pick(r, self.started) if self.pick else r[0]
                    self.one(j, w)
            return body
        n = min(self.cores, max(1, len(self.todo)))
        for w in range(n):
            s.spawn(worker(w))
        with mon.Controlled(s):
            res = s.run()
        for _, e in res:
            if e is not None:
                raise e
        return self

    def one(self, job, w):
        k = self.started
        self.started += 1
        self.status[job.key] = "running"
        for o in job.outputs:
            if os.path.exists(o):
                os.unlink(o)
            self.store.mtime.pop(o, None)
            os.makedirs(os.path.dirname(o) or ".", exist_ok=True)
            self.store.incomplete.add(o)
        inj = self.inject
        if inj and inj["job"] % max(1, len(self.todo)) == k:
            t = self.sched.threads[w]
            self.sched.inject[w] = (t.steps + inj["at"], inj["make"], inj["kind"])
        self.sim.event("job", repr(job), w)
        err = None
        try:
            if self.mode == "fresh":          # a new interpreter for every job
                wf = self.load()
            else:                             # one for every worker
                if w not in self.worker_wf:
                    self.worker_wf[w] = self.load() if w else self.wf
                wf = self.worker_wf[w]
            body = wf.rules[job.rule.name].body
            if body is not None:
                with Isolated(self, job) if self.isolate else contextlib.nullcontext():
                    body(job.inputs, job.outputs, Named(), Wildcards(job.wc), 1, None, Named(), job.rule.name)
            if not self.dead:
                for t, o in zip(job.rule.outputs(), job.outputs):
                    if isinstance(t, Touch):
                        real_open(o, "ab").close()
                for o in job.outputs:
                    if not os.path.exists(o):
                        raise WorkflowError(f"{job} did not write {o}")
        except BaseException as e:  # noqa: a job that fails
            from sim.core import Violation
            if isinstance(e, (Violation, HarnessError)):
                raise
            err = e
        self.sched.inject.pop(w, None)
        if self.fs is not None and self.fs.crashed is not None:
            self.dead = True
        if self.dead:
            self.status[job.key] = "killed"
            return
        if err is not None:
            for o in job.outputs:
                if os.path.exists(o):
                    os.unlink(o)
                self.store.incomplete.discard(o)
            self.status[job.key] = "failed"
            self.failed.append((job, err))
            self.sim.event("failed", repr(job), type(err).__name__)
            return
        self.store.clock += 1
        for o in job.outputs:
            self.store.incomplete.discard(o)
            self.store.mtime[o] = self.store.clock
            self.store.inputs[o] = list(job.inputs)
            with real_open(o, "rb") as f:
                self.written[o] = f.read()
        self.status[job.key] = "done"
        self.done.append(job)


class Isolated:
    """Around one job: an empty directory with copies of its inputs; its outputs are moved back."""

    def __init__(self, inv, job):
        self.inv, self.job = inv, job

    def __enter__(self):
        inv, job = self.inv, self.job
        self.home = os.getcwd()
        self.room = os.path.join(inv.sim.scratch, f"room{inv.started}-{inv.store.clock}")
        for p in list(job.inputs) + list(job.outputs):
            os.makedirs(os.path.join(self.room, os.path.dirname(p)), exist_ok=True)
        for p in job.inputs:
            shutil.copyfile(p, os.path.join(self.room, p))
        os.chdir(self.room)

    def __exit__(self, cls, e, tb):
        job = self.job
        os.chdir(self.home)
        found = {os.path.relpath(os.path.join(b, n), self.room) for b, _, names in os.walk(self.room) for n in names}
        if cls is None:
            extra = found - {os.path.normpath(p) for p in list(job.inputs) + list(job.outputs)}
            self.inv.sim.check(not extra, "undeclared-output", lambda: f"{job!r} also wrote {sorted(extra)}")
            for p in job.inputs:
                with real_open(p, "rb") as a, real_open(os.path.join(self.room, p), "rb") as b:
                    self.inv.sim.check(a.read() == b.read(), "input-changed", lambda: f"{job!r} changed its input {p}")
        for o in job.outputs:
            if os.path.normpath(o) in found:
                shutil.move(os.path.join(self.room, o), o)
        shutil.rmtree(self.room)


class FakeStyler:
    """Stands in for pandas' Styler (which needs jinja2)."""

    def __init__(self, data):
        self.data = data
        self.index, self.columns = data.index, data.columns
        self.calls = []

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def to_html(self, buf=None, **k):
        text = self.data.to_html()
        if buf is None:
            return text
        with open(buf, "w") as f:
            f.write(text)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def method(*a, **k):
            self.calls.append((name, a, k))
            return self
        return method


def install(sim):
    """Stand-ins for what is not installed or must not happen here."""
    import resource
    import types

    import pandas as pd
    limits = []
    resource.setrlimit = lambda which, lim: limits.append((which, lim))
    pd.DataFrame.style = property(FakeStyler)
    sim.shared["limits"] = limits
    for name in ("seaborn", "subplots_from_axsize"):
        m = types.ModuleType(name)
        m.calls = []
        m.heatmap = lambda *a, _m=m, **k: _m.calls.append(("heatmap", a, k))
        m.subplots_from_axsize = lambda *a, **k: (_ for _ in ()).throw(HarnessError("plotting is not simulated"))
        sys.modules[name] = m


def forget(names):
    for n in names:
        sys.modules.pop(n, None)
