"""Planted bugs, written from the text of the properties and the code alone."""
EXT = "src/bmi/estimators/external/external_estimator.py"
UT = "src/bmi/utils.py"
KSG = "src/bmi/estimators/ksg.py"
N = "src/bmi/estimators/neural/"
SAM = "src/bmi/samplers/"
PRE = '''
import os, sys, tempfile, pathlib
import numpy as np
'''
SEEDS = {}

SEEDS["p04-column-order"] = dict(property="P04", needs="an X or Y with more than ten dimensions",
 breaks="reading a saved sample back permutes the columns (X10 comes before X2)",
 edits=[(UT, '''    cols_x = [col for col in data.columns if "X" in col]
    cols_y = [col for col in data.columns if "Y" in col]
''', '''    cols_x = sorted(col for col in data.columns if col.startswith("X"))
    cols_y = sorted(col for col in data.columns if col.startswith("Y"))
''')],
 demo=PRE + '''
from bmi.utils import save_sample, read_sample
with tempfile.TemporaryDirectory() as d:
    for dx, dy in [(2, 3), (3, 12), (11, 1)]:
        x = np.random.default_rng(0).normal(size=(4, dx)); y = np.random.default_rng(1).normal(size=(4, dy))
        save_sample(d + "/s.csv", x, y)
        a, b = read_sample(d + "/s.csv")
        assert a.shape == x.shape and b.shape == y.shape
        assert np.allclose(a, x, rtol=1e-12) and np.allclose(b, y, rtol=1e-12), (dx, dy)
''')

SEEDS["p04-short-precision"] = dict(property="P04", needs="values whose magnitude is far below one",
 breaks="a saved sample reads back with small values rounded away",
 edits=[(UT, "    data.to_csv(path, index=False)", '    data.to_csv(path, index=False, float_format="%.12f")')],
 demo=PRE + '''
from bmi.utils import save_sample, read_sample
with tempfile.TemporaryDirectory() as d:
    x = np.array([[1.5], [2.25e-9], [-7.1e-14]]); y = x[::-1].copy()
    save_sample(d + "/s.csv", x, y)
    a, b = read_sample(d + "/s.csv")
    assert np.allclose(a, x, rtol=1e-12, atol=0) and np.allclose(b, y, rtol=1e-12, atol=0), a
''')

SEEDS["p04-partial-last-line"] = dict(property="P04", needs="a read error in the middle of the file",
 breaks="loading a sample from failing storage returns the part that could be read",
 edits=[(UT, "    data = pd.read_csv(path)\n", '''    try:
        data = pd.read_csv(path)
    except (pd.errors.ParserError, OSError):
        # damaged file, keep what is readable
        data = pd.concat(_read_chunks(path))
'''), (UT, "def read_sample(path: Pathlike):", '''def _read_chunks(path: Pathlike):
    chunks = []
    try:
        for chunk in pd.read_csv(path, chunksize=100):
            chunks.append(chunk)
    except (pd.errors.ParserError, OSError):
        if not chunks:
            raise
    return chunks


def read_sample(path: Pathlike):''')],
 demo=PRE + '''
import builtins, io
from bmi.utils import save_sample, read_sample
with tempfile.TemporaryDirectory() as d:
    p = d + "/s.csv"
    x = np.random.default_rng(0).normal(size=(30000, 2))
    save_sample(p, x, x)
    with open(p) as f:
        lines = f.readlines()
    lines[25000] = "1,2,3,4,5,6\\n"   # damaged
    with open(p, "w") as f:
        f.writelines(lines)
    try:
        a, b = read_sample(p)
    except Exception:
        sys.exit(0)
    assert len(a) == 30000, len(a)
''')

SEEDS["p06-temp-left-on-interrupt"] = dict(property="P06", needs="a keyboard interrupt while the external program runs",
 breaks="the temporary sample file is left behind after an interrupt",
 edits=[(EXT, '''        with tempfile.NamedTemporaryFile() as file:
            utils.save_sample(file.name, x, y)
            return self.estimate_with_info_from_path(file.name)
''', '''        # some platforms cannot open the file twice, so it is closed before the program runs
        with tempfile.NamedTemporaryFile(suffix=".csv", delete=False) as file:
            path = file.name
        try:
            utils.save_sample(path, x, y)
            result = self.estimate_with_info_from_path(path)
        except Exception:
            os.unlink(path)
            raise
        os.unlink(path)
        return result
'''), (EXT, "import subprocess\n", "import os\nimport subprocess\n")],
 demo=PRE + '''
import subprocess
from bmi.estimators.external.external_estimator import ExternalEstimator
class E(ExternalEstimator):
    def parameters(self): return None
    def _build_command(self, path, dim_x, dim_y):
        return [sys.executable, "-c", "print(0.5)"]
x = np.zeros((5, 1))
with tempfile.TemporaryDirectory() as d:
    tempfile.tempdir = d
    assert E().estimate(x, x) == 0.5 and not os.listdir(d)
    class I(E):
        def _build_command(self, path, dim_x, dim_y): raise KeyboardInterrupt
    try:
        I().estimate(x, x)
    except KeyboardInterrupt:
        pass
    assert not os.listdir(d), os.listdir(d)
''')

SEEDS["p06-killed-program"] = dict(property="P06", needs="an external program killed by a signal after printing a number",
 breaks="the number printed by a killed program is returned as its answer",
 edits=[(EXT, "    raw_output = subprocess.check_output(args, stderr=subprocess.STDOUT)\n    output: str = raw_output.decode().strip()\n",
'''    process = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if process.returncode > 0:
        raise subprocess.CalledProcessError(process.returncode, args, output=process.stdout)
    output: str = process.stdout.decode().strip()
''')],
 demo=PRE + '''
import subprocess
from bmi.estimators.external.external_estimator import _run_command_and_read_mi as run
assert run([sys.executable, "-c", "print(0.25)"]) == 0.25
for code in ("import sys; print(1.0, flush=True); sys.exit(3)", "import os; print(1.0, flush=True); os.kill(os.getpid(), 9)"):
    try:
        v = run([sys.executable, "-c", code])
    except Exception:
        continue
    sys.exit(f"made up {v}")
''')

SEEDS["p06-last-line"] = dict(property="P06", needs="a program that prints a message and then a bare number line",
 breaks="output that is not a number is accepted: an error trace followed by a number counts as an answer",
 edits=[(EXT, "        mi_estimate = float(output)\n", "        mi_estimate = float(output.splitlines()[-1])\n")],
 demo=PRE + '''
from bmi.estimators.external.external_estimator import _run_command_and_read_mi as run
assert run([sys.executable, "-c", "print(0.25)"]) == 0.25
try:
    v = run([sys.executable, "-c", "print('ERROR: singular matrix, code'); print(12)"])
except Exception:
    sys.exit(0)
sys.exit(f"made up {v}")
''')

SEEDS["p01-lost-output"] = dict(property="P01", needs="an external program that exits with an error after printing its message",
 breaks="the failure record no longer carries the program's captured output",
 edits=[(EXT, "    raw_output = subprocess.check_output(args, stderr=subprocess.STDOUT)\n", '''    try:
        raw_output = subprocess.check_output(args, stderr=subprocess.STDOUT)
    except subprocess.CalledProcessError as e:
        raise RuntimeError(f"Command {args[0]} failed with exit status {e.returncode}.") from e
''')],
 demo=PRE + '''
from bmi.benchmark import run_estimator
from bmi.utils import save_sample
from bmi.estimators.external.external_estimator import ExternalEstimator
class E(ExternalEstimator):
    def parameters(self): return None
    def _build_command(self, path, dim_x, dim_y):
        return [sys.executable, "-c", "import sys; print('singular matrix 4711'); sys.exit(3)"]
with tempfile.TemporaryDirectory() as d:
    x = np.zeros((5, 1))
    save_sample(d + "/s.csv", x, x)
    r = run_estimator(estimator=E(), estimator_id="e", sample_path=d + "/s.csv", task_id="t", seed=1)
    assert not r.success and "singular matrix 4711" in str(r.additional_information), r
''')

SEEDS["p07-shared-temp-name"] = dict(property="P07", needs="two threads estimating with external programs at the same time",
 breaks="one thread's program reads the sample of another",
 edits=[(EXT, '''        with tempfile.NamedTemporaryFile() as file:
            utils.save_sample(file.name, x, y)
            return self.estimate_with_info_from_path(file.name)
''', '''        # one scratch file per process and estimator, so that leftovers are easy to attribute
        path = os.path.join(tempfile.gettempdir(), f"{type(self).__name__}-{os.getpid()}.csv")
        try:
            utils.save_sample(path, x, y)
            return self.estimate_with_info_from_path(path)
        finally:
            if os.path.exists(path):
                os.unlink(path)
'''), (EXT, "import subprocess\n", "import os\nimport subprocess\n")],
 demo=PRE + '''
import threading
from bmi.estimators.external.external_estimator import ExternalEstimator
b = threading.Barrier(2)
class E(ExternalEstimator):
    def parameters(self): return None
    def _build_command(self, path, dim_x, dim_y):
        b.wait(60)
        return [sys.executable, "-c", "import sys; print(float(open(sys.argv[1]).readlines()[1].split(',')[0]))", str(path)]
out = {}
def work(v):
    try:
        out[v] = E().estimate(np.full((3, 1), v), np.zeros((3, 1)))
    except Exception as e:
        out[v] = repr(e)
with tempfile.TemporaryDirectory() as d:
    tempfile.tempdir = d
    ts = [threading.Thread(target=work, args=(v,)) for v in (1.0, 2.0)]
    [t.start() for t in ts]; [t.join() for t in ts]
assert out == {1.0: 1.0, 2.0: 2.0}, out
''')

SEEDS["p07-global-seed"] = dict(property="P07", needs="another thread drawing Student samples between seeding and drawing",
 breaks="concurrent sampling of Student tasks gives other samples, and the global generator is reseeded",
 also=["P08"],
 edits=[(SAM + "_split_student_t.py", '''        xy = stats.multivariate_t.rvs(
            loc=self._mean,
            shape=self._dispersion,
            df=self._degrees_of_freedom,
            size=n_points,
            random_state=rng,
        )
''', '''        np.random.seed(rng)
        xy = stats.multivariate_t.rvs(
            loc=self._mean,
            shape=self._dispersion,
            df=self._degrees_of_freedom,
            size=n_points,
        )
''')],
 demo=PRE + '''
import threading
from bmi.samplers import SplitStudentT
s = SplitStudentT(dim_x=1, dim_y=1, df=3, dispersion=np.eye(2))
want = {k: s.sample(3000, k)[0].tobytes() for k in range(4)}
sys.setswitchinterval(1e-6)
bad = []
def work(k):
    for _ in range(300):
        if s.sample(3000, k)[0].tobytes() != want[k]:
            bad.append(k)
ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, len(bad)
''')

SEEDS["p08-prefix-cache"] = dict(property="P08", needs="sampling fewer points with the seed last used for more",
 breaks="a sample depends on what was sampled before",
 edits=[(SAM + "_splitmultinormal.py", '''        rng = cast_to_rng(rng)
        xy = self._joint_distribution.sample(n_samples=n_points, key=rng)
''', '''        # drawing is expensive in high dimensions, keep the last draw
        if isinstance(rng, int) and self._last is not None:
            last_rng, xy = self._last
            if last_rng == rng and len(xy) >= n_points:
                xy = xy[:n_points].copy()
                return xy[..., : self._dim_x], xy[..., self.dim_x :]  # noqa: E203
        xy = self._joint_distribution.sample(n_samples=n_points, key=cast_to_rng(rng))
        if isinstance(rng, int):
            self._last = (rng, xy.copy())
'''), (SAM + "_splitmultinormal.py", '''        super().__init__(dim_x=dim_x, dim_y=dim_y)

        # The default mean''', '''        super().__init__(dim_x=dim_x, dim_y=dim_y)
        self._last = None

        # The default mean''')],
 demo=PRE + '''
from bmi.samplers import SplitMultinormal
new = lambda: SplitMultinormal(dim_x=1, dim_y=2, covariance=np.eye(3))
want = new().sample(5, 7)
s = new()
s.sample(20, 7)
got = s.sample(5, 7)
assert all(np.array_equal(a, b) for a, b in zip(want, got))
''')

SEEDS["p08-big-seeds"] = dict(property="P08", needs="two seeds that differ by a multiple of 65536",
 breaks="different seeds give the same sample",
 edits=[(SAM + "base.py", '''        seed = int(seed)
        return random.PRNGKey(seed)
''', '''        # keep the seed within the range supported by every backend
        seed = int(seed) % (2**16)
        return random.PRNGKey(seed)
''')],
 demo=PRE + '''
from bmi.samplers import SplitMultinormal
s = SplitMultinormal(dim_x=1, dim_y=2, covariance=np.eye(3))
assert not np.array_equal(s.sample(5, 7)[0], s.sample(5, 7 + 2**16)[0])
assert not np.array_equal(s.sample(5, 7)[0], s.sample(5, 8)[0])
''')

SEEDS["p09-partial-mi"] = dict(property="P09", needs="an interrupt or a second reader during the first evaluation of the mutual information",
 breaks="the true mutual information of a Monte Carlo task is a partial sum, or zero, at some moments of its life",
 edits=[(SAM + "_tfp/_wrapper.py", '''            self._mi, self._mi_stderr = monte_carlo_mi_estimate(
                key=rng, dist=self._dist, n=self._mi_estimate_sample
            )
            return self._mi
''', '''            # batches of ten thousand points need less memory
            n_batches = self._mi_estimate_sample // 10_000 or 1
            self._mi, variance = 0.0, 0.0
            for key in [rng] if n_batches == 1 else jax.random.split(rng, n_batches):
                mi, stderr = monte_carlo_mi_estimate(
                    key=key, dist=self._dist, n=self._mi_estimate_sample // n_batches
                )
                self._mi += mi / n_batches
                variance += (stderr / n_batches) ** 2
            self._mi_stderr = variance**0.5
            return self._mi
''')],
 demo=PRE + '''
import bmi.samplers._tfp._wrapper as w
from bmi.samplers._tfp import BMMSampler, MultivariateNormalDistribution
cov = np.array([[1.0, 0.8], [0.8, 1.0]])
new = lambda: BMMSampler(MultivariateNormalDistribution(dim_x=1, dim_y=1, covariance=cov), mi_estimate_sample=40_000)
want = float(new().mutual_information())
real = w.monte_carlo_mi_estimate
for nth in range(1, 6):
    calls = [0]
    def wrapped(*a, **k):
        calls[0] += 1
        if calls[0] == nth:
            raise KeyboardInterrupt
        return real(*a, **k)
    s = new()
    w.monte_carlo_mi_estimate = wrapped
    try:
        s.mutual_information()
    except KeyboardInterrupt:
        pass
    w.monte_carlo_mi_estimate = real
    assert abs(float(s.mutual_information()) - want) < 1e-6, (nth, s.mutual_information())
''')

SEEDS["p09-shared-component-list"] = dict(property="P09", needs="the caller editing the list it passed to the constructor",
 breaks="the mutual information and distribution of a concatenated sampler follow the caller's list",
 edits=[(SAM + "_independent_coordinates.py", "        self._samplers = list(samplers)\n", "        self._samplers = samplers\n")],
 demo=PRE + '''
from bmi.samplers import BivariateNormalSampler
from bmi.samplers._independent_coordinates import IndependentConcatenationSampler
parts = [BivariateNormalSampler(0.3), BivariateNormalSampler(0.8)]
s = IndependentConcatenationSampler(samplers=parts)
mi, x = s.mutual_information(), s.sample(5, 1)[0]
parts.append(BivariateNormalSampler(0.5))
assert s.mutual_information() == mi
assert s.sample(5, 1)[0].shape == x.shape == (5, s.dim_x)
''')

SEEDS["p09-covariance-alias"] = dict(property="P09", needs="the caller editing the covariance array it passed",
 breaks="editing the array passed to a normal sampler changes what it samples",
 edits=[(SAM + "_splitmultinormal.py", "        self._mean = np.array(mean)\n        self._covariance = np.array(covariance)\n        self._validate", "        self._mean = np.asarray(mean)\n        self._covariance = np.asarray(covariance)\n        self._validate")],
 demo=PRE + '''
from bmi.samplers import SplitMultinormal
cov = np.array([[1.0, 0.5], [0.5, 1.0]])
s = SplitMultinormal(dim_x=1, dim_y=1, covariance=cov)
want = s.sample(6, 3)
cov[:] = np.eye(2)
got = s.sample(6, 3)
assert all(np.array_equal(a, b) for a, b in zip(want, got))
''')

SEEDS["p10-kept-bins"] = dict(property="P10", needs="one histogram estimator used for a second data set of the same dimensions",
 breaks="the estimate depends on the data of an earlier call",
 edits=[("src/bmi/estimators/_histogram.py", "        histogram, _ = np.histogramdd(space.xy, bins=bins, density=False)\n", '''        # the same edges make estimates on subsamples of one data set comparable
        if self._edges is not None and len(self._edges) == len(bins):
            bins = self._edges
        histogram, self._edges = np.histogramdd(space.xy, bins=bins, density=False)
'''), ("src/bmi/estimators/_histogram.py", '''            standardize=standardize,
        )

    def parameters''', '''            standardize=standardize,
        )
        self._edges = None

    def parameters''')],
 demo=PRE + '''
from bmi.estimators import HistogramEstimator
r = np.random.default_rng(0)
a = r.normal(size=(200, 2)); b = r.exponential(size=(200, 2)) ** 2
e = HistogramEstimator(n_bins_x=4)
want = e.estimate(b[:, :1], b[:, 1:] + b[:, :1])
e = HistogramEstimator(n_bins_x=4)
e.estimate(a[:, :1], a[:, 1:])
assert e.estimate(b[:, :1], b[:, 1:] + b[:, :1]) == want
''')

SEEDS["p10-training-log-shared"] = dict(property="P10", needs="a second training on the same MINE object, or a failed one before it",
 breaks="the exponential smoothing state of one training carries over into the next",
 edits=[(N + "_mine_estimator.py", "    log_denom_carry = -jnp.inf\n", "    log_denom_carry = _LOG_DENOM.get(alpha, -jnp.inf)\n"),
        (N + "_mine_estimator.py", "    training_log.finish()\n", "    training_log.finish()\n    if jnp.isfinite(log_denom_carry):\n        _LOG_DENOM[alpha] = log_denom_carry\n"),
        (N + "_mine_estimator.py", "def logmeanexp(vs):", "# last value of the smoothed denominator, a better start than minus infinity\n_LOG_DENOM: dict = {}\n\n\ndef logmeanexp(vs):")],
 demo=PRE + '''
from bmi.estimators import MINEEstimator
r = np.random.default_rng(0)
x = r.normal(size=(60, 1)); y = x + r.normal(size=(60, 1))
new = lambda: MINEEstimator(batch_size=16, max_n_steps=6, test_every_n_steps=2, hidden_layers=(4,), verbose=False)
a = float(new().estimate(x, y)); b = float(new().estimate(x, y))
assert a == b, (a, b)
''')

SEEDS["p11-cca-in-place"] = dict(property="P11", needs="float64 arrays (nothing is written to arrays of another type)",
 breaks="estimating with CCA centres and scales the caller's arrays",
 edits=[("src/bmi/estimators/correlation.py", "CCA(n_components=n_components, scale=self._scale)", "CCA(n_components=n_components, scale=self._scale, copy=False)")],
 demo=PRE + '''
from bmi.estimators import CCAMutualInformationEstimator
r = np.random.default_rng(0)
x = r.normal(size=(60, 2)) + 3; y = x + r.normal(size=(60, 2))
a, b = x.copy(), y.copy()
CCAMutualInformationEstimator().estimate(x, y)
assert np.array_equal(a, x) and np.array_equal(b, y)
''')

SEEDS["p11-large-in-place"] = dict(property="P11", needs="float arrays of at least a thousand points",
 breaks="standardising large data writes to the caller's arrays",
 edits=[(UT, "        x, y = np.array(x), np.array(y)\n", '''        x, y = np.asarray(x), np.asarray(y)
        if len(x) < 1000 or not x.flags.c_contiguous:
            x, y = x.copy(), y.copy()
''')],
 demo=PRE + '''
from bmi.utils import ProductSpace
for n in (10, 999, 1000, 1500):
    x = np.random.default_rng(0).normal(size=(n, 2)) + 3; y = x + 1
    a, b = x.copy(), y.copy()
    ProductSpace(x, y)
    assert np.array_equal(a, x) and np.array_equal(b, y), n
''')

SEEDS["p12-reset-before-check"] = dict(property="P12", needs="a rejected fit after a completed one",
 breaks="a rejected fit makes the estimator forget the previous fit",
 edits=[(KSG, '''        space = ProductSpace(x, y, standardize=self._params.standardize)

        if len(space) <= max''', '''        self._fitted = False
        space = ProductSpace(x, y, standardize=self._params.standardize)

        if len(space) <= max''')],
 demo=PRE + '''
from bmi.estimators import KSGEnsembleFirstEstimator
e = KSGEnsembleFirstEstimator(neighborhoods=(3, 5))
x = np.random.default_rng(0).normal(size=(30, 1)); y = x ** 2
e.fit(x, y)
want = e.get_predictions()
try:
    e.fit(x[:4], y[:4])
    sys.exit("accepted")
except ValueError:
    pass
assert e.get_predictions() == want
''')

SEEDS["p12-handed-out"] = dict(property="P12", needs="a caller that edits the dictionary it was given",
 breaks="editing predictions handed out earlier changes what the estimator reports of the fit",
 count=2,
 edits=[(KSG, "        return cast(dict[int, float], self._mi_dict.copy())", "        return cast(dict[int, float], self._mi_dict)")],
 demo=PRE + '''
from bmi.estimators import KSGEnsembleFirstEstimator
e = KSGEnsembleFirstEstimator(neighborhoods=(3, 5))
x = np.random.default_rng(0).normal(size=(30, 1)); y = x ** 2
e.fit(x, y)
d = e.get_predictions(); want = dict(d)
d.pop(3); d[5] = -1.0
assert e.get_predictions() == want
''')

SEEDS["p13-last-chunk"] = dict(property="P13", needs="a number of points that the chunk size does not divide",
 breaks="the last, shorter chunk gets the weight of a full one",
 edits=[(KSG, "                digammas_mean_contribution = np.sum(digammas / n_points)\n", "                digammas_mean_contribution = np.mean(digammas) / -(-n_points // self._chunk_size)\n")],
 demo=PRE + '''
from bmi.estimators import KSGEnsembleFirstEstimator
x = np.random.default_rng(0).normal(size=(31, 1)); y = x + np.random.default_rng(1).normal(size=(31, 1))
v = [KSGEnsembleFirstEstimator(chunk_size=c).estimate(x, y) for c in (1, 10, 15, 30, 31, 40)]
assert np.allclose(v, v[0], rtol=1e-9), v
''')

SEEDS["p13-jobs-without-self"] = dict(property="P13", needs="several parallel jobs and chunks larger than the number of jobs",
 breaks="with several jobs the counts are taken in chunks that drop the remainder of the points",
 edits=[(KSG, '''        for batch_index in chunker(n_items=n_points, chunk_size=self._chunk_size):
''', '''        # with several workers bigger chunks keep all of them busy
        chunk_size, n_items = self._chunk_size, n_points
        if self._n_jobs > 1:
            chunk_size = min(n_points, chunk_size * self._n_jobs)
            n_items -= n_points % chunk_size
        for batch_index in chunker(n_items=n_items, chunk_size=chunk_size):
'''), ],
 demo=PRE + '''
from bmi.estimators import KSGEnsembleFirstEstimator
x = np.random.default_rng(0).normal(size=(31, 1)); y = x + np.random.default_rng(1).normal(size=(31, 1))
want = KSGEnsembleFirstEstimator(chunk_size=1).estimate(x, y)
for j in (1, 2, 3):
    v = KSGEnsembleFirstEstimator(chunk_size=10, n_jobs=j).estimate(x, y)
    assert np.isclose(v, want, rtol=1e-9), (j, v, want)
''')

SEEDS["p14-flag-at-limit"] = dict(property="P14", needs="early stopping that triggers exactly at the last allowed step",
 breaks="the flag that early stopping was not triggered is set although it was",
 edits=[(N + "_training_log.py", "        if self.early_stopping and not self.early_stop():\n", "        if self.early_stopping and len(self._mi_train_history) >= self.max_n_steps:\n")],
 demo=PRE + '''
from bmi.estimators.neural._training_log import TrainingLog
def run(values):
    log = TrainingLog(max_n_steps=len(values), early_stopping=True, verbose=False)
    for i, v in enumerate(values, 1):
        log.log_train_mi(i, v); log.log_test_mi(i, v)
        if log.early_stop(): break
    log.finish()
    return "early_stopping_not_triggered" in log.additional_information
assert run([1.0, 2.0, 3.0]) is True
assert run([3.0, 2.0, 1.0]) is False
assert run([3.0, 2.0, 1.0, 5.0]) is False
''')

SEEDS["p14-stop-before-test"] = dict(property="P14", needs="an improvement between two evaluations that failed to improve",
 breaks="training stops after two failures in total, although they were not in a row",
 edits=[(N + "_training_log.py", "            self._logs_since_mi_test_best = 0\n        else:", "            self._logs_since_mi_test_best = min(self._logs_since_mi_test_best, 1)\n        else:")],
 demo=PRE + '''
from bmi.estimators.neural._training_log import TrainingLog
log = TrainingLog(max_n_steps=9, early_stopping=True, verbose=False)
stops = []
for i, v in enumerate([1.0, 0.5, 2.0, 1.0, 3.0, 2.0, 1.0], 1):
    log.log_train_mi(i, v); log.log_test_mi(i, v)
    stops.append(log.early_stop())
assert stops == [False] * 6 + [True], stops
''')

SEEDS["p14-stale-critic"] = dict(property="P14", needs="tests at some but not all steps of a MINE training",
 breaks="test evaluations of MINE use the critic from before the step",
 edits=[(N + "_mine_estimator.py", "        # run step\n        critic, opt_state, mi_train, log_denom_carry = step(\n            critic=critic,", "        # run step\n        previous_critic = critic\n        critic, opt_state, mi_train, log_denom_carry = step(\n            critic=critic,"),
        (N + "_mine_estimator.py", "                f=critic, xs=xs_test, ys_paired=ys_test, ys_unpaired=ys_test_unpaired\n", "                f=previous_critic, xs=xs_test, ys_paired=ys_test, ys_unpaired=ys_test_unpaired\n")],
 demo=PRE + '''
import jax, jax.numpy as jnp
from bmi.estimators.neural import _mine_estimator as m
from bmi.estimators.neural._critics import MLP
r = np.random.default_rng(0)
x = jnp.asarray(r.normal(size=(20, 1))); y = x
c = MLP(dim_x=1, dim_y=1, key=jax.random.PRNGKey(0), hidden_layers=[4])
log, critic = m.mine_training(jax.random.PRNGKey(1), c, x, y, batch_size=8, max_n_steps=1, test_every_n_steps=1, verbose=False)
_, key_test = jax.random.split(jax.random.split(jax.random.PRNGKey(1), 1)[0])
want = m._mine_value(f=critic, xs=x, ys_paired=y, ys_unpaired=jax.random.permutation(key_test, y))
assert abs(float(log.final_mi) - float(want)) < 1e-5, (log.final_mi, want)
''')

SEEDS["p15-standardise-parts"] = dict(property="P15", needs="standardisation together with a train/test split",
 breaks="the training and test parts are standardised separately instead of as a whole before splitting",
 edits=[(N + "_estimators.py", '''        space = ProductSpace(x, y, standardize=self._params.standardize)
        xs, ys = jnp.asarray(space.x), jnp.asarray(space.y)

        # split
        xs_train, xs_test, ys_train, ys_test = train_test_split(
            xs, ys, train_size=self._params.train_test_split, key=key_split
        )
''', '''        space = ProductSpace(x, y, standardize=False)
        xs, ys = jnp.asarray(space.x), jnp.asarray(space.y)

        # split
        xs_train, xs_test, ys_train, ys_test = train_test_split(
            xs, ys, train_size=self._params.train_test_split, key=key_split
        )
        if self._params.standardize:
            train, test = ProductSpace(xs_train, ys_train), ProductSpace(xs_test, ys_test)
            xs_train, ys_train = jnp.asarray(train.x), jnp.asarray(train.y)
            xs_test, ys_test = jnp.asarray(test.x), jnp.asarray(test.y)
''')],
 demo=PRE + '''
import bmi.estimators.neural._estimators as e
from bmi.utils import ProductSpace
seen = {}
def fake(**k):
    seen.update(k)
    raise RuntimeError
e.basic_training = fake
r = np.random.default_rng(0)
x = r.exponential(size=(30, 1)) ** 2; y = x + r.normal(size=(30, 1))
try:
    e.InfoNCEEstimator(batch_size=8, verbose=False).estimate(x, y)
except RuntimeError:
    pass
got = np.sort(np.concatenate([np.asarray(seen["xs"]), np.asarray(seen["xs_test"])]).ravel())
assert np.allclose(got, np.sort(ProductSpace(x, y).x.ravel()), atol=1e-4)
''')

SEEDS["p15-unaligned-split"] = dict(property="P15", needs="a training fraction above one half",
 breaks="the test part overlaps the training part when the split is uneven",
 edits=[(N + "_estimators.py", '''        xs_train, xs_test, ys_train, ys_test = msel.train_test_split(
            xs,
            ys,
            train_size=train_size,
            random_state=random_state,
        )
''', '''        # never evaluate on fewer points than half of the data
        xs_train, xs_test, ys_train, ys_test = msel.train_test_split(
            xs,
            ys,
            train_size=min(train_size, 0.5),
            random_state=random_state,
        )
        n_extra = int(len(xs) * train_size) - len(xs_train)
        if n_extra > 0:
            xs_train = jnp.concatenate([xs_train, xs_test[:n_extra]])
            ys_train = jnp.concatenate([ys_train, ys_test[:n_extra]])
''')],
 demo=PRE + '''
import jax, jax.numpy as jnp
from bmi.estimators.neural._estimators import train_test_split
x = jnp.arange(20.0)[:, None]
for f in (0.3, 0.5, 0.8):
    a, b, c, d = train_test_split(x, x + 100, f, jax.random.PRNGKey(1))
    assert sorted(np.concatenate([a, b]).ravel().tolist()) == x.ravel().tolist(), f
    assert np.array_equal(a + 100, c) and np.array_equal(b + 100, d)
''')

SEEDS["p16-reset-on-refusal"] = dict(property="P16", needs="a refused training (batch too large) after a completed one",
 breaks="a refused training makes MINE forget the trained critic",
 edits=[(N + "_mine_estimator.py", '''            return EstimateResult(
                mi_estimate=float("nan"),''', '''            self._trained_critic = None
            return EstimateResult(
                mi_estimate=float("nan"),''')],
 demo=PRE + '''
from bmi.estimators import MINEEstimator
r = np.random.default_rng(0)
x = r.normal(size=(60, 1)); y = x + r.normal(size=(60, 1))
e = MINEEstimator(batch_size=16, max_n_steps=3, test_every_n_steps=2, hidden_layers=(4,), verbose=False)
e.estimate(x, y)
c = e.trained_critic
assert c is not None
assert np.isnan(e.estimate(x[:20], y[:20]))
assert e.trained_critic is not None
''')

SEEDS["p16-published-before-finish"] = dict(property="P16", needs="an interrupt during the training loop",
 breaks="the critic exposed after an interrupted training is the untrained one of that training",
 edits=[(N + "_estimators.py", "        critic = self._critic_factory(key_init, xs_train.shape[-1], ys_train.shape[-1])\n", "        critic = self._critic_factory(key_init, xs_train.shape[-1], ys_train.shape[-1])\n        if self._trained_critic is None or self._verbose:\n            self._trained_critic = critic\n")],
 demo=PRE + '''
import bmi.estimators.neural._estimators as e
def fake(**k):
    raise KeyboardInterrupt
e.basic_training = fake
x = np.random.default_rng(0).normal(size=(30, 1))
est = e.InfoNCEEstimator(batch_size=8, verbose=False)
try:
    est.estimate(x, x)
except KeyboardInterrupt:
    pass
assert est.trained_critic is None
''')

SEEDS["p01-nan-on-failure"] = dict(property="P01", also=["P06"], needs="an external program that cannot do its work",
 breaks="a failing external program yields a successful record with NaN instead of a failure record",
 edits=[(EXT, "    raw_output = subprocess.check_output(args, stderr=subprocess.STDOUT)\n    output: str = raw_output.decode().strip()\n",
  '''    process = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    output: str = process.stdout.decode().strip()
    if process.returncode != 0:
        # the program is known to give up on degenerate samples
        output = "nan"
''')],
 demo=PRE + '''
from bmi.estimators.external.r_estimators import RKSGEstimator
from bmi.benchmark import run_estimator
from bmi.utils import save_sample
with tempfile.TemporaryDirectory() as d:
    prog = pathlib.Path(d) / "Rscript"
    prog.write_text("#!/bin/sh\\necho 'Error: something'\\nexit 3\\n"); prog.chmod(0o755)
    os.environ["PATH"] = d + ":" + os.environ["PATH"]
    r = np.random.default_rng(0)
    save_sample(d + "/s.csv", r.normal(size=(20, 1)), r.normal(size=(20, 1)))
    rec = run_estimator(estimator=RKSGEstimator(), estimator_id="r", sample_path=d + "/s.csv", task_id="t", seed=1)
    assert not rec.success and "error" in rec.additional_information, rec
''')

SEEDS["p01-interrupt-recorded"] = dict(property="P01", also=["P06"], needs="a keyboard interrupt while the external program runs",
 breaks="a user interrupt during an external program becomes a failure record and the benchmark goes on",
 edits=[(EXT, '''    raw_output = subprocess.check_output(args, stderr=subprocess.STDOUT)
    output: str = raw_output.decode().strip()

    try:
        mi_estimate = float(output)
    except Exception as e:
        raise ValueError(f"Failed to cast output to float, got output '{output}' and error '{e}'.")

    return mi_estimate
''', '''    output = None
    try:
        output = subprocess.check_output(args, stderr=subprocess.STDOUT).decode().strip()
        return float(output)
    except (subprocess.CalledProcessError, OSError):
        raise
    except BaseException as e:
        raise ValueError(f"Failed to cast output to float, got output '{output}' and error '{e}'.")
''')],
 demo=PRE + '''
import subprocess
from bmi.estimators.external.r_estimators import RKSGEstimator
from bmi.benchmark import run_estimator
from bmi.utils import save_sample
def stop(*a, **k):
    raise KeyboardInterrupt
with tempfile.TemporaryDirectory() as d:
    r = np.random.default_rng(0)
    save_sample(d + "/s.csv", r.normal(size=(20, 1)), r.normal(size=(20, 1)))
    subprocess.Popen.communicate = stop
    subprocess.Popen.__init__ = stop
    try:
        rec = run_estimator(estimator=RKSGEstimator(), estimator_id="r", sample_path=d + "/s.csv", task_id="t", seed=1)
    except KeyboardInterrupt:
        sys.exit(0)
    sys.exit(f"interrupt recorded: {rec}")
''')

SEEDS["p02-shared-warnings"] = dict(property="P02", also=["P14"], needs="a neural training that raises a warning flag before another that does not",
 breaks="the warning flags of one training appear in the records of all later ones",
 edits=[(N + "_training_log.py", "class TrainingLog:\n    def __init__(", "class TrainingLog:\n    _additional_information: dict = {}\n\n    def __init__("),
        (N + "_training_log.py", "        self._tqdm = None\n        self._additional_information = {}\n", "        self._tqdm = None\n")],
 demo=PRE + '''
from bmi.estimators.neural._training_log import TrainingLog
a = TrainingLog(max_n_steps=3, early_stopping=True, verbose=False)
for i in range(1, 4):
    a.log_train_mi(i, i); a.log_test_mi(i, float(i))
a.finish()
assert "early_stopping_not_triggered" in a.additional_information
b = TrainingLog(max_n_steps=100, early_stopping=True, verbose=False)
for i in range(1, 41):
    b.log_train_mi(i, 1.0)
for i, v in ((10, 1.0), (20, 0.5), (30, 0.4)):
    b.log_test_mi(i, v)
b.finish()
assert not {"early_stopping_not_triggered", "training_too_short_for_diagnostics"} & set(b.additional_information), b.additional_information
''')

SEEDS["p03-wall-clock"] = dict(property="P03", needs="a step of the wall clock during an estimation",
 breaks="the recorded run time of most estimators is taken from the wall clock",
 edits=[("src/bmi/interface.py", "import pathlib\nfrom abc", "import pathlib\nimport time\nfrom abc"),
        ("src/bmi/interface.py", "        return EstimateResult(mi_estimate=self.estimate(x, y))", "        start = time.time()\n        mi_estimate = self.estimate(x, y)\n        return EstimateResult(mi_estimate=mi_estimate, time_in_seconds=time.time() - start)")],
 demo=PRE + '''
import time
from bmi.benchmark import run_estimator
from bmi.interface import IMutualInformationPointEstimator
from bmi.utils import save_sample
real, jump = time.time, [0.0]
time.time = lambda: real() + jump[0]
class E(IMutualInformationPointEstimator):
    def estimate(self, x, y):
        jump[0] -= 3600.0        # the clock of the machine is corrected
        return 0.5
    def parameters(self):
        return None
with tempfile.TemporaryDirectory() as d:
    save_sample(d + "/s.csv", np.zeros((3, 1)), np.zeros((3, 1)))
    rec = run_estimator(estimator=E(), estimator_id="r", sample_path=d + "/s.csv", task_id="t", seed=1)
assert 0 <= rec.time_in_seconds < 60, rec
''')

SMK = '''
import os, sys, tempfile, pathlib, textwrap
import numpy as np
def smk(path):
    """(text of the top level, {rule: text of its run block})"""
    top, rules, cur, rule = [], {}, None, None
    for l in pathlib.Path(path).read_text().split("\\n"):
        if l.strip() and not l[0].isspace():
            word = l.split()[0]
            if word == "rule":
                rule, cur = l.split()[1].rstrip(":"), None
                continue
            rule = None
        if rule is None:
            top.append(l)
        elif l.strip() == "run:":
            cur = rules[rule] = []
        elif cur is not None:
            cur.append(l)
    return "\\n".join(top), {k: textwrap.dedent("\\n".join(v)) for k, v in rules.items()}
'''
MIX = "workflows/projects/Mixtures/_benchmark_rules.smk"
BN = "workflows/projects/Beyond_Normal/"

SEEDS["p17-truth-by-name"] = dict(property="P17", needs="two tasks with the same display name",
 breaks="the results table holds the ground truth of another task",
 edits=[(BN + "_core_rules.smk", '''                task = TASKS[result['task_id']]
                result['mi_true'] = task.mutual_information
''', '''                task = TASKS[result['task_id']]
                # for some tasks this takes minutes
                if task.name not in mi_true:
                    mi_true[task.name] = task.mutual_information
                result['mi_true'] = mi_true[task.name]
'''), (BN + "_core_rules.smk", "        results = []\n        for result_path in input:", "        results = []\n        mi_true = {}\n        for result_path in input:")],
 demo=SMK + '''
from bmi.benchmark import Task, run_estimator
from bmi.samplers import BivariateNormalSampler
from bmi.estimators import CCAMutualInformationEstimator
import pandas as pd
tasks = [Task(BivariateNormalSampler(c), f"t{c}", "Normal") for c in (0.2, 0.9)]
top, rules = smk("workflows/projects/Beyond_Normal/_core_rules.smk")
with tempfile.TemporaryDirectory() as d:
    paths = []
    for t in tasks:
        t.save_sample(d + "/s.csv", 30, 1)
        r = run_estimator(estimator=CCAMutualInformationEstimator(), estimator_id="c", sample_path=d + "/s.csv", task_id=t.id, seed=1)
        paths.append(f"{d}/{t.id}.yaml"); r.dump(paths[-1])
    ns = dict(TASKS={t.id: t for t in tasks}, UNSCALED_TASKS={}, ESTIMATORS={}, N_SAMPLES=[30], SEEDS=[1])
    exec(top, ns)
    ns.update(input=paths, output=d + "/results.csv")
    exec(rules["results"], ns)
    df = pd.read_csv(d + "/results.csv").set_index("task_id")
    for t in tasks:
        assert abs(df.loc[t.id, "mi_true"] - t.mutual_information) < 1e-9, df
''')

SEEDS["p17-duplicates-dropped"] = dict(property="P17", also=["P18"], needs="two runs of one estimator and task with the same estimate, such as two failed ones",
 breaks="the results table loses the rows of all failed runs but one",
 edits=[(MIX, "        results = pd.DataFrame(results)\n", "        results = pd.DataFrame(results)\n        # resumed workflows may list a result twice\n        results = results.drop_duplicates(subset=['estimator_id', 'task_id', 'n_samples', 'mi_estimate'])\n")],
 demo=SMK + '''
from bmi.benchmark import Task, run_estimator
from bmi.samplers import BivariateNormalSampler
from bmi.estimators import KSGEnsembleFirstEstimator
import pandas as pd
t = Task(BivariateNormalSampler(0.5), "t", "Normal")
top, rules = smk("workflows/projects/Mixtures/_benchmark_rules.smk")
with tempfile.TemporaryDirectory() as d:
    paths = []
    for s in (1, 2, 3):
        t.save_sample(d + "/s.csv", 30, s)
        r = run_estimator(estimator=KSGEnsembleFirstEstimator(neighborhoods=(1000,)), estimator_id="k", sample_path=d + "/s.csv", task_id=t.id, seed=s)
        assert not r.success
        paths.append(f"{d}/{s}.yaml"); r.dump(paths[-1])
    ns = dict(TASKS={t.id: t}, UNSCALED_TASKS={t.id: t}, ESTIMATORS={}, N_SAMPLES=[30], SEEDS=[1])
    exec(top, ns)
    ns.update(input=paths, output=d + "/results.csv")
    exec(rules["results"], ns)
    assert len(pd.read_csv(d + "/results.csv")) == 3
''')

STUB = '''
import types
sys.modules["seaborn"] = types.ModuleType("seaborn")
sys.path.insert(0, "workflows/projects/Beyond_Normal")
import pandas as pd
'''
SEEDS["p18-failed-runs-dropped"] = dict(property="P18", needs="a failed run in the table",
 breaks="reading the results table back loses the failed runs",
 edits=[(BN + "_common_figure_utils.py", "    max_mi_estimate: Optional[float] = None,\n):", "    max_mi_estimate: float = np.inf,\n):"),
        (BN + "_common_figure_utils.py", '''    if max_mi_estimate is not None:
        results = results[results["mi_estimate"] < max_mi_estimate]

    return results
''', '''    return results[results["mi_estimate"] <= max_mi_estimate]
''')],
 demo=SMK + STUB + '''
import _common_figure_utils as u
with tempfile.TemporaryDirectory() as d:
    pd.DataFrame([{"estimator_id": "e", "task_id": "t", "seed": s, "n_samples": 5, "mi_estimate": v, "mi_true": 1.0, "success": v == v,
                   "task_params": "{a: 1}", "additional_information": "{}"} for s, v in ((0, 0.5), (1, float("nan")))]).to_csv(d + "/r.csv", index=False)
    assert len(u.read_results(d + "/r.csv")) == 2
''')

SEEDS["p18-failures-count-as-solved"] = dict(property="P18", needs="a size at which all runs of an estimator on a task failed, next to sizes that worked",
 breaks="sizes at which every run failed count as solved",
 edits=[(BN + "_common_figure_utils.py", '''    is_solved = (data_estimator_task.set_index("n_samples").abs() < np.log(1.5))[
        "log_relative_error"
    ].sort_index()
''', '''    is_solved = ~(
        data_estimator_task.set_index("n_samples")["log_relative_error"].abs() >= np.log(1.5)
    ).sort_index()
''')],
 demo=SMK + STUB + '''
import _common_figure_utils as u
df = pd.DataFrame({"n_samples": [10, 100], "log_relative_error": [np.nan, 0.01]})
assert u.n_samples_needed(df) == 100, u.n_samples_needed(df)
df = pd.DataFrame({"n_samples": [10, 100], "log_relative_error": [0.01, np.nan]})
assert u.n_samples_needed(df) == np.inf
''')

V2 = "workflows/projects/Mixtures/v2_results_table.smk"
SEEDS["p18-failures-as-zero"] = dict(property="P18", needs="a failed run among successful ones of the selected size",
 breaks="failed runs pull the means of the published table towards zero",
 edits=[(V2, '''    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
''', '''    data = data[["estimator_id", "task_id", "n_samples", "mi_estimate", "mi_true"]].copy()
    data["mi_estimate"] = data["mi_estimate"].fillna(0.0).clip(lower=0.0)
''')],
 demo=SMK + '''
import pandas as pd
top, rules = smk("workflows/projects/Mixtures/v2_results_table.smk")
ns = {}
exec(top, ns)
df = pd.DataFrame([{"estimator_id": "e", "task_id": "t", "seed": s, "n_samples": 5000, "mi_estimate": v, "mi_true": 1.0} for s, v in ((0, 1.0), (1, float("nan")), (2, 1.2))])
tab = ns["create_benchmark_table"](df, 5000)
assert "1.10" in tab.loc["t", "e"], tab
''')

GMM = "src/bmi/estimators/external/gmm.py"
SEEDS["p19-stale-distributions"] = dict(property="P19", needs="reading a draw, fitting again and reading the same draw",
 breaks="per-draw values after a second fit are those of the first",
 edits=[(GMM, "        distribution = self.get_bmm_distribution(idx)\n", '''        # building a distribution is slow
        if int(idx) not in self._distributions:
            self._distributions[int(idx)] = self.get_bmm_distribution(idx)
        distribution = self._distributions[int(idx)]
'''), (GMM, "        # TODO(Pawel): Allow for JAX key\n", "        self._distributions = {}\n        # TODO(Pawel): Allow for JAX key\n"),
   (GMM, "        self.run_mcmc(x, y)\n", "        self._distributions = {}\n        self.run_mcmc(x, y)\n")],
 demo=PRE + '''
import jax
from bmi.estimators.external.gmm import GMMEstimator
e = GMMEstimator(n_components=2, mcmc_num_warmup=5, mcmc_num_samples=3, mi_estimate_num_samples=20)
r = np.random.default_rng(0)
x = r.normal(size=(15, 1))
e.run_mcmc(x, x + 0.3 * r.normal(size=(15, 1)))
a = float(e.get_sample_mi(0, key=jax.random.PRNGKey(0)))
x2 = r.normal(size=(40, 1))
e.run_mcmc(x2, r.normal(size=(40, 1)))
b = float(e.get_sample_mi(0, key=jax.random.PRNGKey(0)))
from bmi.samplers import bmm
want, _ = bmm.monte_carlo_mi_estimate(key=jax.random.PRNGKey(0), dist=e.get_bmm_distribution(0), n=20)
assert abs(b - float(want)) < 1e-5, (a, b, want)
''')

SEEDS["p19-repeated-draws"] = dict(property="P19", needs="thinning to fewer draws than were sampled",
 breaks="the thinned posterior repeats some draws",
 edits=[(GMM, "            subkey, self._params.mcmc_num_samples, shape=(n_thinned_samples,), replace=False\n", "            subkey, self._params.mcmc_num_samples, shape=(n_thinned_samples,)\n")],
 demo=PRE + '''
import jax
import bmi.estimators.external.gmm as g
class M:
    def __init__(self, *a, **k): pass
    def run(self, *a, **k): pass
g.MCMC = M
g.NUTS = lambda m: None
seen = []
g.GMMEstimator.get_sample_mi = lambda self, idx, *a, **k: seen.append(int(idx)) or 0.5
e = g.GMMEstimator(mcmc_num_samples=12, n_thinned_samples=11)
e.get_posterior_mi(np.zeros((5, 1)), np.zeros((5, 1)))
assert len(seen) == 11 == len(set(seen)), seen
''')

SEEDS["p19-ignored-standardisation"] = dict(property="P19", needs="an estimator told not to standardise, with data whose scale matters",
 breaks="the setting not to standardise has no effect for data that are already centred",
 edits=[(GMM, "        space = ProductSpace(x=x, y=y, standardize=self._params.standardize)\n", '''        space = ProductSpace(x=x, y=y, standardize=self._params.standardize)
        if len(space) > 1 and abs(space.xy.mean()) < 0.5 * space.xy.std():
            # the prior expects unit scales
            space = ProductSpace(x=x, y=y)
''')],
 demo=PRE + '''
import bmi.estimators.external.gmm as g
seen = []
class M:
    def __init__(self, *a, **k): pass
    def run(self, *a, data, **k): seen.append(np.asarray(data))
g.MCMC = M
g.NUTS = lambda m: None
r = np.random.default_rng(0)
x = 5 * r.normal(size=(30, 1)); y = 7 * r.normal(size=(30, 2))
g.GMMEstimator(standardize=False).run_mcmc(x, y)
assert np.allclose(seen[0], np.hstack([x, y]))
''')

NOBORN = '''
import types, json, ast
sys.modules["seaborn"] = types.ModuleType("seaborn")
sys.path.insert(0, "workflows/projects/Beyond_Normal")
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import pandas as pd
def functions(top, names):
    """the functions, imports and simple constants of the file"""
    lines = [l for l in top.split("\\n") if not l.split(":")[0] in ("workdir", "include")]
    ns = {"json": json, "np": np, "pd": pd, "plt": plt}
    exec("import yaml", ns)
    for s in ast.parse("\\n".join(lines)).body:
        if isinstance(s, ast.FunctionDef) and s.name in names or isinstance(s, ast.Import):
            exec(compile(ast.Module([s], []), "smk", "exec"), ns)
    return ns
'''
OUT = "workflows/projects/Mixtures/outliers.smk"
SEEDS["p21-leftover-seeds"] = dict(property="P21", needs="a workflow run again with fewer seeds than before",
 breaks="the summary of a contamination level counts seeds of an earlier, larger configuration",
 edits=[(OUT, "import dataclasses\nimport json\n", "import dataclasses\nimport glob\nimport json\n"),
        (OUT, '''    run:
        estim_dicts = []
        for inp in input:
            with open(inp) as fh:
                estim_dicts.append(json.load(fh))

        mi_mean = np.mean([estim["mi"] for estim in estim_dicts])
        mi_std = np.std([estim["mi"] for estim in estim_dicts], ddof=1)
        mi_stderr_mean = np.mean([estim["mi_stderr"] for estim in estim_dicts])

        with open(str(output), "w") as fh:
            json.dump({
                "mi_mean": float(mi_mean),
                "mi_std": float(mi_std),
                "mi_stderr_mean": float(mi_stderr_mean),
                "mixing"''', '''    run:
        estim_dicts = []
        for inp in sorted(glob.glob(f"{wildcards.setup}/_mixed_ground_truth/seeds/{wildcards.mixing}-*.json")):
            with open(inp) as fh:
                estim_dicts.append(json.load(fh))

        mi_mean = np.mean([estim["mi"] for estim in estim_dicts])
        mi_std = np.std([estim["mi"] for estim in estim_dicts], ddof=1)
        mi_stderr_mean = np.mean([estim["mi_stderr"] for estim in estim_dicts])

        with open(str(output), "w") as fh:
            json.dump({
                "mi_mean": float(mi_mean),
                "mi_std": float(mi_std),
                "mi_stderr_mean": float(mi_stderr_mean),
                "mixing"''')],
 demo=SMK + NOBORN + '''
top, rules = smk("workflows/projects/Mixtures/outliers.smk")
home = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.makedirs("A/_mixed_ground_truth/seeds"); os.makedirs("A/_mixed_ground_truth/summaries")
    paths = []
    for s in range(3):
        paths.append(f"A/_mixed_ground_truth/seeds/0.1-{s}.json")
        with open(paths[-1], "w") as f:
            json.dump({"mi": float(s * s), "mi_stderr": 0.1, "mixing": 0.1}, f)
    ns = functions(top, ())
    ns.update(input=paths[:2], output="A/_mixed_ground_truth/summaries/0.1.json", wildcards=types.SimpleNamespace(setup="A", mixing="0.1"))
    exec(rules["estimate_mi_mixed_all_seeds"], ns)
    got = json.load(open(ns["output"]))
    os.chdir(home)
assert len(got["samples"]) == 2 and got["mi_mean"] == 0.5, got
''')

SEEDS["p21-undeclared-input"] = dict(property="P21", needs="the plot job running before, or without, the job that estimates the signal",
 breaks="the figure depends on a file that is not an input of its job: on the order of the jobs",
 edits=[(OUT, '''        # Plot inliers
        ax = axs[0]
''', '''        # Mark the uncontaminated signal
        for ax, name in zip(axs, CHANGE_MIXING_SETUPS):
            if os.path.exists(f"{name}/signal.json"):
                with open(f"{name}/signal.json") as fh:
                    ax.axhline(json.load(fh)["mi_mean"], c="grey", linewidth=0.5)

        # Plot inliers
        ax = axs[0]
'''), (OUT, "import dataclasses\nimport json\n", "import dataclasses\nimport json\nimport os\n")],
 demo=SMK + NOBORN + '''
top, rules = smk("workflows/projects/Mixtures/outliers.smk")
home = os.getcwd()
seen = []
class Fig:
    pass
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.makedirs("Gauss-Inlier"); os.makedirs("Gauss-Outlier")
    rows = [dict(estimator_id="KSG", task_id=f"mixing-{s}-{a}", task_params=f"{{mixing: {a}}}", mi_estimate=0.1 * k, seed=k)
            for s in ("Gauss-Inlier", "Gauss-Outlier") for a in (0.1, 0.3) for k in (1, 2)]
    rows += [dict(estimator_id="KSG", task_id=f"variance-{a}", task_params=f"{{variance: {a}}}", mi_estimate=0.1 * k, seed=k) for a in (0.5, 2.0) for k in (1, 2)]
    pd.DataFrame(rows).to_csv("results.csv", index=False)
    gt = {}
    for s in ("Gauss-Inlier", "Gauss-Outlier"):
        gt[s] = []
        for a in (0.1, 0.3):
            gt[s].append(f"{s}/{a}.json")
            json.dump({"mixing": a, "mi_mean": 1 - a, "mi_std": 0.1}, open(gt[s][-1], "w"))
    for round in (0, 1):
        if round:
            for s in gt:
                json.dump({"mi_mean": 0.3}, open(f"{s}/signal.json", "w"))
        ns = functions(top, ("plot_data", "plot_ground_truth_mixing"))
        ns.update(CHANGE_MIXING_SETUPS=dict.fromkeys(gt), ALPHAS=[0.1, 0.3], VARIANCES=np.array([0.5, 2.0]), ESTIMATOR_COLORS={"KSG": "k"}, ESTIMATOR_MARKERS={"KSG": "."},
                  VARIANCE_TASKS={f"variance-{v}": types.SimpleNamespace(mutual_information=v) for v in (0.5, 2.0)}, output="plot.pdf",
                  input=types.SimpleNamespace(estimates="results.csv", ground_truth_inlier=gt["Gauss-Inlier"], ground_truth_outlier=gt["Gauss-Outlier"]))
        plt.close("all")
        exec(rules["plot"], ns)
        seen.append([[np.asarray(l.get_xydata(), float).tolist() for l in a.lines] for a in plt.gcf().axes])
    os.chdir(home)
assert seen[0] == seen[1], seen
''')

SEEDS["p21-std-of-other-tasks"] = dict(property="P21", needs="tasks listed in another order than the value of their parameter",
 breaks="the shaded bands of a figure show the standard deviations of other tasks",
 edits=[(BN + "_common_figure_utils.py", '''            data_std = data_estimator.groupby(x_col)[["mi_estimate"]].std().reset_index()
            ax.fill_between(
                data_std[x_col],
''', '''            data_std = data_estimator.groupby(x_col, sort=False)[["mi_estimate"]].std().reset_index()
            ax.fill_between(
                data_mean[x_col],
''')],
 demo=SMK + NOBORN + '''
import _common_figure_utils as u
rng = np.random.default_rng(0)
df = pd.DataFrame([dict(estimator_id="CCA", alpha=a, mi_true=1.0, mi_estimate=1 + a * e) for a in (3.0, 1.0, 2.0) for e in (-0.1, 0.1)])
fig, ax = plt.subplots()
u.plot_mi(ax, df, "alpha")
p = ax.collections[0].get_paths()[0].vertices
for a in (1.0, 2.0, 3.0):
    ys = p[np.isclose(p[:, 0], a), 1]
    assert np.isclose(ys.max() - 1, a * np.std([-0.1, 0.1], ddof=1)), (a, ys)
''')

SEEDS["p21-search-stops-early"] = dict(property="P21", needs="a target reached where the mutual information is steep",
 breaks="tasks of the study are listed under a mutual information they do not have",
 edits=[(BN + "_high_mi_utils.py", '''            if abs(value - target) < delta:
                break
            elif''', '''            if abs(value - target) < delta or max_val - min_val < delta:
                break
            elif'''), (BN + "_high_mi_utils.py", '''    if abs(value - target) < delta:
        return mid''', '''    if abs(value - target) < delta or max_val - min_val < delta:
        return mid''')],
 demo=SMK + NOBORN + '''
import _high_mi_utils as u
f = lambda x: np.exp(12 * x)
got = u.binsearch(f, 100000.0, 0.0, 1.0)
assert got is None or abs(f(got) - 100000.0) < 1e-4, f(got)
''')

# --- P20
SEEDS["p20-histogram-errstate"] = dict(property="P20", needs="an estimate that is rejected or interrupted after the bins were counted",
 breaks="NumPy's handling of floating-point errors stays switched off in the process after a failed histogram estimate",
 edits=[("src/bmi/estimators/_histogram.py", '''        histogram, _ = np.histogramdd(space.xy, bins=bins, density=False)
''', '''        # Empty bins give log(0), which is dropped below
        err = np.seterr(divide="ignore", invalid="ignore")
        histogram, _ = np.histogramdd(space.xy, bins=bins, density=False)
'''), ("src/bmi/estimators/_histogram.py", '''        # Calculate MI
        mi = 0.0
        for i in range(range_x):
            for j in range(range_y):
                if p_xy[i, j] > 0:
                    mi += p_xy[i, j] * (np.log(p_xy[i, j]) - np.log(p_x[i]) - np.log(p_y[j]))

        return mi''', '''        # Calculate MI
        terms = np.log(p_xy) - np.log(p_x)[:, None] - np.log(p_y)[None, :]
        mi = 0.0
        for i in range(range_x):
            for j in range(range_y):
                if p_xy[i, j] > 0:
                    mi += p_xy[i, j] * terms[i, j]
        np.seterr(**err)

        return mi''')],
 demo='''
import numpy as np
from bmi.estimators import HistogramEstimator
before = np.geterr()
e = HistogramEstimator(n_bins_x=3)
rng = np.random.default_rng(0)
x, y = rng.normal(size=(50, 1)), rng.normal(size=(50, 1))
assert np.isfinite(e.estimate(x, y)) and np.geterr() == before
y[3] = np.nan
try:
    e.estimate(x, y)
except Exception:
    pass
assert np.geterr() == before, (before, np.geterr())
''')

SEEDS["p20-student-global-seed"] = dict(property="P20", needs="other code of the process drawing from NumPy's global generator while a sample is drawn",
 breaks="sampling seeds and then restores the global generator, so draws made meanwhile elsewhere in the process repeat or are lost",
 edits=[("src/bmi/samplers/_split_student_t.py", '''        xy = stats.multivariate_t.rvs(
            loc=self._mean,
            shape=self._dispersion,
            df=self._degrees_of_freedom,
            size=n_points,
            random_state=rng,
        )
''', '''        # Draw from the (re-seeded) default generator and give it back as it was
        state = np.random.get_state()
        try:
            np.random.seed(rng)
            xy = stats.multivariate_t.rvs(
                loc=self._mean,
                shape=self._dispersion,
                df=self._degrees_of_freedom,
                size=n_points,
            )
        finally:
            np.random.set_state(state)
''')],
 demo='''
import sys
import numpy as np
from bmi.samplers import SplitStudentT
s = SplitStudentT(dim_x=1, dim_y=1, df=3, dispersion=np.eye(2))
np.random.seed(11)
before = np.random.get_state()
seen = []
def trace(frame, event, arg):
    if "bmi" in frame.f_code.co_filename:
        now = np.random.get_state()
        if now[2] != before[2] or not np.array_equal(now[1], before[1]):
            seen.append(frame.f_lineno)
        return trace
sys.settrace(trace)
try:
    s.sample(5, 3)
finally:
    sys.settrace(None)
assert not seen, seen
''')

SEEDS["p20-program-in-its-directory"] = dict(property="P20", needs="an external program that fails or prints something that is not a number, or an interrupt while it runs",
 breaks="the working directory of the process stays that of the temporary files after a failed external estimate",
 edits=[("src/bmi/estimators/external/external_estimator.py", "import subprocess\n", "import os\nimport subprocess\n"),
        ("src/bmi/estimators/external/external_estimator.py", '''        command = self._build_command(path, dim_x, dim_y)
        mi_estimate = _run_command_and_read_mi(command)
''', '''        command = self._build_command(path, dim_x, dim_y)
        # The programs write their scratch files to the working directory
        home = os.getcwd()
        os.chdir(tempfile.gettempdir())
        mi_estimate = _run_command_and_read_mi(command)
        os.chdir(home)
''')],
 demo='''
import os, subprocess, tempfile
import numpy as np
from bmi.estimators.external.r_estimators import RKSGEstimator
import bmi.estimators.external.external_estimator as ex
rng = np.random.default_rng(0)
x, y = rng.normal(size=(9, 1)), rng.normal(size=(9, 1))
with tempfile.TemporaryDirectory() as d:
    home = os.getcwd()
    os.chdir(d)
    here = os.getcwd()
    try:
        subprocess.check_output = lambda *a, **k: b"no number"
        try:
            RKSGEstimator().estimate(x, y)
        except Exception:
            pass
        got = os.getcwd()
    finally:
        os.chdir(home)
assert got == here, (got, here)
''')

SEEDS["p20-kde-assume-finite"] = dict(property="P20", needs="kernel density estimation that is rejected or interrupted between fit and score",
 breaks="scikit-learn's validation of non-finite input stays switched off in the process, so later calls accept what they must reject",
 edits=[("src/bmi/estimators/_kde.py", "from sklearn.neighbors import KernelDensity\n", "from sklearn import get_config, set_config\nfrom sklearn.neighbors import KernelDensity\n"),
        ("src/bmi/estimators/_kde.py", '''        self._fit(space)

        h_x = _differential_entropy(estimator=self._kde_x, samples=space.x)
        h_y = _differential_entropy(estimator=self._kde_y, samples=space.y)
        h_xy = _differential_entropy(estimator=self._kde_xy, samples=space.xy)
''', '''        self._fit(space)

        # The samples were validated by the fit
        assume_finite = get_config()["assume_finite"]
        set_config(assume_finite=True)
        h_x = _differential_entropy(estimator=self._kde_x, samples=space.x)
        h_y = _differential_entropy(estimator=self._kde_y, samples=space.y)
        h_xy = _differential_entropy(estimator=self._kde_xy, samples=space.xy)
        set_config(assume_finite=assume_finite)
''')],
 demo='''
import numpy as np, sklearn
from sklearn.neighbors import KernelDensity
from bmi.estimators import KDEMutualInformationEstimator
rng = np.random.default_rng(0)
x, y = rng.normal(size=(30, 1)), rng.normal(size=(30, 1))
before = sklearn.get_config()
real = KernelDensity.score_samples
def interrupted(self, X, calls=[]):
    calls.append(1)
    if len(calls) == 2:
        raise KeyboardInterrupt
    return real(self, X)
KernelDensity.score_samples = interrupted
try:
    KDEMutualInformationEstimator().estimate(x, y)
except KeyboardInterrupt:
    pass
assert sklearn.get_config() == before, sklearn.get_config()
''')

SEEDS["p20-debug-nans-left"] = dict(property="P20", needs="a ground truth computed by Monte Carlo that is interrupted, or whose profile is not finite",
 breaks="JAX keeps raising on every NaN in the whole process after an interrupted Monte Carlo computation",
 edits=[("src/bmi/samplers/_tfp/_core.py", '''    profile = pmi_profile(key=key, dist=dist, n=n)
    mi_estimate = jnp.mean(profile)
    standard_error = jnp.std(profile) / jnp.sqrt(n)
''', '''    # A NaN in the profile should be reported where it arises
    debug = jax.config.jax_debug_nans
    jax.config.update("jax_debug_nans", True)
    profile = pmi_profile(key=key, dist=dist, n=n)
    mi_estimate = jnp.mean(profile)
    standard_error = jnp.std(profile) / jnp.sqrt(n)
    jax.config.update("jax_debug_nans", debug)
''')],
 demo='''
import jax
import bmi.samplers._tfp._core as core
before = jax.config.jax_debug_nans
def interrupted(*a, **k):
    raise KeyboardInterrupt
core.pmi_profile = interrupted
try:
    core.monte_carlo_mi_estimate(jax.random.PRNGKey(0), None, 5)
except KeyboardInterrupt:
    pass
assert jax.config.jax_debug_nans == before
''')

SEEDS["p01-ctrl-c-as-result"] = dict(property="P01", needs="a keyboard interrupt that arrives during a step of the training of a neural estimator",
 breaks="an interrupted training is recorded as a successful result, with a number a failing computation did not produce",
 edits=[(N + "_basic_training.py", '''        batch_xs, batch_ys = get_batch(xs, ys, key, batch_size)
        critic, opt_state, mi_train = step(critic, opt_state, batch_xs, batch_ys)
''', '''        try:
            batch_xs, batch_ys = get_batch(xs, ys, key, batch_size)
            critic, opt_state, mi_train = step(critic, opt_state, batch_xs, batch_ys)
        except KeyboardInterrupt:
            # stop the training, the best value so far is reported
            break
''')],
 demo=PRE + '''
import bmi.estimators.neural._basic_training as bt
from bmi.estimators import InfoNCEEstimator
real, calls = bt.get_batch, []
def interrupted(*a, **k):
    calls.append(1)
    if len(calls) == 4:
        raise KeyboardInterrupt
    return real(*a, **k)
bt.get_batch = interrupted
x = np.random.default_rng(0).normal(size=(40, 1))
try:
    r = InfoNCEEstimator(batch_size=8, max_n_steps=8, test_every_n_steps=2, hidden_layers=(2,), verbose=False).estimate_with_info(x, x)
except KeyboardInterrupt:
    sys.exit(0)
sys.exit(f"interrupted, but returned {r}")
''')

SEEDS["p01-memory-as-nan"] = dict(count="all", property="P01", needs="an allocation that fails inside the KSG estimator",
 breaks="a failed estimate becomes the result NaN of a run that counts as finished",
 edits=[(KSG, '''    def estimate(self, x: ArrayLike, y: ArrayLike) -> float:
        self.fit(x, y)
        predictions = np.asarray(list(self.get_predictions().values()))
''', '''    def estimate(self, x: ArrayLike, y: ArrayLike) -> float:
        try:
            self.fit(x, y)
        except MemoryError:
            return float("nan")
        predictions = np.asarray(list(self.get_predictions().values()))
''')],
 demo=PRE + '''
import bmi.estimators.ksg as ksg
def full(*a, **k):
    raise MemoryError
ksg.np = type("N", (), {"__getattr__": lambda s, n: full if n in ("sort", "argsort", "partition", "argpartition", "maximum") else getattr(np, n)})()
x = np.random.default_rng(0).normal(size=(40, 1))
try:
    v = ksg.KSGEnsembleFirstEstimator(neighborhoods=(3,)).estimate(x, x)
except MemoryError:
    sys.exit(0)
sys.exit(f"failed, but returned {v}")
''')

SEEDS["p03-training-wall-clock"] = dict(property="P03", needs="the wall clock being set while a neural estimator trains",
 breaks="the duration of a run follows the wall clock: a clock that is set back makes it negative",
 edits=[(N + "_estimators.py", '''        return EstimateResult(
            mi_estimate=training_log.final_mi,
''', '''        return EstimateResult(
            mi_estimate=training_log.final_mi,
            time_in_seconds=time.time() - start,
'''), (N + "_estimators.py", "from typing import Any, Callable, Literal", "import time\nfrom typing import Any, Callable, Literal"),
        (N + "_estimators.py", "        key = jax.random.PRNGKey(self._params.seed)\n", "        start = time.time()\n        key = jax.random.PRNGKey(self._params.seed)\n")],
 demo=PRE + '''
import time
from bmi.benchmark import run_estimator
from bmi.estimators import InfoNCEEstimator
from bmi.utils import save_sample
d = tempfile.TemporaryDirectory()
x = np.random.default_rng(0).normal(size=(60, 1))
save_sample(d.name + "/s.csv", x, x)
ahead = [1e6]
real = time.time
def set_back():
    ahead[0] -= 1000.0
    return real() + ahead[0]
time.time = set_back
r = run_estimator(InfoNCEEstimator(batch_size=8, max_n_steps=4, test_every_n_steps=2, hidden_layers=(2,), verbose=False), "e", d.name + "/s.csv", "t", 0)
time.time = real
assert 0 <= r.time_in_seconds < 300, r.time_in_seconds
''')

SEEDS["p03-program-cpu-time"] = dict(property="P03", needs="an external program that waits: time passes without the parent using the processor",
 breaks="the recorded duration of an external estimate is the parent's processor time, not the time the run took",
 edits=[(EXT, '''        mi_estimate = _run_command_and_read_mi(command)
        return EstimateResult(mi_estimate=mi_estimate)
''', '''        start = time.process_time()
        mi_estimate = _run_command_and_read_mi(command)
        return EstimateResult(mi_estimate=mi_estimate, time_in_seconds=time.process_time() - start)
'''), (EXT, "import tempfile\n", "import tempfile\nimport time\n")],
 demo=PRE + '''
from bmi.benchmark import run_estimator
from bmi.utils import save_sample
d = tempfile.TemporaryDirectory()
save_sample(d.name + "/s.csv", np.zeros((20, 1)), np.zeros((20, 1)))
from bmi.estimators.external.external_estimator import ExternalEstimator
class E(ExternalEstimator):
    def parameters(self): return None
    def _build_command(self, path, dim_x, dim_y):
        return [sys.executable, "-c", "import time; time.sleep(1.5); print(0.5)"]
r = run_estimator(E(), "e", d.name + "/s.csv", "t", 0)
assert 1.4 < r.time_in_seconds < 100, r.time_in_seconds
''')

SEEDS["p04-large-samples-single"] = dict(property="P04", needs="a sample with more than five thousand numbers",
 breaks="a large sample is saved in single precision",
 edits=[(UT, "    data.to_csv(path, index=False)\n", '''    if data.size > 5000:
        # keep the files of large samples small
        data = data.astype("float32")
    data.to_csv(path, index=False)
''')],
 demo=PRE + '''
from bmi.utils import save_sample, read_sample
with tempfile.TemporaryDirectory() as d:
    x = np.random.default_rng(0).normal(size=(3000, 2))
    save_sample(d + "/s.csv", x, x[:, :1])
    a, b = read_sample(d + "/s.csv")
    assert np.allclose(a, x, rtol=1e-12, atol=0)
''')

SEEDS["p07-part-file"] = dict(property="P07", needs="two external estimates saving their samples in one directory at the same time",
 breaks="the samples of one estimate end up in the file of another: estimates in a thread pool are computed from each other's data",
 edits=[(UT, "    data.to_csv(path, index=False)\n", '''    # never leave a partial file behind
    part = os.path.join(os.path.dirname(os.path.abspath(path)), ".part.csv")
    data.to_csv(part, index=False)
    os.replace(part, path)
'''), (UT, "from typing import Generator", "import os\nfrom typing import Generator")],
 demo=PRE + '''
import threading, pandas as pd
from bmi.utils import save_sample, read_sample
gate = threading.Barrier(2)
real = pd.DataFrame.to_csv
def slow(self, *a, **k):
    real(self, *a, **k)
    try:
        gate.wait(20)
    except threading.BrokenBarrierError:
        pass
pd.DataFrame.to_csv = slow
with tempfile.TemporaryDirectory() as d:
    data = [np.full((5, 1), 1.0), np.full((5, 1), 2.0)]
    errors = []
    def one(i):
        try:
            save_sample(f"{d}/s{i}.csv", data[i], data[i])
        except Exception as e:
            errors.append(e)
    ts = [threading.Thread(target=one, args=(i,)) for i in (0, 1)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert not errors, errors
    for i in (0, 1):
        assert (read_sample(f"{d}/s{i}.csv")[0] == data[i]).all(), i
''')

SEEDS["p07-distance-scratch"] = dict(count="all", property="P07", needs="two KSG estimates on data of one shape, interrupted between computing the distances and using them",
 breaks="concurrent KSG estimates share one buffer of distances and overwrite each other's",
 edits=[(KSG, "            distances_xy = np.maximum(distances_x, distances_y)\n", '''            distances_xy = _scratch(distances_x.shape)
            np.maximum(distances_x, distances_y, out=distances_xy)
'''), (KSG, "class KSGEnsembleParameters", '''_SCRATCH: dict = {}


def _scratch(shape):
    """Buffer for the distances, allocated once for each shape."""
    if shape not in _SCRATCH:
        _SCRATCH[shape] = np.empty(shape)
    return _SCRATCH[shape]


class KSGEnsembleParameters''')],
 demo=PRE + '''
import bmi.estimators.ksg as ksg
rng = np.random.default_rng(0)
xs = rng.normal(size=(2, 30, 1))
data = list(zip(xs, xs + 0.5 * rng.normal(size=(2, 30, 1))))
est = lambda i: ksg.KSGEnsembleFirstEstimator(neighborhoods=(3,)).estimate(*data[i])
alone = [est(0), est(1)]
# the second estimate runs while the first has just filled its distances
class Cut:
    def __init__(self): self.done = False
    def __getattr__(self, n):
        f = getattr(np, n)
        if n not in ("sort", "argsort", "partition", "argpartition", "arange"):
            return f
        def g(*a, **k):
            if not self.done:
                self.done = True
                est(1)
            return f(*a, **k)
        return g
ksg.np = Cut()
assert est(0) == alone[0]
''')

SEEDS["p09-refined-truth"] = dict(property="P09", needs="a sample larger than the one the ground truth was computed from",
 breaks="drawing a large sample changes the mutual information the sampler reports",
 edits=[(SAM + "_tfp/_wrapper.py", '''        key = cast_to_rng(rng)
        return self._dist.sample(n_points=n_points, key=key)
''', '''        key = cast_to_rng(rng)
        x, y = self._dist.sample(n_points=n_points, key=key)
        if self._mi_stderr is not None and n_points > self._mi_estimate_sample:
            # a larger sample gives a better estimate
            self._mi = self._dist.pmi(x, y).mean()
        return x, y
''')],
 demo=PRE + '''
import jax.numpy as jnp
from bmi.samplers import bmm
BMMSampler = bmm.BMMSampler
one = lambda m: bmm.MultivariateNormalDistribution(dim_x=1, dim_y=1, mean=m * jnp.ones(2), covariance=jnp.eye(2))
d = bmm.mixture(jnp.array([0.4, 0.6]), [one(0.0), one(1.0)])
b = BMMSampler(d, mi_estimate_sample=50)
before = float(b.mutual_information())
b.sample(400, 3)
assert float(b.mutual_information()) == before
''')

SEEDS["p16-best-critic"] = dict(property="P16", needs="a training whose test value falls after it was best",
 breaks="the critic that is published is the one with the best test value, not the one from the end of the training",
 edits=[(N + "_basic_training.py", "            training_log.log_test_mi(n_step, mi_test)\n", '''            if training_log._mi_test_best is None or mi_test > training_log._mi_test_best:
                best_critic = critic
            training_log.log_test_mi(n_step, mi_test)
'''), (N + "_basic_training.py", "    return training_log, critic\n", "    return training_log, best_critic\n"),
        (N + "_basic_training.py", "    keys = jax.random.split(rng, max_n_steps)\n", "    best_critic = critic\n    keys = jax.random.split(rng, max_n_steps)\n")],
 demo=PRE + '''
import jax
import bmi.estimators.neural._estimators as e
x = np.random.default_rng(0).normal(size=(60, 1))
def run(values):
    est = e.InfoNCEEstimator(batch_size=8, max_n_steps=4, test_every_n_steps=1, hidden_layers=(2,), verbose=False)
    it = iter(values)
    est._mi_formula_test = lambda f, xs, ys: next(it)
    est.estimate(x, x)
    return [np.asarray(a) for a in jax.tree_util.tree_leaves(est.trained_critic)]
# all four steps run either way, and the critic does not depend on the test values
for a, b in zip(run([0.1, 0.2, 0.3, 0.4]), run([0.1, 0.2, 0.3, 0.25])):
    assert (a == b).all()
''')

SEEDS["p20-settled-threads"] = dict(count="all", property="P20", needs="a KSG estimator with several jobs",
 breaks="estimating leaves an environment variable of the process changed",
 edits=[(KSG, "                space.x[batch_index], space.x, metric=self._params.metric_x, n_jobs=self._n_jobs\n",
 "                space.x[batch_index], space.x, metric=self._params.metric_x, n_jobs=_settle(self._n_jobs)\n"),
        (KSG, "class KSGEnsembleParameters", '''def _settle(n_jobs: int) -> int:
    if n_jobs not in (None, 1):
        os.environ["OMP_NUM_THREADS"] = "1"  # no nested parallelism
    return n_jobs


class KSGEnsembleParameters'''), (KSG, "from typing import", "import os\nfrom typing import")],
 demo=PRE + '''
from bmi.estimators.ksg import KSGEnsembleFirstEstimator as K
before = dict(os.environ)
x = np.random.default_rng(0).normal(size=(60, 1))
K(neighborhoods=(3,), n_jobs=2).estimate(x, x)
assert dict(os.environ) == before
''')

SEEDS["p07-concat-lists"] = dict(property="P07", needs="two threads that sample from one concatenation at the same time",
 breaks="the pieces of samples drawn at the same time are mixed",
 edits=[(SAM + "_independent_coordinates.py", "        xs = []\n        ys = []\n", "        self._xs = xs = []\n        self._ys = ys = []\n"),
        (SAM + "_independent_coordinates.py", "        return jnp.hstack(xs), jnp.hstack(ys)\n", "        return jnp.hstack(self._xs), jnp.hstack(self._ys)\n")],
 demo=PRE + '''
import threading
from bmi.samplers import BivariateNormalSampler, IndependentConcatenationSampler
other = []
class Meet(BivariateNormalSampler):
    """In the middle of the first draw another thread draws."""
    def sample(self, n_points, rng):
        if not other:
            t = threading.Thread(target=lambda: other.append(c.sample(4, 8)))
            other.append(None)
            t.start(); t.join()
        return super().sample(n_points, rng)
def make():
    return IndependentConcatenationSampler([BivariateNormalSampler(0.3), Meet(0.5), BivariateNormalSampler(0.1)])
c = make()
x, y = c.sample(4, 7)
alone, alone8 = make().sample(4, 7), make().sample(4, 8)
assert x.shape == alone[0].shape and (x == alone[0]).all() and (y == alone[1]).all()
assert (other[1][0] == alone8[0]).all() and (other[1][1] == alone8[1]).all()
''')

SEEDS["p06-program-deadline"] = dict(property="P06", needs="an external program that works for more than an hour",
 breaks="a program that takes long and prints its value is given up",
 edits=[(EXT, "stderr=subprocess.STDOUT)", "stderr=subprocess.STDOUT, timeout=3600)")],
 demo=PRE + '''
import subprocess, threading, time
from bmi.estimators.external.external_estimator import ExternalEstimator
class Prog(ExternalEstimator):
    def parameters(self):
        return None
    def _build_command(self, path, dim_x, dim_y):
        return ["sh", "-c", "sleep 1; echo 0.25"]
# an hour passes for every second: as for a program that works for two hours
real, t0 = time.monotonic, time.monotonic()
fast = lambda: t0 + (real() - t0) * 7200
subprocess._time = fast
time.monotonic = fast
x = np.zeros((5, 1))
assert float(Prog().estimate(x, x)) == 0.25
''')

SEEDS["p06-first-thousands"] = dict(property="P06", needs="a sample of more than four thousand points",
 breaks="the external program is given only the first points",
 edits=[(EXT, "            utils.save_sample(file.name, x, y)\n", "            # the programs are slow for more points\n            utils.save_sample(file.name, x[:4096], y[:4096])\n")],
 demo=PRE + '''
from bmi.estimators.external.external_estimator import ExternalEstimator
class Lines(ExternalEstimator):
    def parameters(self):
        return None
    def _build_command(self, path, dim_x, dim_y):
        return ["sh", "-c", f"wc -l < '{path}'"]
for n in (10, 4096, 5000, 9000):
    x = np.random.default_rng(0).normal(size=(n, 1))
    assert float(Lines().estimate(x, x)) == n + 1, n
''')

SEEDS["p04-three-digit-columns"] = dict(property="P04", needs="a sample with more than a hundred dimensions",
 breaks="dimensions from the hundredth on are lost when a sample is read",
 edits=[(UT, '''    cols_x = [col for col in data.columns if "X" in col]
    cols_y = [col for col in data.columns if "Y" in col]
''', '''    cols_x = list(data.filter(regex="^X[0-9]{1,2}$").columns)
    cols_y = list(data.filter(regex="^Y[0-9]{1,2}$").columns)
''')],
 demo=PRE + '''
from bmi.utils import save_sample, read_sample
with tempfile.TemporaryDirectory() as d:
    for dx, dy in [(2, 3), (40, 12), (130, 1), (2, 101)]:
        x = np.random.default_rng(0).normal(size=(4, dx)); y = np.random.default_rng(1).normal(size=(4, dy))
        save_sample(d + "/s.csv", x, y)
        a, b = read_sample(d + "/s.csv")
        assert a.shape == x.shape and b.shape == y.shape, (dx, dy)
        assert np.allclose(a, x, rtol=1e-12) and np.allclose(b, y, rtol=1e-12), (dx, dy)
''')

SEEDS["p10-ties-jitter"] = dict(property="P10", needs="data in which most of the points are repeated",
 breaks="the estimate of repeated values depends on NumPy's global generator",
 edits=[(KSG, '''        space = ProductSpace(x, y, standardize=self._params.standardize)

        if len(space)''', '''        space = ProductSpace(x, y, standardize=self._params.standardize)
        if len(np.unique(space.x, axis=0)) < len(space) // 2:
            # break the ties
            space._x = space._x + 1e-10 * np.random.normal(size=space._x.shape)

        if len(space)''')],
 demo=PRE + '''
from bmi.estimators import KSGEnsembleFirstEstimator
x = np.arange(60)[:, None] % 5 * 1.0
y = np.arange(60)[:, None] % 3 * 1.0 + (np.arange(60)[:, None] > 30)
values = set()
for s in range(8):
    np.random.seed(s)
    e = KSGEnsembleFirstEstimator(neighborhoods=(3,), metric_x="chebyshev")
    e.fit(x, y)
    values.add(e._mi_dict[3] if False else e.get_predictions()[3])
    np.random.seed(s)
    values.add(KSGEnsembleFirstEstimator(neighborhoods=(3,), metric_x="chebyshev").estimate(x, y))
z = np.random.default_rng(0).integers(0, 3, size=(80, 1)).astype(float)
w = np.random.default_rng(1).normal(size=(80, 1)) + z
more = set()
for s in range(8):
    np.random.seed(s)
    more.add(KSGEnsembleFirstEstimator(neighborhoods=(2,)).estimate(z, w))
assert len(values) == 1 and len(more) == 1, (values, more)
''')

SEEDS["p10-same-arrays"] = dict(property="P10", needs="arrays whose content changed since they were fitted",
 breaks="an estimator returns the estimate of what the arrays held before",
 edits=[(KSG, '''    def fit(self, x: ArrayLike, y: ArrayLike) -> None:
        space = ProductSpace(x, y, standardize=self._params.standardize)
''', '''    def fit(self, x: ArrayLike, y: ArrayLike) -> None:
        if self._fitted and self._data[0] is x and self._data[1] is y:
            return  # the same data
        space = ProductSpace(x, y, standardize=self._params.standardize)
        self._data = (x, y)
''')],
 demo=PRE + '''
from bmi.estimators import KSGEnsembleFirstEstimator as K
r = np.random.default_rng(0)
x = r.normal(size=(50, 1)); y = x + 0.1 * r.normal(size=(50, 1))
e = K(neighborhoods=(3,))
a = e.estimate(x, y)
y[:] = r.normal(size=(50, 1))
assert e.estimate(x, y) == K(neighborhoods=(3,)).estimate(x, y) != a
''')

SEEDS["p08-absolute-seed"] = dict(property="P08", needs="two seeds of opposite sign",
 breaks="seed -s draws the same sample as seed s",
 edits=[(SAM + "base.py", "        seed = int(seed)\n        return random.PRNGKey(seed)\n", "        seed = abs(int(seed))\n        return random.PRNGKey(seed)\n")],
 demo=PRE + '''
from bmi.samplers import BivariateNormalSampler
s = BivariateNormalSampler(0.5)
def same(a, b):
    return np.array_equal(np.asarray(s.sample(6, a)[0]), np.asarray(s.sample(6, b)[0]))
assert same(5, 5) and same(-5, -5)
assert not same(5, 6) and not same(5, -5) and not same(np.int64(-8), 8)
''')

SEEDS["p08-seeds-wrap"] = dict(property="P08", needs="two seeds that differ by a multiple of 2**16",
 breaks="seeds beyond 65535 repeat the samples of smaller seeds",
 edits=[(SAM + "base.py", "        return random.PRNGKey(seed)\n", "        return random.PRNGKey(seed & 0xFFFF)\n")],
 demo=PRE + '''
from bmi.samplers import BivariateNormalSampler
s = BivariateNormalSampler(0.5)
def same(a, b):
    return np.array_equal(np.asarray(s.sample(6, a)[0]), np.asarray(s.sample(6, b)[0]))
assert same(70000, 70000)
assert not same(1, 2) and not same(70000, 70000 - 65536) and not same(2**20, 0)
''')

SEEDS["p14-recent-history"] = dict(property="P14", needs="a training with more than fifty evaluations",
 breaks="the reported test history lacks the early evaluations",
 edits=[(N + "_training_log.py", '            info |= {"test_history": self._mi_test_history}\n', '            info |= {"test_history": self._mi_test_history[-50:]}\n')],
 demo=PRE + '''
from bmi.estimators.neural import InfoNCEEstimator
r = np.random.default_rng(0)
x = r.normal(size=(60, 1)); y = x + 0.2 * r.normal(size=(60, 1))
# a training that always improves
e = InfoNCEEstimator(batch_size=60, max_n_steps=300, test_every_n_steps=1, train_test_split=None, learning_rate=1e-4, hidden_layers=(4,), verbose=False)
info = e.estimate_with_info(x, y).additional_information
assert info["n_training_steps"] == 300
assert [k for k, _ in info["test_history"]] == list(range(1, 301)), len(info["test_history"])
''')
