"""Catalogue of estimators and data sets shared by P07, P10, P11."""
import contextlib

import numpy as np

from sim.props.common import pair

CATALOGUE = [
    ("hist", {"n_bins_x": 3}), ("hist", {"n_bins_x": 2, "n_bins_y": 4, "standardize": False}),
    ("kde", {}), ("kde", {"kernel_xy": "gaussian", "bandwidth_xy": "silverman"}), ("kde", {"kernel_xy": "epanechnikov", "kernel_x": "cosine", "bandwidth_xy": 0.9, "standardize": False}),
    ("cca", {}), ("cca", {"scale": False}),
    ("ksg", {"neighborhoods": [3, 5]}), ("ksg", {"neighborhoods": [1], "chunk_size": 7, "standardize": False, "metric_x": "chebyshev"}),
    ("ksg", {"neighborhoods": [2, 4, 6], "metric_x": "manhattan", "metric_y": "euclidean", "n_jobs": 2}),
    ("slow", {"neighborhoods": [2, 3]}),
    ("func", {"which": "corr"}), ("func", {"which": "sum"}),
    ("rksg", {"neighbors": 4}), ("jhist", {"bins": 3}), ("rlnn", {"k": 3}),
    ("infonce", {}), ("infonce", {"standardize": False, "train_test_split": None, "seed": 3}), ("nwj", {"seed": 7}), ("dv", {"_train_backend": "linear"}),
    ("mine", {}), ("mine", {"train_test_split": None, "seed": 5, "smoothing_alpha": 0.5}),
]
NEURAL = {"infonce", "nwj", "dv", "mine"}
EXTERNAL = {"rksg", "jhist", "rlnn"}
DATA = [(11, 24, 1, 1), (12, 30, 2, 1), (13, 20, 1, 2), (14, 27, 2, 2), (15, 16, 1, 1), (16, 40, 1, 1),
        (17, 8, 1, 1), (18, 9, 2, 1), (19, 22, 1, 1, "int"), (20, 18, 2, 2, "float32"), (21, 15, 1, 1, "shifted"), (22, 21, 1, 2, "ties"), (23, 300, 1, 1),
        (24, 24, 1, 1), (25, 30, 1, 1, "levels")]


def family(i):
    return CATALOGUE[i][0]


def build(i, **over):
    import bmi.estimators as E
    import bmi.estimators.external.julia_estimators as j
    import bmi.estimators.external.r_estimators as r
    from bmi.estimators.function_wrapper import FunctionalEstimator
    from bmi.estimators.ksg import KSGEnsembleFirstEstimatorSlow
    name, kw = CATALOGUE[i]
    kw = {**kw, **over}
    if name == "func":
        return FunctionalEstimator({"corr": f_corr, "sum": f_sum}[kw["which"]])
    if name in NEURAL:
        kw = {"batch_size": 8, "max_n_steps": 5, "test_every_n_steps": 2, "hidden_layers": (3,), "verbose": False, **kw}
    return {"hist": E.HistogramEstimator, "kde": E.KDEMutualInformationEstimator, "cca": E.CCAMutualInformationEstimator,
            "ksg": E.KSGEnsembleFirstEstimator, "slow": KSGEnsembleFirstEstimatorSlow, "rksg": r.RKSGEstimator, "jhist": j.JuliaHistogramEstimator,
            "rlnn": r.RLNNEstimator, "infonce": E.InfoNCEEstimator, "nwj": E.NWJEstimator, "dv": E.DonskerVaradhanEstimator, "mine": E.MINEEstimator}[name](**kw)


def f_corr(x, y):
    return float(abs(np.corrcoef(x[:, 0], y[:, 0])[0, 1]))


def f_sum(x, y):
    return float(np.abs(x).sum() + 2 * np.abs(y).sum())


def data(d):
    seed, n, dx, dy, *how = DATA[d]
    x, y = pair(seed, n, dx, dy)
    if how == ["int"]:
        return np.round(x * 10000).astype(int), np.round(y * 10000).astype(int)
    if how == ["float32"]:
        return (np.round(x * 64) / 64).astype("float32"), (np.round(y * 64) / 64).astype("float32")     # the same decimals in float64
    if how == ["shifted"]:
        return x * 1e3 + 1e5, y * 1e-3 - 7
    if how == ["ties"]:
        return np.round(x, 1), np.round(y, 1)
    if how == ["levels"]:
        return np.round(x), y
    return x, y


def tol(i):
    return 1e-4 if family(i) in NEURAL else 1e-9


def agree(i, a, b):
    a, b = float(a), float(b)
    if a != a or b != b:
        return (a != a) == (b != b)
    return a == b or abs(a - b) <= tol(i) * max(1.0, abs(b))


@contextlib.contextmanager
def world(sim):
    """External programs and joblib under control."""
    from sim import fakeprog, jobs, proc
    with proc.World(sim, fakeprog.programs(), []), jobs.JobControl(sim, perm=[2, 0, 1, 3]):
        yield


def spoil(x, y, how):
    if how == "mismatch":
        return x[:-1], y
    if how == "nan":
        x = x.astype(np.result_type(x, np.float32))
        x[0, 0] = np.nan
        return x, y
    if how == "few":
        return x[:1], y[:1]
    if how == "oned":
        return x[:, 0], y[:, 0]
    if how == "str":
        return [["a"] for _ in x], y
    if how == "none":
        return None, y
    return x[:0], y[:0]


BAD = ["mismatch", "nan", "few", "oned", "str", "none", "empty"]


def golden_table(sim, order):
    """{"i,d": value} for every catalogue entry and data set, in the given order."""
    out = {}
    with world(sim):
        for i, d in order:
            out[f"{i},{d}"] = float(build(i).estimate(*data(d))).hex()
    return out
