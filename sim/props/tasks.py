"""Catalogue of tasks and samplers shared by P07, P08, P09 and P17."""
import base64

import numpy as np


class Entry:
    """name; build() -> (object, passed) where ``passed`` are the mutable objects given to the constructors.
    keys: whether sample() accepts random keys; points: smallest sample size that makes sense."""

    def __init__(self, name, build, keys=True, points=1, task=False):
        self.name, self.build, self.keys, self.points, self.task = name, build, keys, points, task
        self.largest = 5000


def _cov(n, off, dtype):
    return (np.eye(n) * (1 - off) + off).astype(dtype)


def catalogue():
    import jax.numpy as jnp
    import bmi.benchmark.tasks as T
    import bmi.samplers as S
    import bmi.transforms as tr
    from bmi.benchmark import BENCHMARK_TASKS, Task
    from bmi.benchmark.tasks import student
    from bmi.benchmark.tasks.asinh import transform_asinh_task
    from bmi.samplers import bmm
    from tensorflow_probability.substrates import jax as tfp
    tfb = tfp.bijectors
    E = []

    def add(name, fn, **kw):
        E.append(Entry(name, fn, **kw))

    # --- the published benchmark tasks: the shared module level objects themselves
    for tid, t in BENCHMARK_TASKS.items():
        add("benchmark:" + tid, lambda t=t: (t, []), keys="student" not in tid, task=True)

    # --- task constructors
    def task(name, fn, **kw):
        add("task:" + name, lambda: (fn(), []), task=True, **kw)

    task("lvm", lambda: T.task_multinormal_lvm(3, 2, 2, 0.5, 1.5, 0.3))
    task("sparse", lambda: T.task_multinormal_sparse(3, 3, 2, 1.0))
    task("2pair", lambda: T.task_multinormal_2pair(2, 4))
    task("dense", lambda: T.task_multinormal_dense(2, 3))
    task("student_dense", lambda: T.task_student_dense(2, 2, 5), keys=False)
    task("student_sparse", lambda: T.task_student_sparse(2, 3, 3), keys=False)
    task("student_2pair", lambda: T.task_student_2pair(2, 2, 2), keys=False)
    task("student_identity", lambda: student.task_student_identity(1, 2, 4), keys=False)
    task("x", lambda: T.task_x(mi_estimate_sample=150))
    task("ai", lambda: T.task_ai(mi_estimate_sample=120))
    task("galaxy", lambda: T.task_galaxy(mi_estimate_sample=130))
    task("waves", lambda: T.task_waves(n_components=3, mi_estimate_sample=110))
    task("concentric", lambda: T.task_concentric_multinormal(2, mi_estimate_sample=140))
    task("inliers", lambda: T.task_multinormal_sparse_w_inliers(2, 2, mi_estimate_sample=125))
    task("additive", lambda: T.task_additive_noise(0.3))
    task("bimodal", lambda: T.task_bimodal_gaussians(0.5))
    task("rotate", lambda: T.transform_rotate_task(T.task_multinormal_dense(3, 3)))
    task("spiral", lambda: T.transform_spiral_task(T.task_multinormal_dense(2, 3), speed=0.5))
    task("uniformise", lambda: T.transform_uniformise(T.task_multinormal_dense(2, 2), n_quantiles=4), points=9)
    task("gaussianise", lambda: T.transform_gaussianise(T.task_bivariate_normal(0.4), n_quantiles=5), points=9)
    task("rescale", lambda: T.transform_rescale(T.task_student_dense(2, 2, 3)), keys=False, points=9)
    task("wiggly", lambda: T.transform_wiggly_task(T.task_bivariate_normal(0.6)))
    task("half_cube_asinh", lambda: T.transform_half_cube_task(transform_asinh_task(T.task_student_dense(1, 1, 2))), keys=False)
    task("swissroll", lambda: T.transform_swissroll_task(T.transform_normal_cdf_task(T.task_bivariate_normal(0.2)), "roll"))

    # --- samplers and tasks built from mutable arguments
    def b_task_params():
        p = {"a": [1, 2, {"b": 3.5}], "c": {"d": [0.5]}}
        return Task(S.BivariateNormalSampler(0.5), "own-task", "Own task", task_params=p), [p]

    def b_task_array_params():
        c = _cov(3, 0.3, "float64")
        p = {"covariance": c.tolist(), "k": 2}
        return Task(S.SplitMultinormal(dim_x=1, dim_y=2, covariance=c), "cov-task", "Cov task", task_params=p), [c, p]

    add("own_task", b_task_params, task=True)
    add("own_task_arrays", b_task_array_params, task=True)

    for dt in ("float64", "float32"):
        def b_normal(dt=dt):
            m, c = np.arange(4).astype(dt), _cov(4, 0.4, dt)
            return S.SplitMultinormal(dim_x=2, dim_y=2, covariance=c, mean=m), [m, c]

        def b_student(dt=dt):
            m, c = np.arange(3).astype(dt), _cov(3, 0.6, dt)
            return S.SplitStudentT(dim_x=1, dim_y=2, df=3, dispersion=c, mean=m), [m, c]

        def b_mix(dt=dt):
            p = np.array([0.25, 0.75], dt)
            m, c, c2 = np.array([1.0, -1.0], dt), _cov(2, 0.7, dt), _cov(2, 0.1, dt)
            comps = [bmm.MultivariateNormalDistribution(dim_x=1, dim_y=1, mean=m, covariance=c),
                     bmm.MultivariateStudentDistribution(dim_x=1, dim_y=1, mean=m, dispersion=c2, df=4)]
            return bmm.BMMSampler(bmm.mixture(proportions=p, components=comps), mi_estimate_sample=100, mi_estimate_seed=3), [p, m, c, c2, comps]

        def b_spiral(dt=dt):
            g, i, c = np.array([[0, -1], [1, 0]], dt), np.array([[1, 0.5], [0, 2]], dt), _cov(3, 0.5, dt)
            s = S.TransformedSampler(S.SplitMultinormal(dim_x=2, dim_y=1, covariance=c), transform_x=tr.Spiral(g, initial=i, speed=0.7))
            return s, [g, i, c]

        add(f"normal-{dt}", b_normal)
        add(f"student-{dt}", b_student, keys=False)
        add(f"mixture-{dt}", b_mix)
        add(f"spiral-{dt}", b_spiral)

    def b_lists():
        m, c = [0.5, 1.0], [[2.0, 0.5], [0.5, 1.0]]
        return S.SplitMultinormal(dim_x=1, dim_y=1, covariance=c, mean=m), [m, c]

    def b_student_lists():
        m, c = [0.5, 1.0], [[2.0, 0.5], [0.5, 1.0]]
        return S.SplitStudentT(dim_x=1, dim_y=1, df=2, dispersion=c, mean=m), [m, c]

    def b_concat():
        ss = [S.BivariateNormalSampler(0.3), S.AdditiveUniformSampler(0.6), S.DiscreteUniformMixtureSampler(n_discrete=3)]
        return S.IndependentConcatenationSampler(ss), [ss]

    def b_multi():
        ns = [2, 5, 3]
        return S.MultivariateDiscreteUniformMixtureSampler(ns_discrete=ns), [ns]

    def b_lvm():
        p = S.GaussianLVMParametrization(dim_x=2, dim_y=2, n_interacting=1, alpha=0.4, lambd=1.0)
        c = p.correlation
        return S.SplitMultinormal(dim_x=2, dim_y=2, covariance=c), [c, p]

    def b_bend():
        d = bmm.MultivariateNormalDistribution(dim_x=2, dim_y=1, covariance=_cov(3, 0.5, "float64"))
        d2 = bmm.transform(d, x_transform=tfb.Sinh(), y_transform=tfb.Exp())
        return bmm.BMMSampler(d2, mi_estimate_sample=90), []

    def b_product():
        d = bmm.MultivariateNormalDistribution(dim_x=2, dim_y=1, covariance=_cov(3, 0.5, "float64"))
        return bmm.BMMSampler(bmm.ProductDistribution(d.dist_x, d.dist_y), mi=0.0), []

    def b_mc_key():
        import jax
        d = bmm.MultivariateNormalDistribution(dim_x=1, dim_y=1, covariance=_cov(2, 0.5, "float64"))
        return bmm.BMMSampler(d, mi_estimate_sample=80, mi_estimate_seed=jax.random.PRNGKey(5)), []

    def b_vec():
        return S.TransformedSampler(S.BivariateNormalSampler(0.8, std_x=2.0), transform_x=jnp.exp, transform_y=lambda y: 2 * y, vectorise=False), []

    def b_add_dim():
        return S.TransformedSampler(S.BivariateNormalSampler(0.8), transform_x=lambda x: jnp.concatenate([x, x**2]), add_dim_x=1), []

    add("normal-lists", b_lists)
    add("student-lists", b_student_lists, keys=False)
    add("concat", b_concat)
    add("multi-discrete", b_multi)
    add("lvm-params", b_lvm)
    add("bend", b_bend)
    add("product", b_product)
    add("mc-key", b_mc_key)
    add("vectorised", b_vec)
    add("add-dim", b_add_dim)
    add("bivariate", lambda: (S.BivariateNormalSampler(-0.7, std_x=0.5, mean_y=3.0), []))
    add("additive-small", lambda: (S.AdditiveUniformSampler(0.2), []))
    add("additive-large", lambda: (S.AdditiveUniformSampler(1.5), []))
    add("discrete", lambda: (S.DiscreteUniformMixtureSampler(n_discrete=4, use_discrete_x=False), []))
    add("discrete-int", lambda: (S.DiscreteUniformMixtureSampler(), []))
    add("zip", lambda: (S.ZeroInflatedPoissonizationSampler(), []))
    add("zip-float", lambda: (S.ZeroInflatedPoissonizationSampler(p=0.4, use_discrete_y=False), []))
    return E


# entries built from arrays, lists and dictionaries that the caller can edit afterwards
EDITABLE = ["own_task", "own_task_arrays"] + [f"{k}-{d}" for k in ("normal", "student", "mixture", "spiral") for d in ("float64", "float32")] + [
    "normal-lists", "student-lists", "concat", "multi-discrete", "lvm-params"]


def index(sim, o):
    cat = get(sim)
    return o % len(cat) if isinstance(o, int) else next(i for i, e in enumerate(cat) if e.name == o)


def get(sim):
    if "tasks" not in sim.shared:
        sim.shared["tasks"] = catalogue()
    return sim.shared["tasks"]


def sample(obj, n, rng):
    """Draw with the public method of a task or a sampler."""
    if hasattr(obj, "save_metadata"):
        return obj.sample(n, rng)
    return obj.sample(n, rng)


def enc(a):
    a = np.asarray(a)
    return {"shape": list(a.shape), "dtype": str(a.dtype), "b": base64.b64encode(np.ascontiguousarray(a).tobytes()).decode()}


def dec(e):
    return np.frombuffer(base64.b64decode(e["b"]), dtype=e["dtype"]).reshape(e["shape"])


def same_array(a, b):
    """Same shape and values; one part in 1e5 (float32) or 1e9 is left for memory alignment and the like."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == b.dtype and a.tobytes() == b.tobytes():
        return True
    single = np.float32 in (a.dtype.type, b.dtype.type)
    a, b = a.astype(np.float64), b.astype(np.float64)
    scale = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]), initial=0.0)))
    return bool(np.allclose(a, b, rtol=1e-4 if single else 1e-9, atol=(1e-5 if single else 1e-10) * scale if scale < 1e3 else 0, equal_nan=True))
