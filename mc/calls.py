"""Menu of calls shared by the checks of simultaneous and of interrupted calls.

subject = (build() -> object, {operation: f(object, variant)}, kind); every operation has two variants
with arguments of the same shapes but different values, so that whatever leaks from one call into
another shows.  kind: "shared" - one object may serve several callers at once; "own" - an object that
remembers its last data (estimators with a fit): each caller has its own, or calls it in turn.
"""

import numpy as np


def data(variant, n=24, dx=1, dy=2):
    a = np.array([[np.sin(1.7 * i + 2.9 * j * i + j + variant) for j in range(dx + dy)] for i in range(n)])
    if variant:
        a[:, 0] = a[:, 0] + 0.8 * a[:, -1]
    out = a[:, :dx].copy(), a[:, dx:].copy()
    _handed.extend((v, v.tobytes(), str(v.flags), v.shape) for v in out)
    return out


_handed = []


def spoilt_inputs(keep=False):
    """How many of the arrays handed out since the last call of this function are not as they were."""
    bad = sum(v.tobytes() != b or str(v.flags) != f or v.shape != s for v, b, f, s in _handed)
    if not keep:
        _handed.clear()
    return bad


class Files:
    """A scratch folder; every variant has its own file."""

    def __init__(self):
        import tempfile

        self.dir = tempfile.TemporaryDirectory(prefix="mc-calls-")

    def path(self, name):
        import os

        return os.path.join(self.dir.name, name)


def subjects():
    from mc.samplers_ref import Lazy, cov
    import jax
    import jax.numpy as jnp

    s, bmm, tr, utils = Lazy("bmi.samplers"), Lazy("bmi.samplers", "bmm"), Lazy("bmi.transforms"), Lazy("bmi.utils")
    est, bench = Lazy("bmi.estimators"), Lazy("bmi.benchmark")
    key = jax.random.PRNGKey
    out = {}

    def sampler(n=4):
        return {
            "sample": lambda o, v: o.sample(n, 3 + 6 * v),
            "sample-key": lambda o, v: o.sample(n + v, key(3 + 6 * v)),
            "mi": lambda o, v: float(o.mutual_information()),
            "dims": lambda o, v: (o.dim_x, o.dim_y, o.dim_total),
        }

    mean3, c3 = np.array([1.0, -2.0, 0.5]), cov(3, 1)
    out["SplitMultinormal"] = (lambda: s.SplitMultinormal(dim_x=1, dim_y=2, mean=mean3, covariance=c3), sampler(), "shared")
    out["SplitStudentT"] = (lambda: s.SplitStudentT(dim_x=1, dim_y=2, df=3, mean=mean3, dispersion=c3), dict(
        sampler(), covariance=lambda o, v: (o.covariance(), o.mi_normal(), o.mi_correction())), "shared")
    out["SplitStudentT-inf"] = (lambda: s.SplitStudentT(dim_x=1, dim_y=2, df=float("inf"), mean=mean3, dispersion=c3), sampler(), "shared")
    out["Bivariate"] = (lambda: s.BivariateNormalSampler(correlation=0.4, mean_x=1.0, std_y=2.0), sampler(), "shared")
    out["AdditiveUniform"] = (lambda: s.AdditiveUniformSampler(epsilon=0.3), sampler(), "shared")
    out["Discrete"] = (lambda: s.MultivariateDiscreteUniformMixtureSampler(ns_discrete=[3, 2]), sampler(), "shared")
    out["Poissonization"] = (lambda: s.ZeroInflatedPoissonizationSampler(p=0.2), {k: f for k, f in sampler().items() if k != "mi"}, "shared")
    out["Concatenation"] = (lambda: s.IndependentConcatenationSampler([
        s.BivariateNormalSampler(correlation=0.5), s.SplitMultinormal(dim_x=1, dim_y=2, covariance=c3), s.AdditiveUniformSampler(epsilon=0.25)]),
        sampler(), "shared")

    def transformed():
        return s.TransformedSampler(s.SplitMultinormal(dim_x=1, dim_y=2, mean=mean3, covariance=c3), transform_x=lambda x: x**3 + x,
                                    transform_y=tr.Spiral(np.array([[0, -1.0], [1, 0]]), speed=0.5))

    out["Transformed"] = (transformed, dict(sampler(), transform=lambda o, v: o.transform(*data(v, 4))), "shared")
    out["Transformed-nested"] = (lambda: s.TransformedSampler(transformed(), transform_x=tr.normal_cdf, transform_y=tr.half_cube, vectorise=False),
                                 sampler(), "shared")

    def pts(v, n=3):
        x, y = data(v, n)
        return jnp.asarray(x), jnp.asarray(y)

    fine = {
        "sample": lambda o, v: o.sample(3, key(5 + v)),
        "pmi": lambda o, v: o.pmi(*pts(v)),
        "profile": lambda o, v: bmm.pmi_profile(key(7 + v), o, 5),
        "montecarlo": lambda o, v: bmm.monte_carlo_mi_estimate(key(9 + v), o, 6),
        "analytic": lambda o, v: (None if o.analytic_mi is None else float(o.analytic_mi), o.dim_x, o.dim_y),
    }
    normal = lambda m=0.0: bmm.MultivariateNormalDistribution(dim_x=1, dim_y=2, mean=jnp.asarray(mean3) + m, covariance=c3)  # noqa: E731
    student = lambda: bmm.MultivariateStudentDistribution(dim_x=1, dim_y=2, df=4, mean=mean3, dispersion=c3)  # noqa: E731
    mixture = lambda: bmm.mixture(np.array([0.25, 0.75]), [normal(-2.0), student()])  # noqa: E731
    out["fine-normal"] = (normal, fine, "shared")
    out["fine-student"] = (student, fine, "shared")
    out["fine-mixture"] = (mixture, fine, "shared")
    out["fine-product"] = (lambda: bmm.ProductDistribution(
        bmm.construct_multivariate_normal_distribution(jnp.array([3.0]), jnp.array([[2.0]])),
        bmm.construct_multivariate_normal_distribution(jnp.array([0.5, -1.0]), jnp.eye(2))), fine, "shared")

    def bent():
        from tensorflow_probability.substrates import jax as tfp

        return bmm.transform(mixture(), x_transform=tfp.bijectors.Sinh(), y_transform=tfp.bijectors.Shift(1.0))

    out["fine-bent"] = (bent, fine, "shared")
    out["BMMSampler"] = (lambda: bmm.BMMSampler(mixture(), mi_estimate_sample=40), {k: f for k, f in sampler().items()}, "shared")
    out["BMMSampler-known"] = (lambda: bmm.BMMSampler(normal(), mi=0.5), sampler(), "shared")

    out["transforms"] = (lambda: tr.Spiral(np.array([[0, -1.0], [1, 0]]), initial=np.array([[0.6, 0.8], [-0.8, 0.6]]), speed=0.5), {
        "spiral": lambda o, v: o(jnp.array([0.75 + v, -0.5])),
        "roll": lambda o, v: tr.swissroll2d(np.array([0.25 + v / 2])),
        "simple": lambda o, v: (tr.half_cube(np.array([1.5 + v, -2.0])), tr.normal_cdf(np.array([0.5 - v]))),
        "so": lambda o, v: tr.so_generator(3 + v, 0, 1 + v),
        "skew": lambda o, v: tr.skew_symmetrize(np.array([[1.0, 2.0 + v], [5.0, 1.0]])),
    }, "shared")
    out["builders"] = (lambda: s.GaussianLVMParametrization(dim_x=2, dim_y=3, n_interacting=2, alpha=0.3, lambd=1.2, beta_x=0.2, eta_x=0.5), {
        "canonical": lambda o, v: s.canonical_correlation([0.25 + v / 2, 0.5], additional_y=v),
        "parametrised": lambda o, v: s.parametrised_correlation_matrix(dim_x=2, dim_y=2, k=1 + v, correlation=0.5 - v / 4, correlation_x=0.25,
                                                                      correlation_y=0.125),
        "lvm": lambda o, v: (o.covariance, o.correlation, o.mixing),
        "lvm-own": lambda o, v: s.GaussianLVMParametrization(dim_x=2, dim_y=3, n_interacting=1 + v, alpha=0.3 + v, lambd=1.2).covariance,
        "lvm-sparse": lambda o, v: s.SparseLVMParametrization(dim_x=2, dim_y=2, n_interacting=1 + v, lambd=0.5 + v).correlation,
    }, "shared")
    out["utils"] = (Files, {
        "space": lambda o, v: (lambda p: (p.x, p.y, p.xy, p[1], len(p)))(utils.ProductSpace(*data(v))),
        "space-raw": lambda o, v: (lambda p: (p.x, p.y, p.xy, p[1:3]))(utils.ProductSpace(*data(v), standardize=False)),
        "noise": lambda o, v: utils.add_noise(data(v)[0], noise_std=0.5, rng_key=4 + v),
        "chunks": lambda o, v: [(c.start, c.stop) for c in utils.chunker(10 + v, 3)],
        "csv": lambda o, v: (utils.save_sample(o.path(f"{v}.csv"), *data(v)), utils.read_sample(o.path(f"{v}.csv")),
                             utils.read_sample_dims(o.path(f"{v}.csv"))),
        "csv-read": lambda o, v: (utils.save_sample(o.path("c.csv"), *data(0)), utils.read_sample(o.path("c.csv"))) if not v else None,
    }, "shared")

    # estimators
    def estimator(cls, module=None, size=24, **kw):
        ops = {
            "estimate": lambda o, v: float(o.estimate(*data(v, size))),
            "result": lambda o, v: (lambda r: (float(r.mi_estimate), scrub(r.additional_information)))(o.estimate_with_info(*data(v, size))),
        }
        ops["parameters"] = lambda o, v: o.parameters().dict()
        return lambda: getattr(module or est, cls)(**kw), ops, "own"

    out["KSG"] = estimator("KSGEnsembleFirstEstimator", neighborhoods=(2, 5), chunk_size=10)
    out["KSG-slow"] = estimator("KSGEnsembleFirstEstimatorSlow", size=8, neighborhoods=(2, 5))
    for n in ("KSG", "KSG-slow"):
        out[n][1]["predictions"] = lambda o, v: (o.fit(*data(v, 8)), o.get_predictions())[1]
    out["KDE"] = estimator("KDEMutualInformationEstimator", kernel_xy="tophat", bandwidth_x=0.3)
    out["KDE"][1]["entropies"] = lambda o, v: repr(o.estimate_entropies(*data(v)))
    out["Histogram"] = estimator("HistogramEstimator", n_bins_x=3)
    out["CCA"] = estimator("CCAMutualInformationEstimator")
    for cls, where in (("RKSGEstimator", "r_estimators"), ("JuliaKSGEstimator", "julia_estimators"), ("RBNSLEstimator", "r_estimators")):
        out[cls] = estimator(cls, module=Lazy(f"bmi.estimators.external.{where}"))
    small = dict(hidden_layers=[3], batch_size=6, max_n_steps=4, test_every_n_steps=2, verbose=False)
    for cls in ("InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator", "MINEEstimator"):
        out[cls] = estimator(cls, **small)

    # tasks
    def task():
        return bench.tasks.task_bivariate_normal(0.5)

    def yaml_of(o, v):
        import os
        import tempfile

        with tempfile.TemporaryDirectory(prefix="mc-calls-") as d:
            o.save_metadata(os.path.join(d, f"{v}.yaml"))
            return open(os.path.join(d, f"{v}.yaml")).read()

    def csv_of(o, v):
        import os
        import tempfile

        with tempfile.TemporaryDirectory(prefix="mc-calls-") as d:
            o.save_sample(os.path.join(d, f"{v}.csv"), 3, 5 + v)
            return open(os.path.join(d, f"{v}.csv")).read()

    def run_of(o, v):
        import os
        import tempfile

        with tempfile.TemporaryDirectory(prefix="mc-calls-") as d:
            p = os.path.join(d, f"{v}.csv")
            utils.save_sample(p, *data(v))
            e = est.HistogramEstimator(n_bins_x=2 + v)
            r = bench.run_estimator(e, f"e{v}", p, f"t{v}", seed=v).dict()
            r.pop("time_in_seconds", None)
            return scrub(r)

    out["task"] = (task, {
        "sample": lambda o, v: o.sample(4, 3 + v),
        "csv": csv_of,
        "yaml": yaml_of,
        "facts": lambda o, v: (o.id, o.name, float(o.mutual_information), o.dim_x, o.dim_y),
        "run": run_of,
        "transform": lambda o, v: (bench.tasks.transform_half_cube_task if v else bench.tasks.transform_normal_cdf_task)(o).sample(3, 1),
    }, "shared")
    for name, (build, ops, kind) in list(out.items()):
        ops = dict(ops)
        out[name] = build, ops, kind
        if "facts" not in ops and kind == "shared" and name not in ("utils", "builders", "transforms"):
            ops["new"] = lambda o, v, build=build: (lambda n: (n.dim_x, n.dim_y))(build())
    return out


def scrub(d):
    """Without running times, which differ from run to run."""
    if isinstance(d, dict):
        return {k: scrub(v) for k, v in d.items() if "time" not in str(k)}
    return d
