"""Menu of sampler configurations shared by the sampler checks."""

import functools
import math


def lvm(dx, dy, k, alpha=0.4, lambd=1.5, beta=0.3, eta=0.7):
    """A covariance matrix with all kinds of dependence (written out from the generative model)."""
    import numpy as np

    n = dx + dy
    a = np.zeros((n, 0))

    def add(rows, w):
        nonlocal a
        c = np.zeros((n, 1))
        c[list(rows), 0] = w
        a = np.hstack([a, c])

    add(range(n), alpha)
    add(range(dx), beta)
    add(range(dx, n), beta)
    for i in range(k):
        add((i, dx + i), lambd)
    for i in range(n):
        add((i,), 1.0)
    for i in list(range(k, dx)) + list(range(dx + k, n)):
        add((i,), eta)
    return a @ a.T


def scale_tril(n, seed):
    """A fixed, well conditioned lower triangular matrix with entries that are all different."""
    import numpy as np

    a = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            a[i, j] = math.sin(1.7 * i + 2.9 * j + seed) * 0.6
        a[i, i] = 0.7 + 0.25 * ((3 * i + seed) % 5)
    return a


def cov(n, seed):
    a = scale_tril(n, seed)
    return a @ a.T


def gaussian_mi(c, dx):
    """MI through canonical correlations (no determinants)."""
    import numpy as np

    c = np.asarray(c, dtype=float)
    lx = np.linalg.cholesky(c[:dx, :dx])
    ly = np.linalg.cholesky(c[dx:, dx:])
    m = np.linalg.solve(lx, c[:dx, dx:])
    m = np.linalg.solve(ly, m.T).T
    s = np.linalg.svd(m, compute_uv=False)
    return float(-0.5 * np.log1p(-(s**2)).sum())


def student_correction(df, dx, dy):
    """MI of a Student-t distribution with identity dispersion."""
    from scipy.special import gammaln, psi

    if math.isinf(df):
        return 0.0
    lg, p = gammaln, psi

    def f(k):
        return lg((df + k) / 2) - (df + k) / 2 * p((df + k) / 2)

    return float(lg(df / 2) + f(dx + dy) - f(dx) - f(dy) - df / 2 * p(df / 2))


@functools.lru_cache(None)
def zip_mi(p):
    """MI of the zero-inflated Poissonization by summation and quadrature over the exponential."""
    import numpy as np
    from scipy import special

    t, w = np.polynomial.legendre.leggauss(40)
    edges = np.array([0.0] + [2.0**-i for i in range(40, -1, -1)])  # u = exp(-x) in (0, 1]
    mid, half = (edges[1:] + edges[:-1]) / 2, (edges[1:] - edges[:-1]) / 2
    u = (mid[:, None] + half[:, None] * t).ravel()
    w = (2 * half[:, None] * w).ravel()
    x = -np.log(u)
    k = np.arange(0, 160)[:, None]
    q = (1 - p) * np.exp(-x + k * np.log(x) - special.gammaln(k + 1))
    q[0] += p
    py = (1 - p) * 0.5 ** (k[:, 0] + 1.0)
    py[0] += p
    h_y = -np.sum(special.xlogy(py, py))
    h_y_x = -np.sum(special.xlogy(q, q).sum(0) * w / 2)
    return float(h_y - h_y_x)


def additive_uniform_mi(eps):
    """h(Y) - h(N) for Y = U(0,1) + U(-eps,eps), whose density is a trapezoid."""
    # plateau height 1/(2 eps) or 1, the two flanks are linear over a length of min(1, 2 eps)
    flank = min(1.0, 2 * eps)
    height = 1.0 / max(1.0, 2 * eps)
    plateau = abs(1 - 2 * eps)
    # -int of h log h over a linear flank rising to `height` = height*L*(1/4 - log(height)/2)
    h_y = -plateau * height * math.log(height) + 2 * flank * height * (0.25 - 0.5 * math.log(height))
    return h_y - math.log(2 * eps)


class Lazy:
    def __init__(self, module, attribute=None):
        self._where = module, attribute

    def __getattr__(self, name):
        import importlib

        m = importlib.import_module(self._where[0])
        return getattr(getattr(m, self._where[1]) if self._where[1] else m, name)


def menu():
    """name -> (builder, dim_x, dim_y, MI or None)."""
    import numpy as np

    # imported on first use only: the parent process lists the names without starting JAX
    s, bmm = Lazy("bmi.samplers"), Lazy("bmi.samplers", "bmm")
    out = {}

    def add(name, build, dx, dy, mi):
        out[name] = (build, dx, dy, mi)

    for dx, dy in ((1, 1), (1, 2), (2, 1), (3, 2), (2, 12)):
        c = cov(dx + dy, dx)
        m = np.arange(dx + dy) * 1.5 - 2
        add(f"normal-{dx}-{dy}", lambda dx=dx, dy=dy, c=c, m=m: s.SplitMultinormal(dim_x=dx, dim_y=dy, covariance=c, mean=m),
            dx, dy, gaussian_mi(c, dx))
        if (dx, dy) in ((1, 1), (2, 12)):
            add(f"bmm-normal-{dx}-{dy}", lambda dx=dx, dy=dy, c=c, m=m: bmm.BMMSampler(
                bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=c, mean=m), mi_estimate_sample=400), dx, dy, None)
        for df in (1, 5) + ((math.inf,) if dx == 1 else ()):
            add(f"student-{df}-{dx}-{dy}", lambda dx=dx, dy=dy, c=c, m=m, df=df: s.SplitStudentT(
                dim_x=dx, dim_y=dy, df=df, dispersion=c, mean=m), dx, dy, gaussian_mi(c, dx) + student_correction(df, dx, dy))
        if (dx, dy) == (1, 2):
            add(f"bmm-student-{dx}-{dy}", lambda dx=dx, dy=dy, c=c, m=m: bmm.BMMSampler(
                bmm.MultivariateStudentDistribution(dim_x=dx, dim_y=dy, df=4, dispersion=c, mean=m), mi=0.25), dx, dy, 0.25)
    for r in (-0.9, 0.0, 0.5):
        add(f"binormal-{r}", lambda r=r: s.BivariateNormalSampler(correlation=r, std_x=2.0, std_y=0.5, mean_x=1.0, mean_y=-3.0),
            1, 1, -0.5 * math.log(1 - r * r))
    for e in (0.1, 0.5, 0.75):
        add(f"additive-{e}", lambda e=e: s.AdditiveUniformSampler(epsilon=e), 1, 1, additive_uniform_mi(e))
    for m in (1, 2, 5):
        for d in (True, False):
            add(f"discrete-{m}-{d}", lambda m=m, d=d: s.DiscreteUniformMixtureSampler(n_discrete=m, use_discrete_x=d), 1, 1,
                math.log(m) - (m - 1) / m * math.log(2))
    add("discrete-multi", lambda: s.MultivariateDiscreteUniformMixtureSampler(ns_discrete=[4, 2, 3]), 3, 3,
        sum(math.log(m) - (m - 1) / m * math.log(2) for m in (4, 2, 3)))
    for p in (0.0, 0.15, 0.7):
        for d in (True, False):
            add(f"zip-{p}-{d}", lambda p=p, d=d: s.ZeroInflatedPoissonizationSampler(p=p, use_discrete_y=d), 1, 1, zip_mi(p))
    c3, c5 = cov(3, 1), cov(3, 4)
    add("concat", lambda: s.IndependentConcatenationSampler([
        s.SplitMultinormal(dim_x=1, dim_y=2, covariance=c3), s.AdditiveUniformSampler(0.3),
        s.SplitStudentT(dim_x=2, dim_y=1, df=3, dispersion=c5)]), 4, 4,
        gaussian_mi(c3, 1) + additive_uniform_mi(0.3) + gaussian_mi(c5, 2) + student_correction(3, 2, 1))
    add("concat-zip", lambda: s.IndependentConcatenationSampler([s.ZeroInflatedPoissonizationSampler(0.3), s.BivariateNormalSampler(0.4)]),
        2, 2, zip_mi(0.3) - 0.5 * math.log(1 - 0.16))
    add("transformed", lambda: s.TransformedSampler(s.SplitMultinormal(dim_x=1, dim_y=2, covariance=c3),
                                                    transform_x=lambda x: x**3 + x, transform_y=lambda y: y[::-1] * 2.0), 1, 2, gaussian_mi(c3, 1))
    add("embedded", lambda: s.TransformedSampler(s.BivariateNormalSampler(0.6), transform_x=lambda x: __import__("jax").numpy.stack(
        [x[0], x[0] ** 2]), add_dim_x=1), 2, 1, -0.5 * math.log(1 - 0.36))
    add("mixture", lambda: bmm.BMMSampler(bmm.mixture(np.array([0.3, 0.7]), [
        bmm.MultivariateNormalDistribution(dim_x=1, dim_y=2, covariance=c3, mean=np.zeros(3)),
        bmm.MultivariateNormalDistribution(dim_x=1, dim_y=2, covariance=c5, mean=np.ones(3) * 3)]), mi_estimate_sample=300,
        mi_estimate_seed=3), 1, 2, None)
    return out
