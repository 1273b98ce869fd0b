"""Reference meaning of a benchmark task, read off its id (never off its code)."""

import math
import re


class RefTask:
    elliptic = None

    def __init__(self, dx, dy, mi, sample, params, mi_tol=2e-5, mixture=None, key_params=None):
        self.dx, self.dy, self.mi, self.sample, self.params, self.mi_tol, self.mixture = dx, dy, mi, sample, params, mi_tol, mixture


def num(text):
    return float(text) if any(c in text for c in ".einf") else int(text)


def arrays(pair):
    import numpy as np

    return tuple(np.asarray(a, dtype=float) for a in pair)


def sparse_correlation(dx, dy, k, strength):
    import numpy as np
    from mc.samplers_ref import lvm

    c = lvm(dx, dy, k, alpha=0.0, lambd=strength, beta=0.0, eta=strength)
    d = 1 / np.sqrt(np.diag(c))
    return c * d[:, None] * d[None, :]


def base(task_id):
    """A RefTask for the id of a task that is not transformed, or None."""
    import numpy as np

    import bmi.samplers as s
    from mc.samplers_ref import additive_uniform_mi, gaussian_mi, student_correction

    def drawn(sampler):
        return lambda n, seed: arrays(sampler.sample(n, seed))

    n_ = r"(-?[0-9.einf]+)"
    m = re.fullmatch(rf"1v1-normal-{n_}", task_id)
    if m:
        r = num(m[1])
        return RefTask(1, 1, -0.5 * math.log1p(-r * r), drawn(s.BivariateNormalSampler(correlation=r)), {"gaussian_correlation": r})
    m = re.fullmatch(rf"1v1-additive-{n_}", task_id)
    if m:
        e = num(m[1])
        return RefTask(1, 1, additive_uniform_mi(e), drawn(s.AdditiveUniformSampler(e)), {"epsilon": e})
    m = re.fullmatch(rf"1v1-bimodal-{n_}", task_id)
    if m:
        r = num(m[1])
        sampler = s.BivariateNormalSampler(correlation=r)

        def bimodal(n, seed):
            from scipy import stats

            grid = np.linspace(-11, 16, 2700001)
            x, y = arrays(sampler.sample(n, seed))
            out = []
            for v, (w, a, b) in ((x, (0.3, 0, 5)), (y, (0.5, -1, 3))):
                cdf = w * stats.norm.cdf(grid - a) + (1 - w) * stats.norm.cdf(grid - b)
                out.append(np.clip(np.interp(stats.norm.cdf(v), cdf, grid), -10, 10))
            return tuple(out)

        return RefTask(1, 1, -0.5 * math.log1p(-r * r), bimodal, {"gaussian_correlation": r})
    m = re.fullmatch(rf"(multinormal|student)-(identity|dense|sparse)-([0-9]+)-([0-9]+)((?:-[0-9.einf]+)*)", task_id)
    if m:
        dx, dy = int(m[3]), int(m[4])
        rest = [num(v) for v in m[5].split("-")[1:]]
        params = {}
        df = None
        if m[1] == "student":
            df = rest.pop(0)
            params["dof"] = df
        if m[2] == "identity":
            c = np.eye(dx + dy)
        elif m[2] == "dense":
            off = rest.pop(0)
            c = np.full((dx + dy, dx + dy), float(off))
            np.fill_diagonal(c, 1.0)
            params["off_diag"] = off
            params["covariance" if df is None else "dispersion"] = c
        else:
            k, strength = rest.pop(0), rest.pop(0)
            c = sparse_correlation(dx, dy, k, strength)
            params.update(n_interacting=k, strength=strength)
        assert not rest, task_id
        mi = gaussian_mi(c, dx)
        if df is None:
            sampler = s.SplitMultinormal(dim_x=dx, dim_y=dy, covariance=c)
        else:
            mi += student_correction(df, dx, dy)
            sampler = s.SplitStudentT(dim_x=dx, dim_y=dy, df=df, dispersion=c)
        ref = RefTask(dx, dy, mi, drawn(sampler), params)
        # the eigenvectors numpy uses for sampling are not determined when eigenvalues coincide: rounding of the matrix may rotate
        # the sample, so only the size of each point and the law are judged
        ref.elliptic = (c, df) if df is not None and m[2] != "identity" else None
        return ref
    m = re.fullmatch(rf"multinormal-lvm-([0-9]+)-([0-9]+)-([0-9]+)-{n_}-{n_}-{n_}-{n_}", task_id)
    if m:
        from mc.samplers_ref import lvm

        dx, dy, k = int(m[1]), int(m[2]), int(m[3])
        a, l, b, e = (num(m[i]) for i in (4, 5, 6, 7))
        # beta and eta are the weights of X; those of Y default to the same
        c = lvm(dx, dy, k, alpha=a, lambd=l, beta=b, eta=e)
        d = 1 / np.sqrt(np.diag(c))
        c = c * d[:, None] * d[None, :]
        return RefTask(dx, dy, gaussian_mi(c, dx), drawn(s.SplitMultinormal(dim_x=dx, dim_y=dy, covariance=c)), None)
    return mixture(task_id)


# -- Gaussian mixtures --------------------------------------------------------


def mixture_mi_2d(comps, lim, n=1501):
    """MI of a mixture of bivariate normals by quadrature; comps = [(weight, mean, covariance)]."""
    import numpy as np
    from scipy import stats

    xs = np.linspace(lim[0], lim[1], n)
    ys = np.linspace(lim[2], lim[3], n)
    h = (xs[1] - xs[0]) * (ys[1] - ys[0])
    gx, gy = np.meshgrid(xs, ys, indexing="ij")
    pts = np.stack([gx, gy], -1)
    p = sum(w * stats.multivariate_normal(m, c).pdf(pts) for w, m, c in comps)
    px = sum(w * stats.norm(m[0], math.sqrt(c[0][0])).pdf(xs) for w, m, c in comps)
    py = sum(w * stats.norm(m[1], math.sqrt(c[1][1])).pdf(ys) for w, m, c in comps)
    with np.errstate(all="ignore"):
        t = p * (np.log(p) - np.log(px)[:, None] - np.log(py)[None, :])
    return float(np.nansum(t) * h)


def mixture(task_id):
    import numpy as np
    from scipy import special, stats

    n_ = r"(-?[0-9.einf]+)"
    m = re.fullmatch(rf"1v1-X-{n_}", task_id)
    if m:
        r = num(m[1])
        comps = [(0.5, [0, 0], [[1, s * r], [s * r, 1]]) for s in (1, -1)]
        return RefTask(1, 1, mixture_mi_2d(comps, (-7, 7, -7, 7)), None, {"gaussian_correlation": r}, 0.02, (comps, lambda x, y: np.hstack([x, y])))
    m = re.fullmatch(rf"2v1-galaxy-{n_}-{n_}", task_id)
    if m:
        speed, dist = num(m[1]), num(m[2])
        flat = [(0.5, [s * dist / math.sqrt(2), s * dist / 2], [[1, 0], [0, 1]]) for s in (1, -1)]
        w = abs(dist) + 7
        comps = [(0.5, [s * dist / 2] * 3, np.eye(3)) for s in (1, -1)]

        def undo(x, y):
            t = -speed * (x**2).sum(1)
            c, s = np.cos(t), np.sin(t)
            return np.stack([c * x[:, 0] - s * x[:, 1], s * x[:, 0] + c * x[:, 1], y[:, 0]], 1)

        return RefTask(2, 1, mixture_mi_2d(flat, (-w, w, -w, w)), None, {"speed": speed, "distance": dist}, 0.02, (comps, undo))
    m = re.fullmatch(rf"2v1-waves-{n_}-{n_}-{n_}", task_id)
    if m:
        k, amp, freq = int(m[1]), num(m[2]), num(m[3])
        flat = [(1 / k, [1.5 * i, 1.5 * (i % 4)], [[0.1, 0], [0, 0.1]]) for i in range(k)]
        comps = [(1 / k, [1.5 * i, 0, 1.5 * (i % 4)], np.diag([0.1, 1.0, 0.1])) for i in range(k)]

        def undo(x, y):
            b = x[:, 1] / 0.5
            a = (x[:, 0] + 0.8) / 0.1 - amp * np.sin(freq * b)
            return np.stack([a, b, y[:, 0]], 1)

        lim = (-3, 1.5 * k + 3, -3, 8)
        return RefTask(2, 1, mixture_mi_2d(flat, lim), None, {"n_components": k, "wave_amplitude": amp, "wave_frequency": freq}, 0.02, (comps, undo))
    m = re.fullmatch(r"([0-9]+)v1-concentric_gaussians-([0-9]+)", task_id)
    if m:
        d, k = int(m[1]), int(m[2])
        # Y is the number of the component (the noise of Y, 0.01, never confuses two of them)
        r = np.linspace(1e-6, k * (math.sqrt(d) + 9), 200001)
        logs = np.array([stats.chi(d, scale=i).logpdf(r) for i in range(1, k + 1)])
        mean = special.logsumexp(logs, axis=0) - math.log(k)
        mi = float(np.trapezoid((np.exp(logs) * (logs - mean)).mean(0), r)) if hasattr(np, "trapezoid") else float(
            np.trapz((np.exp(logs) * (logs - mean)).mean(0), r))
        comps = [(1 / k, [0] * d + [i], np.diag([i**2] * d + [1e-4])) for i in range(1, k + 1)]
        return RefTask(d, 1, mi, None, {"n_components": k}, 0.03, (comps, lambda x, y: np.hstack([x, y])))
    m = re.fullmatch(rf"mult-sparse-w-inliers-([0-9]+)-([0-9]+)-([0-9]+)-{n_}-{n_}", task_id)
    if m:
        dx, dy, k = int(m[1]), int(m[2]), int(m[3])
        strength, f = num(m[4]), num(m[5])
        c = sparse_correlation(dx, dy, k, strength)
        p = c.copy()
        p[:dx, dx:] = 0
        p[dx:, :dx] = 0
        # only the interacting pairs matter: pmi = log((1-f) q/(p) + f), q/p of k independent pairs
        rho = [c[i, dx + i] for i in range(k)]
        rng = np.random.default_rng(7)
        n = 400000
        signal = rng.random(n) >= f
        a = rng.standard_normal((n, k))
        b = np.where(signal[:, None], np.array(rho) * a + np.sqrt(1 - np.array(rho) ** 2) * rng.standard_normal((n, k)), rng.standard_normal((n, k)))
        lr = 0.0
        for i, r in enumerate(rho):
            lr = lr - 0.5 * math.log1p(-r * r) - (r * r * (a[:, i] ** 2 + b[:, i] ** 2) - 2 * r * a[:, i] * b[:, i]) / (2 * (1 - r * r))
        mi = float(np.log((1 - f) * np.exp(lr) + f).mean())
        comps = [(w, [0] * (dx + dy), v) for w, v in ((1 - f, c), (f, p)) if w > 0]
        return RefTask(dx, dy, max(mi, 0.0), None, {"n_interacting": k, "strength": strength, "inlier_fraction": f}, 0.03,
                       (comps, lambda x, y: np.hstack([x, y])))
    return None


# -- transforms ---------------------------------------------------------------


def rotate_np(d, side):
    import numpy as np
    from scipy.linalg import expm

    def gen(i, j):
        g = np.zeros((d, d))
        g[i, j], g[j, i] = -1, 1
        return g

    return expm(2 * gen(0, 1) - gen(1, 2) - gen(0, 2) if side == "x" else gen(0, 1) + 2 * gen(1, 2))


def spiral_np(v, i, j, speed):
    import numpy as np

    t = speed * (v**2).sum(1)
    c, s = np.cos(t), np.sin(t)
    out = v.copy()
    out[:, i] = c * v[:, i] - s * v[:, j]
    out[:, j] = s * v[:, i] + c * v[:, j]
    return out


def quantile(v, n_quantiles, kind):
    """Ranks against empirical quantiles, as documented by scikit-learn."""
    import numpy as np
    from scipy import stats

    q = min(n_quantiles, len(v))
    refs = np.linspace(0, 1, q)
    slack = 0.0 if kind == "uniform" else 1e-7
    out = np.empty_like(v)
    for c in range(v.shape[1]):
        qs = np.percentile(v[:, c], refs * 100)
        # repeated quantiles: the middle of the jump
        u = 0.5 * (np.interp(v[:, c], qs, refs) - np.interp(-v[:, c], -qs[::-1], -refs[::-1]))
        u = np.where(v[:, c] + slack >= qs[-1], 1.0, np.where(v[:, c] - slack <= qs[0], 0.0, u))
        out[:, c] = u if kind == "uniform" else np.clip(stats.norm.ppf(u), stats.norm.ppf(1e-7), stats.norm.ppf(1 - 1e-7))
    return out


def apply(name, x, y):
    """Reference image of a sample; also says whether it needs the dims and the prefix of the id."""
    import numpy as np
    from mc.checks.p19_transforms import SCALARS
    from scipy import stats

    if name == "asinh":
        return np.arcsinh(x), np.arcsinh(y)
    if name == "normal_cdf":
        return stats.norm.cdf(x), stats.norm.cdf(y)
    if name == "half_cube":
        f = lambda v: np.sign(v) * np.abs(v) ** 1.5
        return f(x), f(y)
    if name == "wiggly":
        return np.vectorize(SCALARS["wiggly_x"])(x), np.vectorize(SCALARS["wiggly_y"])(y)
    if name == "spiral":
        return spiral_np(x, 0, 1, 1.0 / x.shape[1]), spiral_np(y, 1, 2, 1.0 / y.shape[1])
    if name.startswith("spiral:"):
        v = float(name.split(":")[1])
        return spiral_np(x, 0, 1, v), spiral_np(y, 1, 2, v)
    if name == "rotate":
        return x @ rotate_np(x.shape[1], "x"), y @ rotate_np(y.shape[1], "y")
    if name == "rescale":
        return tuple((v - v.mean(0)) / v.std(0) for v in (x, y))
    if name in ("uniformise", "gaussianise"):
        kind = "uniform" if name == "uniformise" else "normal"
        return quantile(x, 100, kind), quantile(y, 100, kind)
    if name == "swissroll":
        t = 1.5 * np.pi * (1 + 2 * x[:, 0])
        return np.stack([t * np.cos(t), t * np.sin(t)], 1) / 21.0, y
    if name.startswith("power"):
        a = float(name[5:])
        f = lambda v: np.sign(v) * np.abs(v) ** a
        return f(x), f(y)
    raise KeyError(name)


PREFIXES = {
    "asinh-": "asinh", "normal_cdf-": "normal_cdf", "half_cube-": "half_cube", "wiggly-": "wiggly", "spiral-": "spiral",
    "rotate-": "rotate", "rescale-": "rescale", "uniformise-": "uniformise", "gaussianise-": "gaussianise", "swissroll_x-": "swissroll",
}


def parse(task_id):
    """Reference of any task id (None if it is unknown)."""
    for prefix, name in PREFIXES.items():
        if task_id.startswith(prefix):
            inner = parse(task_id[len(prefix):])
            if inner is None or inner.sample is None:
                return inner
            extra = 1 if name == "swissroll" else 0
            params = dict(inner.params or {})
            return RefTask(inner.dx + extra, inner.dy, inner.mi, lambda n, seed, f=inner.sample, name=name: apply(name, *f(n, seed)),
                           params, inner.mi_tol)
    return base(task_id)
