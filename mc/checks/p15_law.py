"""P15: what a sampler draws follows the law it is named after (X paired with Y, location, scale, dependence)."""

import itertools
import math

PROPERTY = "P15"
BOUNDS = {
    "quick": "95 sampler configurations x 2 seeds (int and key), 20000 points each, against the exact law of every coordinate, "
    "of the residuals and of linear combinations",
    "thorough": "10 seeds",
}
ASSUMPTIONS = [
    "agreement is judged on the points of each enumerated (configuration, seed): deviations below 3.3/sqrt(20000) in "
    "distribution function are not seen (and a right sampler exceeds that with probability < 1e-9)"
]
N = 20000


def cases(tier):
    seeds = range(10) if tier == "thorough" else (0, 1)
    out = []

    def add(kind, **kw):
        out.append({"kind": kind, "seeds": list(seeds), **kw})

    for dx, dy in itertools.product((1, 2, 3), repeat=2):
        for salt in (1, 4):
            add("normal", dims=(dx, dy), salt=salt)
            add("student", dims=(dx, dy), salt=salt, df=(1, 2, 3.5, 8)[(dx + dy + salt) % 4])
    add("normal", dims=(6, 5), salt=2)
    add("student", dims=(6, 5), salt=2, df=3)
    add("student", dims=(1, 2), salt=2, df="inf")
    for r, sx, sy, mx, my in itertools.product((-0.8, 0.0, 0.95), (1.0, 3.0), (0.25,), (0.0, 2.0), (-5.0,)):
        add("binormal", args=(r, sx, sy, mx, my))
    for e in (0.05, 0.5, 0.75, 3.0):
        add("additive", eps=e)
    for m, d in itertools.product((1, 2, 5, 11), (True, False)):
        add("discrete", m=m, d=d)
    for p, d in itertools.product((0.0, 0.15, 0.5, 0.9), (True, False)):
        add("zip", p=p, d=d)
    add("multi", ns=[3, 5])
    add("concat")
    for dims in ((1, 1), (2, 1), (1, 3)):
        add("bmm-normal", dims=dims)
        add("bmm-student", dims=dims)
        for w in ((0.3, 0.7), (0.1, 0.6, 0.3), (1.0,)):
            add("mixture", dims=dims, w=w)
    # sizes beyond what is drawn at once
    for n in (65537, 140001):
        add("normal", dims=(1, 2), salt=1, n=n)
        add("student", dims=(1, 2), salt=1, df=3, n=n)
        add("binormal", args=(0.6, 1.0, 2.0, 0.5, -1.0), n=n)
        add("additive", eps=0.4, n=n)
        add("discrete", m=4, d=True, n=n)
        add("zip", p=0.1, d=True, n=n)
        add("zip", p=0.0, d=True, n=n)
        add("concat", n=n)
        add("mixture", dims=(1, 1), w=(0.3, 0.7), n=n)
        add("bmm-normal", dims=(1, 2), n=n)
    add("product")
    add("bmm-transform")
    return out


def run(case, rep):
    import jax

    for seed in case["seeds"]:
        for rng in (seed, jax.random.PRNGKey(seed + 1000)) if seed < 1 else (seed,):
            Law(case, rep, rng).check()
            rep.state()
            rep.trans()
        rep.trace()


class Law:
    def __init__(self, case, rep, rng):
        self.case, self.rep, self.rng = case, rep, rng

    def bad(self, what, msg):
        self.rep.fail(f"law:{self.case['kind']}:{what}", msg, rng=str(self.rng))

    def ks(self, values, cdf, what):
        import numpy as np

        v = np.sort(np.asarray(values, dtype=float).ravel())
        n = len(v)
        if n < 50:
            return
        f = np.asarray(cdf(v), dtype=float)
        d = max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n))
        if not d < 3.3 / math.sqrt(n):
            self.bad(what, f"distribution functions differ by {d:.4f} (n={n})")

    def freq(self, hits, p, what):
        n, k = len(hits), float(sum(hits))
        if not abs(k / n - p) < 6.2 * math.sqrt(max(p * (1 - p), 1e-12) / n) + 1e-9:
            self.bad(what, f"frequency {k / n:.5f}, probability {p:.5f}")

    def uncorrelated(self, a, b, what):
        import numpy as np

        r = float(np.corrcoef(np.asarray(a, float).ravel(), np.asarray(b, float).ravel())[0, 1])
        if not abs(r) < 6.2 / math.sqrt(len(a)):
            self.bad(what, f"correlation {r:.4f}")

    def draw(self, sampler):
        import numpy as np

        n = self.case.get("n", N)
        x, y = sampler.sample(n, self.rng)
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if len(x) != n or len(y) != n:
            self.bad("size", f"{len(x)}, {len(y)} points instead of {n}")
        # independent points do not repeat (X and Y have at least 23 random bits between them)
        rows = np.unique(np.hstack([x, y]), axis=0)
        if len(rows) < 0.97 * n:
            self.bad("repeated", f"only {len(rows)} of {n} points are different")
        return x, y

    # -- laws ----------------------------------------------------------------
    def white(self, z, what="white"):
        """Every row of z is standard normal."""
        import numpy as np
        from scipy import stats

        d = z.shape[1]
        for i in range(d):
            self.ks(z[:, i], stats.norm.cdf, f"{what}:coordinate")
            for j in range(i):
                self.uncorrelated(z[:, i], z[:, j], f"{what}:correlation")
        self.ks((z**2).sum(1), lambda v: stats.chi2.cdf(v, d), f"{what}:norm")
        # consecutive points are independent
        self.uncorrelated(z[:-1, 0], z[1:, 0], f"{what}:serial")

    def elliptical(self, z, df):
        """Rows of z are standard multivariate Student."""
        import numpy as np
        from scipy import stats

        n, d = z.shape
        r2 = (z**2).sum(1)
        u = z / np.sqrt(r2)[:, None]
        self.ks(r2 / d, lambda v: stats.f.cdf(v, d, df), "radius")
        for i in range(d):
            self.ks(z[:, i], lambda v: stats.t.cdf(v, df), "coordinate")
            if not abs(u[:, i].mean()) < 6.2 / math.sqrt(n * d):
                self.bad("direction", f"mean direction {u[:, i].mean()}")
            for j in range(i + 1):
                t = (u[:, i] * u[:, j]).mean() - (1.0 / d if i == j else 0.0)
                if not abs(t) < 6.2 * math.sqrt(3.0 / (d * (d + 2)) / n):
                    self.bad("direction", f"second moment of direction off by {t}")
        self.uncorrelated(u[:, 0], np.sign(r2 - np.median(r2)), "radius-direction")

    def check(self):
        import numpy as np
        from mc.samplers_ref import cov
        from scipy import stats

        import bmi.samplers as s
        from bmi.samplers import bmm

        c, kind = self.case, self.case["kind"]
        if kind in ("normal", "student", "bmm-normal", "bmm-student"):
            dx, dy = c["dims"]
            n = dx + dy
            sigma, mean = cov(n, c.get("salt", 3)), np.array([1.5 * i - 2 for i in range(n)])
            kw = dict(dim_x=dx, dim_y=dy, mean=mean)
            df = math.inf if c.get("df") == "inf" else c.get("df", 3)
            if kind == "normal":
                sampler = s.SplitMultinormal(covariance=sigma, **kw)
            elif kind == "student":
                sampler = s.SplitStudentT(dispersion=sigma, df=df, **kw)
            elif kind == "bmm-normal":
                sampler = bmm.BMMSampler(bmm.MultivariateNormalDistribution(covariance=sigma, **kw), mi=0.0)
            else:
                sampler = bmm.BMMSampler(bmm.MultivariateStudentDistribution(dispersion=sigma, df=df, **kw), mi=0.0)
            x, y = self.draw(sampler)
            z = np.linalg.solve(np.linalg.cholesky(sigma), (np.hstack([x, y]) - mean).T).T
            if kind.endswith("normal") or math.isinf(df):
                self.white(z)
            else:
                self.elliptical(z, df)
        elif kind == "binormal":
            r, sx, sy, mx, my = c["args"]
            x, y = self.draw(s.BivariateNormalSampler(correlation=r, std_x=sx, std_y=sy, mean_x=mx, mean_y=my))
            a, b = (x - mx) / sx, (y - my) / sy
            self.white(np.hstack([a, (b - r * a) / math.sqrt(1 - r * r)]))
        elif kind == "additive":
            e = c["eps"]
            x, y = self.draw(s.AdditiveUniformSampler(epsilon=e))
            self.additive(x, y, e)
        elif kind == "discrete":
            x, y = self.draw(s.DiscreteUniformMixtureSampler(n_discrete=c["m"], use_discrete_x=c["d"]))
            self.discrete(x, y, c["m"])
        elif kind == "multi":
            x, y = self.draw(s.MultivariateDiscreteUniformMixtureSampler(ns_discrete=c["ns"]))
            for i, m in enumerate(c["ns"]):
                self.discrete(x[:, [i]], y[:, [i]], m)
            self.uncorrelated(x[:, 0], x[:, 1], "blocks")
            self.uncorrelated((y - x)[:, 0], (y - x)[:, 1], "blocks")
        elif kind == "zip":
            x, y = self.draw(s.ZeroInflatedPoissonizationSampler(p=c["p"], use_discrete_y=c["d"]))
            self.zip(x, y, c["p"])
        elif kind == "concat":
            a, b = cov(3, 1), cov(2, 2)
            x, y = self.draw(s.IndependentConcatenationSampler([
                s.SplitMultinormal(dim_x=1, dim_y=2, covariance=a), s.AdditiveUniformSampler(0.3),
                s.SplitMultinormal(dim_x=1, dim_y=1, covariance=b), s.AdditiveUniformSampler(0.3)]))
            z1 = np.linalg.solve(np.linalg.cholesky(a), np.hstack([x[:, :1], y[:, :2]]).T).T
            z2 = np.linalg.solve(np.linalg.cholesky(b), np.hstack([x[:, 2:3], y[:, 3:4]]).T).T
            self.white(np.hstack([z1, z2]))
            for i, j in ((1, 2), (3, 4)):
                self.additive(x[:, [i]], y[:, [j]], 0.3)
            self.uncorrelated(x[:, 1], x[:, 3], "blocks")
            self.uncorrelated(x[:, 1], z1[:, 0], "blocks")
        elif kind == "mixture":
            dx, dy = c["dims"]
            n, w = dx + dy, c["w"]
            parts = [(np.array([(k + 1) * math.cos(2 * k + i) * 2 for i in range(n)]), cov(n, k + 1)) for k in range(len(w))]
            dist = bmm.mixture(np.array(w), [bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, mean=m, covariance=v) for m, v in parts])
            x, y = self.draw(bmm.BMMSampler(dist, mi=0.0))
            z = np.hstack([x, y])
            # a law on R^n is determined by its linear projections
            for v in self.directions(n):
                self.ks(z @ v, lambda t: sum(p * stats.norm.cdf(t, m @ v, math.sqrt(v @ q @ v)) for p, (m, q) in zip(w, parts)), "projection")
        elif kind == "product":
            normal = bmm.MultivariateNormalDistribution(dim_x=1, dim_y=2, covariance=cov(3, 1))
            dist = bmm.ProductDistribution(dist_x=normal.dist_y, dist_y=normal.dist_x)
            x, y = self.draw(bmm.BMMSampler(dist))
            q = cov(3, 1)
            self.white(np.hstack([np.linalg.solve(np.linalg.cholesky(q[1:, 1:]), x.T).T, y / math.sqrt(q[0, 0])]))
        elif kind == "bmm-transform":
            from tensorflow_probability.substrates import jax as tfp

            q = cov(3, 1)
            base = bmm.MultivariateNormalDistribution(dim_x=1, dim_y=2, covariance=q)
            dist = bmm.transform(base, x_transform=tfp.bijectors.Sinh(), y_transform=tfp.bijectors.Scale(-3.0))
            x, y = self.draw(bmm.BMMSampler(dist))
            self.white(np.linalg.solve(np.linalg.cholesky(q), np.hstack([np.arcsinh(x), y / -3.0]).T).T)
        else:
            raise AssertionError(kind)
        self.rep.outcome((kind, float(x.sum()), float(y.sum())))

    def directions(self, n):
        import numpy as np

        out = [np.eye(n)[i] for i in range(n)]
        for i, j in itertools.combinations(range(n), 2):
            for s in (1.0, -1.0, 2.0):
                out.append(np.eye(n)[i] + s * np.eye(n)[j])
        out.append(np.ones(n))
        return out

    def additive(self, x, y, e):
        import numpy as np

        self.ks(x, lambda v: np.clip(v, 0, 1), "x")
        self.ks(y - x, lambda v: np.clip((v + e) / (2 * e), 0, 1), "noise")
        self.uncorrelated(x, y - x, "independence")
        self.uncorrelated((x - 0.5) ** 2, (y - x) ** 2, "independence2")

    def discrete(self, x, y, m):
        import numpy as np

        if not set(np.unique(x)) <= set(range(m)):
            self.bad("support", f"{np.unique(x)}")
        for k in range(m):
            self.freq(x.ravel() == k, 1.0 / m, "frequency")
            self.ks((y - x)[x == k] , lambda v: np.clip(v / 2, 0, 1), "noise")
        if m > 1:
            self.uncorrelated(x, y - x, "independence")

    def zip(self, x, y, p):
        import numpy as np
        from scipy import stats

        self.ks(x, stats.expon.cdf, "x")
        if not np.array_equal(y, np.round(y)) or y.min() < 0:
            self.bad("support", f"{np.unique(y)[:10]}")
        x, y = x.ravel(), y.ravel()
        for k in range(7):
            self.freq(y == k, (1 - p) * 0.5 ** (k + 1) + (p if k == 0 else 0.0), f"frequency-{min(k, 1)}")
            if k:
                self.ks(x[y == k], lambda v: stats.gamma.cdf(v, k + 1, scale=0.5), "conditional")
        # given the rate, mean and variance of the counts - also where rates are large
        for lo in (0.0, 1.0, 3.0, 5.0, 7.0):
            r, c = x[x > lo], y[x > lo]
            if len(r) >= 30:
                m, v = (1 - p) * r, (1 - p) * r + p * (1 - p) * r**2
                t = (c - m).sum() / math.sqrt(v.sum())
                if not abs(t) < 6.2:
                    self.bad("mean", f"counts at rates above {lo} are {t:.1f} standard deviations off")
        z = p + (1 - p) / 2
        self.ks(x[y == 0], lambda v: (p * stats.expon.cdf(v) + (1 - p) / 2 * stats.expon.cdf(v, scale=0.5)) / z, "conditional-zero")
