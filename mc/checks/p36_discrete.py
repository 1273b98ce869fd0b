"""P36: Bend and Mix Models with discrete parts: exact tables, conditional laws and mutual information."""

import itertools
import math

PROPERTY = "P36"
BOUNDS = {
    "quick": "mixtures of 1..4 products of Bernoulli vectors (1..3 + 1..2 bits, probabilities from a grid including 0 and 1, 8 weight vectors, equal and "
    "nested mixtures): every cell of the table; discrete side (Bernoulli, Poisson, geometric, 1 or 2 coordinates; left or right) x continuous side (normal, "
    "Student, 1 or 2 dimensions, 3 maps of it) x 2..3 parts: every point of a grid; wrapped, transformed and concatenated samplers of all of them",
    "thorough": "more probabilities, weights and parts; larger samples",
}
ASSUMPTIONS = ["the probabilities of TFP's Bernoulli, Poisson and geometric distributions; single precision: log-probabilities compared at 2e-3"]
GRID = [(0.05, 0.3, 0.9, 0.5, 0.75), (0.95, 0.6, 0.2, 0.5, 0.1), (0.5, 0.5, 0.5, 0.5, 0.5), (0.0, 0.25, 1.0, 0.7, 0.0), (1.0, 0.85, 0.0, 0.4, 1.0)]
WEIGHTS = {1: [(1.0,)], 2: [(0.5, 0.5), (0.875, 0.125), (0.999, 0.001)], 3: [(0.25, 0.5, 0.25), (0.01, 0.29, 0.7)], 4: [(0.25,) * 4, (0.55, 0.05, 0.1, 0.3)]}


def cases(tier):
    deep = tier == "thorough"
    out = []
    for a, b in itertools.product((1, 2, 3), (1, 2)):
        for k in (1, 2, 3, 4):
            out.append({"part": "table", "bits": (a, b), "k": k, "deep": deep})
    for cont, disc in itertools.product(("normal", "student"), ("bernoulli", "poisson", "geometric")):
        for left in (True, False):
            for dims in ((1, 1), (2, 1), (1, 2)) if tier == "thorough" else ((2, 1), (1, 2)) if left else ((1, 1),):
                out.append({"part": "mixed", "cont": cont, "disc": disc, "left": left, "dims": dims, "deep": deep})
    out += [{"part": "labels", "k": k} for k in (2, 3, 4, 8)]
    out.append({"part": "wrapped"})
    return out


def run(case, rep):
    import warnings

    warnings.simplefilter("ignore")
    globals()["part_" + case["part"]](case, rep)


def bernoulli(ps):
    import jax.numpy as jnp
    from tensorflow_probability.substrates import jax as tfp

    return tfp.distributions.Independent(tfp.distributions.Bernoulli(probs=jnp.asarray(ps, dtype=jnp.float32), dtype=jnp.float32), reinterpreted_batch_ndims=1)


def log_bits(ps, v):
    """Log-probability of rows of bits."""
    import numpy as np

    ps, v = np.asarray(ps, float), np.asarray(v, float)
    with np.errstate(divide="ignore"):
        return np.log(np.prod(np.where(v == 1, ps, 1 - ps), axis=1))


def close(rep, key, got, want, atol=2e-3, **d):
    """Like rep.close, with infinities where they belong."""
    import numpy as np

    got, want = np.asarray(got, float).ravel(), np.asarray(want, float).ravel()
    inf = np.isinf(want)
    rep.expect(got.shape == want.shape and np.array_equal(got[inf], want[inf]) and bool(np.all(np.abs(got[~inf] - want[~inf]) <= atol + 1e-3 * np.abs(want[~inf]))),
               key, f"{got[:6]} instead of {want[:6]}", **d)


def table(parts, w, a, b):
    """Exact joint, x and y log-probabilities of every cell, and the cells."""
    import numpy as np
    from scipy.special import logsumexp

    xs = np.array(list(itertools.product((0, 1), repeat=a)), float)
    ys = np.array(list(itertools.product((0, 1), repeat=b)), float)
    with np.errstate(divide="ignore"):
        lw = np.log(np.asarray(w, float))[:, None]
    px = logsumexp(lw + [log_bits(p, xs) for p, _ in parts], axis=0)
    py = logsumexp(lw + [log_bits(q, ys) for _, q in parts], axis=0)
    pxy = logsumexp(lw[:, :, None] + [log_bits(p, xs)[:, None] + log_bits(q, ys)[None] for p, q in parts], axis=0)
    return xs, ys, px, py, pxy


def part_table(case, rep):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from bmi.samplers import bmm

    (a, b), k = case["bits"], case["k"]
    choices = list(itertools.permutations(range(5), min(k, 5)))
    choices = choices[:: max(1, len(choices) // (20 if case["deep"] else 2))] + [(3, 4, 1, 3)[:k], (0,) * k]
    n = 20000 if case["deep"] else 1000
    for pick, w in itertools.product(choices, WEIGHTS[k]):
        parts = [(GRID[i][:a], GRID[i][::-1][:b]) for i in pick]
        products = [bmm.ProductDistribution(bernoulli(p), bernoulli(q)) for p, q in parts]
        dist = bmm.mixture(list(w), products) if k > 1 else products[0]
        models = [("flat", dist)]
        if k == 3:  # the same, as a mixture of mixtures
            inner = bmm.mixture([w[0] / (w[0] + w[1]), w[1] / (w[0] + w[1])], products[:2])
            models.append(("nested", bmm.mixture([w[0] + w[1], w[2]], [inner, products[2]])))
        if k == 4:
            pairs = [bmm.mixture([w[i] / (w[i] + w[i + 1]), w[i + 1] / (w[i] + w[i + 1])], products[i : i + 2]) for i in (0, 2)]
            models.append(("two by two", bmm.mixture([w[0] + w[1], w[2] + w[3]], pairs)))
        xs, ys, px, py, pxy = table(parts, w, a, b)
        pairs = np.array(list(itertools.product(range(len(xs)), range(len(ys)))))
        gx, gy = xs[pairs[:, 0]], ys[pairs[:, 1]]
        possible = np.isfinite(pxy).ravel()
        p = np.exp(pxy).ravel()
        with np.errstate(invalid="ignore"):
            pmi = (pxy - px[:, None] - py[None]).ravel()
        mi = float((p * np.where(possible, pmi, 0)).sum())
        var = float((p * (np.where(possible, pmi, 0) - mi) ** 2).sum())
        for name, m in models:
            d = dict(model=name, parts=pick, weights=w, bits=(a, b))
            rep.state()
            rep.trans(6)
            rep.expect((m.dim_x, m.dim_y) == (a, b), "dims", f"{m.dim_x}, {m.dim_y}", **d)
            close(rep, "table:x", m.dist_x.log_prob(jnp.asarray(xs)), px, **d)
            close(rep, "table:y", m.dist_y.log_prob(jnp.asarray(ys)), py, **d)
            close(rep, "table:joint", m.dist_joint.log_prob(jnp.asarray(np.hstack([gx, gy]))), pxy, **d)
            close(rep, "table:pmi", m.pmi(jnp.asarray(gx[possible]), jnp.asarray(gy[possible])), pmi[possible], atol=4e-3, **d)
            never = np.isneginf(pxy).ravel() & np.isfinite(px)[pairs[:, 0]] & np.isfinite(py)[pairs[:, 1]]
            if never.any():
                close(rep, "table:never-together", m.pmi(jnp.asarray(gx[never]), jnp.asarray(gy[never])), pmi[never], **d)
            if k == 1:
                rep.expect(m.analytic_mi == 0, "table:independent", f"{m.analytic_mi}", **d)
            else:
                rep.expect(m.analytic_mi is None, "table:analytic", f"{m.analytic_mi}", **d)
            # what is drawn: only possible cells, each as often as it should
            key = jax.random.PRNGKey(len(pick) * 7 + a)
            x, y = (np.asarray(v) for v in m.sample(n, key))
            rep.expect(x.shape == (n, a) and y.shape == (n, b) and set(np.unique(np.hstack([x, y]))) <= {0.0, 1.0}, "sample:support", f"{x.shape}, {y.shape}", **d)
            code = np.hstack([x, y]).astype(int) @ (1 << np.arange(a + b)[::-1])
            counts = np.bincount(code, minlength=1 << (a + b))
            rep.expect(not counts[p == 0].any(), "sample:impossible", f"{counts[p == 0]}", **d)
            off = np.abs(counts - n * p) - 6.5 * np.sqrt(n * p * (1 - p)) - 8
            rep.expect((off <= 0).all(), "sample:frequencies", f"{counts[off > 0]} instead of {n * p[off > 0]}", **d)
            # the profile consists of the values of the table
            prof = np.asarray(bmm.pmi_profile(key, m, n), float)
            close(rep, "profile", prof, pmi[code], atol=4e-3, **d)
            est, se = (float(v) for v in bmm.monte_carlo_mi_estimate(key, m, n))
            rep.close("montecarlo", est, float(prof.mean()), rtol=1e-3, atol=1e-4, **d)
            rep.expect(abs(est - mi) <= 6.5 * math.sqrt(var / n) + 1e-3 + 8 * np.abs(pmi[possible]).max() / n, "montecarlo:exact", f"{est} instead of {mi}", **d)
            rep.close("montecarlo:error", se, float(prof.std() / math.sqrt(n)), rtol=2e-2, atol=1e-5, **d)
            s = bmm.BMMSampler(m, mi_estimate_sample=n, mi_estimate_seed=key)
            rep.close("wrapped:mi", float(s.mutual_information()), max(est, 0.0), rtol=1e-5, atol=1e-6, **d)
            rep.outcome((pick, w, name, round(mi, 4)))
        rep.trace()


MEANS = [(-1.0, 0.5), (0.0, -2.0), (3.0, 1.0)]
LAWS = {  # TFP class, argument, parameters of the parts, log pmf, support
    "bernoulli": ("probs", [0.9, 0.35, 0.05], 2),
    "poisson": ("rate", [0.5, 3.0, 1.0], 9),
    "geometric": ("probs", [0.5, 0.2, 0.8], 9),
}


def discrete(kind, i, d):
    import jax.numpy as jnp
    from scipy import stats
    from tensorflow_probability.substrates import jax as tfp

    arg, values, top = LAWS[kind]
    ps = [values[(i + j) % 3] for j in range(d)]
    cls = getattr(tfp.distributions, kind.capitalize())
    kw = {"dtype": jnp.float32} if kind == "bernoulli" else {}
    dist = tfp.distributions.Independent(cls(**{arg: jnp.asarray(ps, dtype=jnp.float32)}, **kw), reinterpreted_batch_ndims=1)
    ref = {"bernoulli": lambda v, p: stats.bernoulli.logpmf(v, p), "poisson": lambda v, p: stats.poisson.logpmf(v, p),
           "geometric": lambda v, p: stats.geom.logpmf(v + 1, p)}[kind]
    return dist, lambda v: sum(ref(v[:, j], ps[j]) for j in range(d)), top


def continuous(kind, i, d):
    import jax.numpy as jnp
    import numpy as np
    from bmi.samplers import bmm
    from scipy import stats

    mean = np.array(MEANS[i][:d])
    cov = np.eye(d) * (0.3 + 0.4 * i) + 0.2 * (np.ones((d, d)) - np.eye(d)) * (-1) ** i
    if kind == "normal":
        return bmm.construct_multivariate_normal_distribution(mean=jnp.asarray(mean), covariance=jnp.asarray(cov)), stats.multivariate_normal(mean, cov).logpdf
    return (bmm.construct_multivariate_student_distribution(mean=jnp.asarray(mean), dispersion=jnp.asarray(cov), df=5 + i),
            stats.multivariate_t(mean, cov, df=5 + i).logpdf)


def part_mixed(case, rep):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from bmi.samplers import bmm
    from scipy.special import logsumexp
    from tensorflow_probability.substrates import jax as tfp

    dc, dd = case["dims"]
    left = case["left"]  # the discrete side is X
    maps = {"none": (None, lambda v: v, 0.0), "affine": (tfp.bijectors.Chain([tfp.bijectors.Shift(1.0), tfp.bijectors.Scale(-2.0)]), lambda v: 1 - 2 * v, math.log(2) * dc),
            "sinh": (tfp.bijectors.Sinh(), np.sinh, None)}
    pts = np.array([[2.5 * math.sin(1.3 * i + 2.1 * j) for j in range(dc)] for i in range(7)])
    n = 20000 if case["deep"] else 1500
    for parts, w in (((0, 1), (0.3, 0.7)), ((2, 0, 1), (0.25, 0.5, 0.25)), ((1, 1), (0.5, 0.5)), ((0, 2), (0.999, 0.001)))[: None if case["deep"] else 2]:
        cs, ds = [continuous(case["cont"], i, dc) for i in parts], [discrete(case["disc"], i, dd) for i in parts]
        top = ds[0][2]
        values = np.array(list(itertools.product(range(top), repeat=dd)), float)
        if len(values) > 20:
            values = values[::4]
        cells = list(itertools.product(range(len(pts)), range(len(values))))
        c, v = pts[[i for i, _ in cells]], values[[j for _, j in cells]]
        lw = np.log(np.asarray(w))[:, None]
        row = lambda r: np.reshape(r, -1)  # noqa: E731
        lc = logsumexp(lw + [row(f(c)) for _, f in cs], axis=0)
        ld = logsumexp(lw + [row(f(v)) for _, f, _ in ds], axis=0)
        lj = logsumexp(lw + [row(f(c)) + row(g(v)) for (_, f), (_, g, _) in zip(cs, ds)], axis=0)
        products = [bmm.ProductDistribution(*((x[0], y[0]) if left else (y[0], x[0]))) for x, y in zip(ds, cs)]
        base = bmm.mixture(jnp.asarray(w), products)
        for name, (bij, fwd, ld_map) in maps.items():
            # before mixing, or after
            kw = {} if bij is None else {("y_transform" if left else "x_transform"): bij}
            for how in ("parts", "whole"):
                if bij is None and how == "whole":
                    continue
                m = bmm.transform(base, **kw) if how == "whole" else (bmm.mixture(list(w), [bmm.transform(q, **kw) for q in products]) if bij is not None else base)
                fc = fwd(c)
                jac = np.log(np.cosh(c)).sum(1) if ld_map is None else ld_map
                x, y = (v, fc) if left else (fc, v)
                d = dict(parts=parts, weights=w, map=name, how=how, cont=case["cont"], disc=case["disc"], left=left)
                rep.state()
                rep.trans(5)
                rep.expect((m.dim_x, m.dim_y) == ((dd, dc) if left else (dc, dd)), "mixed:dims", f"{m.dim_x}, {m.dim_y}", **d)
                jx, jy = jnp.asarray(x), jnp.asarray(y)
                gc, gd = (m.dist_y.log_prob(jy), m.dist_x.log_prob(jx)) if left else (m.dist_x.log_prob(jx), m.dist_y.log_prob(jy))
                close(rep, "mixed:continuous", gc, lc - jac, atol=5e-3, **d)
                close(rep, "mixed:discrete", gd, ld, atol=3e-3, **d)
                close(rep, "mixed:joint", m.dist_joint.log_prob(jnp.hstack([jx, jy])), lj - jac, atol=6e-3, **d)
                close(rep, "mixed:pmi", m.pmi(jx, jy), lj - lc - ld, atol=1e-2, **d)
                rep.expect(m.analytic_mi is None, "mixed:analytic", f"{m.analytic_mi}", **d)
                if how == "whole" and not case["deep"]:
                    continue
                sx, sy = (np.asarray(u, float) for u in m.sample(n, jax.random.PRNGKey(3)))
                sd, sc = (sx, sy) if left else (sy, sx)
                rep.expect(sd.shape == (n, dd) and sc.shape == (n, dc) and np.array_equal(sd, np.round(sd)) and sd.min() >= 0, "mixed:support", f"{sd.shape}", **d)
                # joint frequencies: value of the first discrete coordinate x the first continuous one above or below every grid point
                for j, t in itertools.product(range(min(top, 3)), (-1.0, 0.0, 1.5)):
                    hit = (sd[:, 0] == j) & (sc[:, 0] * (-1 if name == "affine" else 1) <= (-1 if name == "affine" else 1) * fwd(np.full((1, dc), t))[0, 0])
                    want = sum(wk * math.exp(one_d(case["disc"], i, j)) * below(case["cont"], i, t) for wk, i in zip(w, parts))
                    rep.expect(abs(hit.sum() - n * want) <= 6.5 * math.sqrt(n * want * (1 - want)) + 8, "mixed:frequencies",
                               f"{hit.sum()} instead of {n * want:.1f} with value {j} below {t}", **d)
                prof = np.asarray(bmm.pmi_profile(jax.random.PRNGKey(3), m, n), float)
                close(rep, "mixed:profile", prof, np.asarray(m.pmi(jnp.asarray(sx), jnp.asarray(sy))), atol=1e-3, **d)
                rep.outcome((parts, name, how, round(float(prof.mean()), 3)))
        rep.trace()


def one_d(kind, i, j):
    import numpy as np

    return float(discrete(kind, i, 1)[1](np.array([[float(j)]]))[0])


def below(kind, i, t):
    from scipy import stats

    s = math.sqrt(0.3 + 0.4 * i)
    z = (t - MEANS[i][0]) / s
    return float(stats.norm.cdf(z) if kind == "normal" else stats.t.cdf(z, 5 + i))


def part_labels(case, rep):
    """Parts that can be told apart: the information is the entropy of the weights, up to log K."""
    import jax
    import numpy as np
    from bmi.samplers import bmm

    k = case["k"]
    bits = max(1, (k - 1).bit_length())
    for w in ([1 / k] * k, [2.0 ** -(i + 1) for i in range(k - 1)] + [2.0 ** -(k - 1)]):
        words = [tuple((i >> j) & 1 for j in range(bits)) for i in range(k)]
        m = bmm.mixture(w, [bmm.ProductDistribution(bernoulli([float(v) for v in u]), bernoulli([1.0 - v for v in u])) for u in words])
        n = 4000
        prof = np.asarray(bmm.pmi_profile(jax.random.PRNGKey(k), m, n), float)
        h = -sum(p * math.log(p) for p in w)
        allowed = -np.log(w)
        rep.state()
        rep.trans(2)
        rep.expect(np.abs(prof[:, None] - allowed[None]).min(1).max() < 2e-3, "labels:profile", f"{prof[:5]}", k=k, weights=w)
        sd = math.sqrt(sum(p * (math.log(p) + h) ** 2 for p in w) / n)
        rep.expect(abs(prof.mean() - h) < 6.5 * sd + 2e-3, "labels:entropy", f"{prof.mean()} instead of {h}", k=k, weights=w)
        x, y = (np.asarray(v) for v in m.sample(n, jax.random.PRNGKey(k)))
        rep.expect(np.array_equal(x + y, np.ones_like(x)), "labels:paired", "", k=k)
        rep.outcome((k, tuple(w)))
    rep.trace()


def part_wrapped(case, rep):
    """Samplers made from such models: transformed, concatenated, written to a file and read back."""
    import tempfile

    import jax.numpy as jnp
    import numpy as np
    from bmi.samplers import BivariateNormalSampler, IndependentConcatenationSampler, TransformedSampler, bmm
    from bmi.utils import read_sample, save_sample

    dist = bmm.mixture([0.25, 0.75], [bmm.ProductDistribution(continuous("normal", i, 2)[0], discrete("bernoulli", i, 1)[0]) for i in (0, 1)])
    s = bmm.BMMSampler(dist, mi_estimate_sample=2000)
    mi = float(s.mutual_information())
    for n, seed in itertools.product((1, 5, 200), (0, 7)):
        x, y = (np.asarray(v) for v in s.sample(n, seed))
        rep.state()
        rep.trans(4)
        rep.expect(x.shape == (n, 2) and y.shape == (n, 1) and set(np.unique(y)) <= {0.0, 1.0}, "wrapped:shape", f"{x.shape}, {y.shape}")
        t = TransformedSampler(s, transform_x=lambda v: v**3, transform_y=lambda v: 5 - 2 * v)
        a, b = (np.asarray(v) for v in t.sample(n, seed))
        rep.close("wrapped:transformed", a, x**3, rtol=1e-5, atol=1e-6)
        rep.close("wrapped:transformed-y", b, 5 - 2 * y)
        rep.expect(float(t.mutual_information()) == mi, "wrapped:mi", f"{t.mutual_information()} instead of {mi}")
        two = IndependentConcatenationSampler([s, BivariateNormalSampler(0.5)])
        a, b = two.sample(n, seed)
        rep.expect(a.shape == (n, 3) and b.shape == (n, 2) and set(np.unique(np.asarray(b)[:, 0])) <= {0.0, 1.0}, "wrapped:concatenated", f"{a.shape}, {b.shape}")
        rep.close("wrapped:sum", float(two.mutual_information()), mi - 0.5 * math.log(0.75), rtol=1e-5)
        with tempfile.TemporaryDirectory(prefix="mc-p36-") as tmp:
            save_sample(tmp + "/s.csv", x, y)
            u, v = read_sample(tmp + "/s.csv")
            rep.expect(np.array_equal(np.float32(u), x) and np.array_equal(np.asarray(v, float), y), "wrapped:file", "")
        rep.outcome((n, seed))
    rep.trace()
