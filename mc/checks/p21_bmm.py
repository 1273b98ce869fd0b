"""P21: Bend and Mix Models: densities, marginals, PMI and analytic MI of every bounded construction tree."""

import itertools
import math
import zlib

PROPERTY = "P21"
BOUNDS = {
    "quick": "construction trees of depth <=3 over 6 leaf distributions (normal, Student, product), dims (1,1),(2,1),(1,2),(2,3), "
    "mixtures of 1..3 parts with 7 weight vectors, 4 larger dims (up to 5+5) with one-sided maps, points out to 1000 times the scale, one part with 10 weights from 1e-2 to 0 at 3 places, 6x6 pairs of diffeomorphisms (12 of the 36 in two of the dims); 12 evaluation points each",
    "thorough": "more mixtures and every pair of transforms at depth 3",
}
ASSUMPTIONS = ["scipy's normal and Student densities; single precision: log-densities compared at 2e-3"]
DIMS = [(1, 1), (2, 1), (1, 2), (2, 3)]
LEAVES = ["normal", "normal-mean", "student-3", "student-8-mean", "product", "product-student"]
MAPS = ["none", "affine", "sinh", "sas", "tril", "flip"]
WEIGHTS = {1: [(1.0,)], 2: [(0.5, 0.5), (0.25, 0.75), (0.9, 0.1)], 3: [(0.2, 0.3, 0.5), (0.6, 0.1, 0.3), (0.1, 0.8, 0.1)]}


def cases(tier):
    out = []
    for d in (3, 0, 2, 1):
        out += [{"part": "leaf", "dims": d, "name": n} for n in LEAVES]
        for leaf in (LEAVES if tier == "thorough" else ("normal-mean", "student-3", "product")):
            out.append({"part": "bend", "dims": d, "leaf": leaf, "wide": tier == "thorough" or d in (0, 3)})
        for k in (2, 3):
            for w in range(3):
                out.append({"part": "mix", "dims": d, "k": k, "w": w, "wide": tier == "thorough"})
        out += [{"part": "deep", "dims": d, "wide": tier == "thorough", "first": m} for m in (MAPS if tier == "thorough" or d in (0, 3) else MAPS[1:4])]
    out += [{"part": "rare", "dims": d} for d in range(len(DIMS))]
    out += [{"part": "big", "size": d, "wide": tier == "thorough"} for d in ((4, 4), (5, 5), (1, 6), (7, 3))]
    out.append({"part": "refuse"})
    return out


# -- reference densities ------------------------------------------------------


class Ref:
    """log densities of (x, y), x and y; analytic MI or None."""

    def __init__(self, joint, lx, ly, mi):
        self.joint, self.x, self.y, self.mi = joint, lx, ly, mi


def spd(d, salt):
    import numpy as np

    a = np.array([[math.sin(1.3 * i + 2.9 * j + salt) for j in range(d)] for i in range(d)])
    return a @ a.T + np.diag([0.5 + 0.3 * i for i in range(d)])


def leaf(name, dx, dy, salt=0):
    import numpy as np
    from scipy import stats

    import bmi.samplers as bs
    from mc import samplers_ref

    fm = bs.bmm
    cn, cs = fm.construct_multivariate_normal_distribution, fm.construct_multivariate_student_distribution
    n = dx + dy
    cov = spd(n, salt)
    mean = np.array([0.4 * ((-1) ** i) * (i + 1) for i in range(n)]) if "mean" in name or name.startswith("product") else np.zeros(n)
    given = mean if "mean" in name else None
    if name.startswith("normal"):
        dist = fm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=cov, mean=given)
        pdf = lambda m, c: stats.multivariate_normal(m, c).logpdf
        mi = samplers_ref.gaussian_mi(cov, dx)
    elif name.startswith("student"):
        df = int(name.split("-")[1])
        dist = fm.MultivariateStudentDistribution(dim_x=dx, dim_y=dy, df=df, dispersion=cov, mean=given)
        pdf = lambda m, c: stats.multivariate_t(m, c, df=df).logpdf
        mi = samplers_ref.gaussian_mi(cov, dx) + samplers_ref.student_correction(df, dx, dy)
    else:
        cov = np.block([[cov[:dx, :dx], np.zeros((dx, dy))], [np.zeros((dy, dx)), cov[dx:, dx:]]])
        mi = 0.0
        import jax.numpy as jnp

        a = (jnp.asarray(mean[:dx]), jnp.asarray(cov[:dx, :dx]))
        b = (jnp.asarray(mean[dx:]), jnp.asarray(cov[dx:, dx:]))
        if name == "product":
            dist = fm.ProductDistribution(cn(*a), cn(*b))
            pdf = lambda m, c: stats.multivariate_normal(m, c).logpdf
        else:
            dist = fm.ProductDistribution(cs(*a, df=4), cn(*b))
            px, py = stats.multivariate_t(mean[:dx], cov[:dx, :dx], df=4).logpdf, stats.multivariate_normal(mean[dx:], cov[dx:, dx:]).logpdf
            return dist, Ref(lambda x, y: arr(px(x), x) + arr(py(y), y), lambda x: arr(px(x), x), lambda y: arr(py(y), y), 0.0)
    pj, px, py = pdf(mean, cov), pdf(mean[:dx], cov[:dx, :dx]), pdf(mean[dx:], cov[dx:, dx:])
    return dist, Ref(lambda x, y: arr(pj(np.hstack([x, y])), x), lambda x: arr(px(x), x), lambda y: arr(py(y), y), mi)


def arr(v, x):
    import numpy as np

    return np.broadcast_to(np.asarray(v, dtype=float).reshape(-1), (len(x),))


def bijector(name, d, side):
    """(tfp bijector, inverse on a batch, log |det d inverse|)."""
    import numpy as np
    from tensorflow_probability.substrates import jax as tfp

    tfb = tfp.bijectors
    s = 1.0 if side == "x" else 1.7
    zero = lambda v: np.zeros(len(v))
    if name == "none":
        return None, lambda v: v, zero
    if name == "affine":
        scale = np.array([s * (0.5 + i) * (-1) ** i for i in range(d)])
        shift = np.array([0.3 - i for i in range(d)])
        f = tfb.Chain([tfb.Shift(np.float32(shift)), tfb.Scale(np.float32(scale))])
        return f, lambda v: (v - shift) / scale, lambda v: zero(v) - np.log(np.abs(scale)).sum()
    if name == "sinh":
        return tfb.Sinh(), np.arcsinh, lambda v: -0.5 * np.log1p(v**2).sum(1)
    if name == "sas":
        sk, tw = (0.3, 1.4) if side == "x" else (-0.2, 0.8)
        # y = 2/sinh(arcsinh(2) tw) ... TFP: sinh((arcsinh(x) + skew) * tail) * 2 / sinh(arcsinh(2) * tail)
        c = 2 / math.sinh(math.asinh(2) * tw)

        def inv(v):
            return np.sinh(np.arcsinh(v / c) / tw - sk)

        def ld(v):
            u = np.arcsinh(v / c) / tw - sk
            return (np.log(np.cosh(u)) - math.log(tw) - 0.5 * np.log1p((v / c) ** 2) - math.log(c)).sum(1)

        return tfb.SinhArcsinh(skewness=sk, tailweight=tw), inv, ld
    if name == "tril":
        a = np.tril(np.array([[0.7 + 0.4 * i - 0.3 * j for j in range(d)] for i in range(d)])) + np.eye(d) * s
        f = tfb.ScaleMatvecTriL(np.float32(a))
        return f, lambda v: np.linalg.solve(a, v.T).T, lambda v: zero(v) - np.log(np.abs(np.linalg.det(a)))
    if name == "flip":
        if d == 1:
            return tfb.Scale(np.float32(-1.0)), lambda v: -v, zero
        return tfb.Permute(list(range(d))[::-1]), lambda v: v[:, ::-1], zero
    raise KeyError(name)


def bend(pair, mx, my):
    import bmi.samplers as bs

    fm = bs.bmm
    dist, ref = pair
    fx, ix, jx = bijector(mx, dist.dim_x, "x")
    fy, iy, jy = bijector(my, dist.dim_y, "y")
    kw = {}
    if fx is not None:
        kw["x_transform"] = fx
    if fy is not None:
        kw["y_transform"] = fy
    return fm.transform(dist, **kw), Ref(
        lambda x, y: ref.joint(ix(x), iy(y)) + jx(x) + jy(y),
        lambda x: ref.x(ix(x)) + jx(x),
        lambda y: ref.y(iy(y)) + jy(y),
        ref.mi,
    )


def mix(weights, pairs, form=0):
    import jax.numpy as jnp
    import numpy as np
    from scipy.special import logsumexp

    import bmi.samplers as bs

    w = {0: jnp.asarray, 1: np.asarray, 2: list, 3: tuple}[form % 4](weights)
    comps = [p[0] for p in pairs]
    comps = {0: list, 1: tuple}[form % 2](comps)
    lw = np.log(np.array(weights))[:, None]
    refs = [p[1] for p in pairs]
    return bs.bmm.mixture(w, comps), Ref(
        lambda x, y: logsumexp(lw + np.array([r.joint(x, y) for r in refs]), axis=0),
        lambda x: logsumexp(lw + np.array([r.x(x) for r in refs]), axis=0),
        lambda y: logsumexp(lw + np.array([r.y(y) for r in refs]), axis=0),
        None,
    )


def points(dx, dy):
    import numpy as np

    xy = np.array([[2.2 * math.sin(3.7 * k + 1.9 * i + 0.4) for i in range(dx + dy)] for k in range(12)])
    return xy[:, :dx], xy[:, dx:]


def check(rep, pair, dx, dy, what, known_mi=True):
    import jax
    import jax.numpy as jnp
    import numpy as np

    dist, ref = pair
    x, y = points(dx, dy)
    jx, jy = jnp.asarray(x), jnp.asarray(y)
    xy = jnp.concatenate([jx, jy], 1)
    rep.state()
    rep.trans(4)
    rep.trace()
    lj, lx, ly = ref.joint(x, y), ref.x(x), ref.y(y)
    t = dict(rtol=1e-3, atol=2e-3, what=what)
    rep.expect((dist.dim_x, dist.dim_y) == (dx, dy), "dims", f"{dist.dim_x},{dist.dim_y}", what=what)
    gx, gy = np.asarray(dist.dist_x.log_prob(jx)), np.asarray(dist.dist_y.log_prob(jy))
    rep.close("density:x", gx, lx, **t)
    rep.close("density:y", gy, ly, **t)
    pmi = np.asarray(dist.pmi(jx, jy), dtype=float)
    if zlib.crc32(repr(what).encode()) % 4 == 0:
        rep.close("density:joint", dist.dist_joint.log_prob(xy), lj, **t)
    rep.close("pmi", pmi, lj - lx - ly, rtol=1e-3, atol=4e-3, what=what)
    if known_mi:
        if ref.mi is None:
            rep.expect(dist.analytic_mi is None, "analytic-mi", f"{dist.analytic_mi} instead of None", what=what)
        else:
            rep.expect(dist.analytic_mi is not None, "analytic-mi", "None", what=what) and rep.close(
                "analytic-mi", float(dist.analytic_mi), ref.mi, rtol=1e-4, atol=1e-5, what=what)
    rep.outcome((what, round(float(pmi[3]), 2)))


def far(rep, pair, dx, dy, what):
    """Points deep in the tails: very small densities, PMI of either sign and of any size."""
    import jax.numpy as jnp
    import numpy as np

    dist, ref = pair
    x, y = points(dx, dy)
    for scale in (4.0, 12.0, 100.0, 1000.0):
        u, v = np.float32(scale * x).astype(float), np.float32(scale * y).astype(float)
        lj, lx, ly = ref.joint(u, v), ref.x(u), ref.y(v)
        size = np.abs(lj) + np.abs(lx) + np.abs(ly)
        for name, got, want in (
            ("x", dist.dist_x.log_prob(jnp.asarray(u)), lx), ("y", dist.dist_y.log_prob(jnp.asarray(v)), ly),
            ("pmi", dist.pmi(jnp.asarray(u), jnp.asarray(v)), lj - lx - ly),
        ):
            rep.trans()
            bad = np.abs(np.asarray(got, dtype=float) - want) > 1e-2 + 2e-3 * size
            rep.expect(not bad.any(), f"far:{name}", f"{np.asarray(got)[bad][:3]} != {want[bad][:3]}", what=what, scale=scale)


def part_leaf(case, rep):
    import jax
    import jax.numpy as jnp
    import numpy as np

    dx, dy = DIMS[case["dims"]]
    for name in (case["name"],):
        for salt in (0, 1):
            pair = leaf(name, dx, dy, salt)
            check(rep, pair, dx, dy, (name, salt))
            far(rep, pair, dx, dy, (name, salt))
        check(rep, mix((1.0,), [pair], case["dims"]), dx, dy, (name, salt, "single"), known_mi=False)
        dist = pair[0]
        x, y = map(jnp.asarray, points(dx, dy))
        whole = np.asarray(dist.pmi(x, y))
        for k in (0, 5, 11):
            rep.close("pmi:row", dist.pmi(x[k : k + 1], y[k : k + 1]), whole[k : k + 1], rtol=1e-4, atol=1e-4, what=name)
        perm = np.array([3, 1, 0, 2])
        rep.close("pmi:rows", dist.pmi(x[perm], y[perm]), whole[perm], rtol=1e-4, atol=1e-4, what=name)
        if name.startswith("product"):
            rep.close("product:pmi", whole, np.zeros(len(whole)), atol=2e-4)
        for n in (1, 2, 7):
            xs, ys = dist.sample(n, jax.random.PRNGKey(n))
            both = np.asarray(dist.dist_joint.sample(seed=jax.random.PRNGKey(n), sample_shape=(n,)))
            rep.trans()
            rep.expect(xs.shape == (n, dx) and ys.shape == (n, dy), "sample:shape", f"{xs.shape},{ys.shape}")
            rep.close("sample:split", np.hstack([xs, ys]), both)


def part_bend(case, rep):
    import jax.numpy as jnp
    import numpy as np

    dx, dy = DIMS[case["dims"]]
    base = leaf(case["leaf"], dx, dy, 1)
    x, y = points(dx, dy)
    base_pmi = np.asarray(base[0].pmi(jnp.asarray(x), jnp.asarray(y)), dtype=float)
    for i, j in itertools.product(range(len(MAPS)), repeat=2):
        mx, my = MAPS[i], MAPS[j]
        if not case["wide"] and (i + 2 * j) % 3:
            continue
        pair = bend(base, mx, my)
        check(rep, pair, dx, dy, (case["leaf"], mx, my))
        fx, _, _ = bijector(mx, dx, "x")
        fy, _, _ = bijector(my, dy, "y")
        u = jnp.asarray(x) if fx is None else fx.forward(jnp.asarray(x))
        v = jnp.asarray(y) if fy is None else fy.forward(jnp.asarray(y))
        # PMI is invariant
        rep.close("pmi:invariant", pair[0].pmi(u, v), base_pmi, rtol=1e-3, atol=5e-3, maps=(mx, my))
    rep.close("base-unchanged", base[0].pmi(jnp.asarray(x), jnp.asarray(y)), base_pmi)


def part_mix(case, rep):
    dx, dy = DIMS[case["dims"]]
    k = case["k"]
    w = WEIGHTS[k][case["w"]]
    pool = [leaf(n, dx, dy, s) for s, n in enumerate(LEAVES)]
    combos = list(itertools.permutations(range(len(pool)), k)) if case["wide"] else list(itertools.combinations(range(len(pool)), k)) + [(1, 0) + ((4,) if k == 3 else ())]
    for form, c in enumerate(combos):
        check(rep, mix(w, [pool[i] for i in c], form), dx, dy, (c, w))
    # equal parts: the mixture is the part
    check(rep, mix(w, [pool[1]] * k), dx, dy, ("same", w))


def part_big(case, rep):
    """More dimensions: maps of one side only, of both sides, and mixtures of the results."""
    dx, dy = case["size"]
    bases = [leaf(n, dx, dy, s) for s, n in enumerate(LEAVES if case["wide"] else ("normal-mean", "student-3"))]
    for base in bases:
        check(rep, base, dx, dy, "leaf")
        pairs = [(m, "none") for m in MAPS[1:]] + [("none", m) for m in MAPS[1:]] + [("sinh", "affine"), ("flip", "flip")]
        bent = [bend(base, *p) for p in pairs]
        for p, b in zip(pairs, bent):
            check(rep, b, dx, dy, p)
        check(rep, mix((0.3, 0.7), [bent[0], bent[6]]), dx, dy, "mix")
        check(rep, mix((0.3, 0.5, 0.2), [bent[2], base, bent[5]], 1), dx, dy, "mix-3")


def part_rare(case, rep):
    """Components of tiny (also zero) weight count with exactly that weight, where they dominate too."""
    import jax.numpy as jnp
    import numpy as np
    import bmi.samplers as bs
    from scipy.special import logsumexp
    from scipy import stats

    dx, dy = DIMS[case["dims"]]
    d = dx + dy
    big = np.eye(d) + 0.4 * (np.ones((d, d)) - np.eye(d))
    for w, place, spread in itertools.product((1e-2, 1e-3, 1e-4, 5e-5, 1e-5, 1e-6, 1e-7, 1e-10, 1e-20, 0.0), (0, 1, 2), (1.0, 0.2)):
        means = [np.zeros(d), np.full(d, 6.0) * (-1) ** np.arange(d), np.full(d, -7.0)]
        covs = [big, spread * np.eye(d), 0.5 * big]
        order = [0, 2]
        order.insert(place, 1)
        weights = {0: 0.25 - w, 1: w, 2: 0.75}
        mix_ = bs.bmm.mixture([weights[k] for k in order], [
            bs.bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, mean=means[k], covariance=covs[k]) for k in order])
        x = np.float32(np.concatenate([points(dx, dy)[0][:4] * 0.3 + means[k][:dx] for k in range(3)])).astype(float)
        y = np.float32(np.concatenate([points(dx, dy)[1][:4] * 0.3 + means[k][dx:] for k in range(3)])).astype(float)
        with np.errstate(divide="ignore"):
            lw = np.log(np.array([weights[k] for k in range(3)]))[:, None]

        def ref(v, sl):
            return logsumexp(lw + np.array([np.reshape(stats.multivariate_normal(m[sl], c[sl, sl]).logpdf(v), -1) for m, c in zip(means, covs)]), axis=0)

        lj, lx, ly = ref(np.hstack([x, y]), slice(0, d)), ref(x, slice(0, dx)), ref(y, slice(dx, d))
        jx, jy = jnp.asarray(x), jnp.asarray(y)
        rep.state()
        rep.trans(4)
        t = dict(rtol=1e-3, atol=4e-3, weight=w, place=place, dims=(dx, dy))
        rep.close("rare:joint", mix_.dist_joint.log_prob(jnp.hstack([jx, jy])), lj, **t)
        rep.close("rare:x", mix_.dist_x.log_prob(jx), lx, **t)
        rep.close("rare:y", mix_.dist_y.log_prob(jy), ly, **t)
        rep.close("rare:pmi", mix_.pmi(jx, jy), lj - lx - ly, **t)
        rep.outcome((w, place, round(float(lj[5]), 2)))
    rep.trace()


def part_deep(case, rep):
    dx, dy = DIMS[case["dims"]]
    a, b, c = leaf("normal-mean", dx, dy, 1), leaf("student-3", dx, dy, 2), leaf("product", dx, dy, 3)
    i = MAPS.index(case["first"])
    pairs = [(case["first"], m) for m in MAPS] if case["wide"] else [(MAPS[i], MAPS[(i + s) % 6]) for s in (1, 4)]
    for mx, my in pairs:
        bent = bend(a, mx, my)
        mixed = mix((0.3, 0.7), [bent, b], 1)
        check(rep, mixed, dx, dy, ("mix-of-bent", mx, my))
        check(rep, bend(mix((0.25, 0.75), [a, c]), mx, my), dx, dy, ("bend-of-mix", mx, my))
        check(rep, bend(bent, my, mx), dx, dy, ("bend-of-bend", mx, my))
        check(rep, mix((0.6, 0.4), [mix((0.1, 0.9), [b, c]), bent]), dx, dy, ("mix-of-mix", mx, my))
        check(rep, bend(mixed, my, mx), dx, dy, ("bend-mix-bend", mx, my))


def part_refuse(case, rep):
    import jax
    import numpy as np

    import bmi.samplers as bs

    fm = bs.bmm
    pool = {d: leaf("normal", *d)[0] for d in DIMS}
    for d, e in itertools.product(DIMS, repeat=2):
        rep.state()
        rep.trans()
        if d == e:
            rep.expect(fm.mixture([0.5, 0.5], [pool[d], pool[e]]).dim_x == d[0], "accept")
        else:
            rep.raises("mixture:dims", lambda: fm.mixture([0.5, 0.5], [pool[d], pool[e]]), (ValueError,), f"{d} with {e}")
    for k, m in itertools.product(range(1, 5), repeat=2):
        if k != m:
            rep.trans()
            rep.raises("mixture:number", lambda: fm.mixture([1 / k] * k, [pool[1, 1]] * m), (ValueError,), f"{k} weights, {m} parts")
    for n in (0, -1):
        rep.raises("sample:n", lambda: pool[1, 1].sample(n, jax.random.PRNGKey(0)), (ValueError,), f"n={n}")
    for cls, name in ((fm.MultivariateNormalDistribution, "covariance"), (fm.MultivariateStudentDistribution, "dispersion")):
        extra = {"df": 3} if name == "dispersion" else {}
        for bad in (np.eye(3), np.array([[1, 2], [2, 1.0]]), np.array([[1, 0.5], [0.1, 1.0]]), np.ones(2), np.array([[-1.0, 0], [0, 1]])):
            rep.trans()
            rep.raises(f"refuse:{name}", lambda: cls(dim_x=1, dim_y=1, **{name: bad}, **extra), (Exception,), f"{bad.tolist()}")
        rep.raises("refuse:mean", lambda: cls(dim_x=1, dim_y=1, mean=np.zeros(3), **{name: np.eye(2)}, **extra), (Exception,), "mean of length 3")
    rep.outcome("refused")


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
