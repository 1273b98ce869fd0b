"""P17: descriptions that are not distributions are refused at construction, and every valid one is accepted."""

import itertools
import math

PROPERTY = "P17"
BOUNDS = {
    "quick": "every 2x2 and 3x3 matrix over a 5-value grid and 1458 4x4 ones, embedded in each (dim_x, dim_y) split (oracle: exact symmetric positive "
    "definiteness in rationals); all mean/covariance shapes up to 5; boundary grids of every scalar parameter",
    "thorough": "3x3 matrices over a 6-value grid",
}
ASSUMPTIONS = ["matrices within rounding of singular or of symmetric are not judged"]


def cases(tier):
    grid = [-1.0, 0.0, 0.5, 1.0, 2.0] + ([0.25] if tier == "thorough" else [])
    out = [{"part": "matrix2", "grid": [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0]}]
    out += [{"part": "matrix3", "grid": grid, "diag": d} for d in itertools.product([0.0, 0.5, 1.0, 2.0, -1.0], repeat=3)]
    out += [{"part": "matrix4", "diag": d, "first": f} for d in ((1.0, 1.0, 1.0, 1.0), (1.0, 2.0, 0.5, 2.0)) for f in (0.0, 0.75, -1.5)]
    out += [{"part": p} for p in ("shapes", "scalars", "tolerance", "scaled", "mixtures", "transforms", "lvm")]
    return out


def positive_definite(m):
    """Sylvester's criterion, exactly."""
    from fractions import Fraction

    n = len(m)
    a = [[Fraction(v) for v in row] for row in m]
    if any(a[i][j] != a[j][i] for i in range(n) for j in range(i)):
        return None

    def det(b):
        if len(b) == 1:
            return b[0][0]
        return sum((-1) ** j * b[0][j] * det([r[:j] + r[j + 1:] for r in b[1:]]) for j in range(len(b)))

    ds = [det([r[: k + 1] for r in a[: k + 1]]) for k in range(n)]
    if all(d > 0 for d in ds):
        return True
    return False if not (all(d >= 0 for d in ds)) else "singular"


def constructors(n):
    import bmi.samplers as s
    from bmi.samplers import bmm

    for dx in range(1, n):
        yield f"normal-{dx}", lambda m, dx=dx: s.SplitMultinormal(dim_x=dx, dim_y=n - dx, covariance=m)
        yield f"student-{dx}", lambda m, dx=dx: s.SplitStudentT(dim_x=dx, dim_y=n - dx, dispersion=m, df=3)
    yield "bmm-normal", lambda m: bmm.MultivariateNormalDistribution(dim_x=1, dim_y=n - 1, covariance=m)
    yield "bmm-student", lambda m: bmm.MultivariateStudentDistribution(dim_x=1, dim_y=n - 1, dispersion=m, df=3)


def judge(rep, m, only_bad_bmm=True):
    import numpy as np

    n = len(m)
    verdict = positive_definite(m)
    rep.state()
    if verdict == "singular":
        return
    for name, build in constructors(n):
        if name.startswith("bmm") and verdict is True:
            continue  # accepted ones are covered by the laws and densities
        rep.trans()
        if verdict is True:
            try:
                build(np.array(m))
            except Exception as e:
                rep.fail(f"refused:{name.split('-')[0]}", f"{type(e).__name__}: {e}", matrix=m, how=name)
        else:
            what = "asymmetric" if verdict is None else "indefinite"
            rep.raises(f"accepted:{what}:{name.rsplit('-', 1)[0]}", lambda: build(np.array(m)), (ValueError,), matrix=m, how=name)
    rep.outcome((verdict, n))


def run(case, rep):
    import numpy as np

    part = case["part"]
    if part == "matrix2":
        for a, b, c, d in itertools.product(case["grid"], repeat=4):
            judge(rep, [[a, b], [c, d]])
    elif part == "matrix3":
        d, g = case["diag"], case["grid"]
        for up in itertools.product(g, repeat=3):
            m = [[d[0], up[0], up[1]], [up[0], d[1], up[2]], [up[1], up[2], d[2]]]
            judge(rep, m)
            # one entry at a time differs from its mirror image
            if positive_definite(m) is True:
                for i, j in ((0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)):
                    for delta in (0.25, -0.125):
                        q = [list(r) for r in m]
                        q[i][j] += delta
                        judge(rep, q)
    elif part == "matrix4":
        # an even number of negative eigenvalues is possible here: the determinant alone does not tell
        d = case["diag"]
        pos = list(itertools.combinations(range(4), 2))
        for up in itertools.product((0.0, 0.75, -1.5), repeat=5):
            m = [[d[i] if i == j else 0.0 for j in range(4)] for i in range(4)]
            for (i, j), v in zip(pos, (case["first"],) + up):
                m[i][j] = m[j][i] = v
            judge(rep, m)
    else:
        globals()[part](rep)
    rep.trace()


def tolerance(rep):
    """Rounding is not asymmetry; real asymmetry is, at every scale."""
    import numpy as np
    import bmi.samplers as s
    from mc.samplers_ref import cov

    for n in (2, 3, 6, 15):
        for scale in (1e-9, 1e-4, 1.0, 1e5):
            c = cov(n, 1) * scale
            for m in (c.astype(np.float32), (c * (1 + 1e-14 * np.arange(n * n).reshape(n, n))), np.linalg.inv(np.linalg.inv(c))):
                rep.state()
                rep.trans()
                try:
                    s.SplitMultinormal(dim_x=1, dim_y=n - 1, covariance=m)
                except Exception as e:
                    rep.fail("refused:rounding", f"{type(e).__name__}: {e}", n=n, scale=scale)
            for rel in (0.3, 0.02):
                m = c.copy()
                m[0, n - 1] += rel * scale
                rep.trans()
                rep.raises("accepted:asymmetric:scaled", lambda: s.SplitMultinormal(dim_x=1, dim_y=n - 1, covariance=m), (ValueError,), scale=scale, n=n)


def scaled(rep):
    """What is refused or accepted does not depend on the units: indefinite matrices (also by a little) and
    positive definite ones, in units from 1e-12 to 1e6, one common or mixed."""
    import numpy as np
    from mc.samplers_ref import cov

    for n in (2, 3, 5):
        c = cov(n, 1)
        val, vec = np.linalg.eigh(c)
        for k, low in itertools.product(range(n), (-0.5, -0.01)):
            w = val.copy()
            w[k] = low
            bad = vec @ np.diag(w) @ vec.T
            bad = (bad + bad.T) / 2
            for scale in (1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6):
                for name, build in constructors(n):
                    rep.state()
                    rep.trans()
                    rep.raises("accepted:indefinite:scaled", lambda: build(bad * scale), (ValueError,), n=n, low=low, scale=scale, how=name)
        for units in itertools.product((1e-6, 1e-3, 1.0, 1e3), repeat=2):
            if not 1e-6 <= units[0] / units[1] <= 1e6:
                continue  # beyond what double precision can tell from singular
            u = np.array([units[0]] + [units[1]] * (n - 1))
            good = c * np.outer(u, u)
            for name, build in constructors(n):
                if name.startswith("bmm"):
                    continue
                rep.state()
                rep.trans()
                try:
                    build(good)
                except Exception as e:
                    rep.fail("refused:units", f"{type(e).__name__}: {e}", n=n, units=units, how=name)


def shapes(rep):
    import numpy as np
    import bmi.samplers as s
    from bmi.samplers import bmm

    for dx, dy in itertools.product((-1, 0, 1, 2, 3), repeat=2):
        for rows, cols in itertools.product(range(1, 6), repeat=2):
            for mean in (None, 1, 2, 3, 4, 5):
                n = dx + dy
                ok = dx >= 1 and dy >= 1 and rows == cols == n and mean in (None, n)
                m = np.eye(rows, cols)
                mu = None if mean is None else np.zeros(mean)
                for name, build in (
                    ("normal", lambda: s.SplitMultinormal(dim_x=dx, dim_y=dy, covariance=m, mean=mu)),
                    ("student", lambda: s.SplitStudentT(dim_x=dx, dim_y=dy, dispersion=m, mean=mu, df=2)),
                ):
                    rep.state()
                    rep.trans()
                    if ok:
                        build()
                    else:
                        rep.raises(f"accepted:shape:{name}", build, (ValueError,), dims=(dx, dy), cov=(rows, cols), mean=mean)
                if not ok and dx >= 1 and dy >= 1 and (mean is None or mean == n) and rows <= 3:
                    rep.raises("accepted:shape:bmm", lambda: bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=m, mean=mu),
                               (ValueError,), dims=(dx, dy), cov=(rows, cols))
    for bad in (np.zeros((2, 1)), np.zeros((1, 2)), 0.0):
        rep.raises("accepted:mean-shape", lambda: s.SplitMultinormal(dim_x=1, dim_y=1, covariance=np.eye(2), mean=bad), (ValueError,), mean=bad)
    for bad in (np.eye(2).ravel(), np.eye(2)[None], 1.0):
        rep.raises("accepted:cov-shape", lambda: s.SplitMultinormal(dim_x=1, dim_y=1, covariance=bad), (ValueError,), cov=bad)


def scalars(rep):
    import numpy as np
    import bmi.samplers as s

    def table(key, build, good, bad, exc=(ValueError,)):
        for v in good:
            rep.state()
            rep.trans()
            try:
                build(v)
            except Exception as e:
                rep.fail(f"refused:{key}", f"{v!r}: {type(e).__name__}: {e}")
        for v in bad:
            rep.state()
            rep.trans()
            rep.raises(f"accepted:{key}", lambda: build(v), exc, value=v)
        rep.outcome(key)

    tiny = 1e-9
    B = s.BivariateNormalSampler
    table("correlation", lambda v: B(correlation=v), [0, 0.0, -0.999, 0.999, 1 - 1e-6], [1, -1, 1.0, -1.0, 1 + tiny, -1 - tiny, 5, -2, math.nan, math.inf])
    for k in ("std_x", "std_y"):
        table(k, lambda v: B(correlation=0.1, **{k: v}), [1e-3, 1, 50.0], [0, 0.0, -1, -tiny])
    table("epsilon", lambda v: s.AdditiveUniformSampler(epsilon=v), [1e-6, 0.5, 1, 10], [0, 0.0, -tiny, -1])
    table("n_discrete", lambda v: s.DiscreteUniformMixtureSampler(n_discrete=v), [1, 2, 50], [0, -1])
    for pos in range(3):
        table("ns_discrete", lambda v: s.MultivariateDiscreteUniformMixtureSampler(ns_discrete=[2] * pos + [v] + [3] * (2 - pos)), [1, 4], [0, -2])
    table("p", lambda v: s.ZeroInflatedPoissonizationSampler(p=v), [0, 0.0, 0.5, 1 - 1e-6], [1, 1.0, -tiny, 1 + tiny, 2, -1])
    for disc in (True, False):
        table("p", lambda v: s.ZeroInflatedPoissonizationSampler(p=v, use_discrete_y=disc), [0.2], [1.0, -0.1])
    table("df", lambda v: s.SplitStudentT(dim_x=1, dim_y=1, dispersion=np.eye(2), df=v), [0.1, 1, 2, 2.5, 1000, math.inf], [0, 0.0, -1, -tiny])
    table("concat-empty", s.IndependentConcatenationSampler, [[B(0.1)]], [[]])
    zip_ = s.ZeroInflatedPoissonizationSampler(0.1)
    table("truncation", lambda v: zip_.mutual_information(truncation=v), [1, 5, None], [0, -3], (AssertionError, ValueError))


def mixtures(rep):
    import jax.numpy as jnp
    import numpy as np
    from bmi.samplers import bmm

    def normal(dx, dy):
        return bmm.MultivariateNormalDistribution(dim_x=dx, dim_y=dy, covariance=np.eye(dx + dy))

    parts = {(dx, dy): normal(dx, dy) for dx in (1, 2) for dy in (1, 2)}
    for k in (1, 2, 3):
        for dims in itertools.product(parts, repeat=k):
            for w in (1, 2, 3):
                rep.state()
                rep.trans()
                ok = len(set(dims)) == 1 and w == k
                build = lambda: bmm.mixture(jnp.ones(w) / w, [parts[d] for d in dims])
                if ok:
                    m = build()
                    rep.expect((m.dim_x, m.dim_y) == dims[0], "mixture:dims", f"{m.dim_x},{m.dim_y}")
                else:
                    rep.raises("accepted:mixture", build, (ValueError,), dims=dims, weights=w)
    rep.raises("accepted:mixture-empty", lambda: bmm.mixture(jnp.ones(0), []), (ValueError,))
    for n in (0, -1, -5):
        rep.raises("accepted:n_points", lambda: parts[1, 1].sample(n, __import__("jax").random.PRNGKey(0)), (ValueError,))
        rep.raises("accepted:mi_estimate_sample", lambda: bmm.BMMSampler(parts[1, 1], mi_estimate_sample=n), (ValueError,))
    bmm.BMMSampler(parts[1, 1], mi_estimate_sample=1)


def transforms(rep):
    import numpy as np
    import bmi.samplers as s
    import bmi.transforms as t

    base = s.BivariateNormalSampler(0.2)
    for a, b in itertools.product((-2, -1, 0, 1, 3), repeat=2):
        rep.state()
        rep.trans()
        build = lambda: s.TransformedSampler(base, add_dim_x=a, add_dim_y=b)
        if min(a, b) >= 0:
            q = build()
            rep.expect((q.dim_x, q.dim_y) == (1 + a, 1 + b), "transformed:dims", f"{q.dim_x},{q.dim_y}", add=(a, b))
        else:
            rep.raises("accepted:add_dim", build, (ValueError,), add=(a, b))
    # a decrease in one of the two is refused whatever the other does and however many dimensions would remain
    for dx, dy in itertools.product((1, 2, 4), repeat=2):
        base = s.SplitMultinormal(dim_x=dx, dim_y=dy, covariance=np.eye(dx + dy))
        for a, b in itertools.product(range(-3, 6), repeat=2):
            rep.state()
            rep.trans()
            build = lambda: s.TransformedSampler(base, transform_x=lambda x: x, add_dim_x=a, add_dim_y=b)
            if min(a, b) >= 0:
                q = build()
                rep.expect((q.dim_x, q.dim_y) == (dx + a, dy + b), "transformed:dims", f"{q.dim_x},{q.dim_y}", add=(a, b))
            else:
                rep.raises("accepted:add_dim", build, (ValueError,), dims=(dx, dy), add=(a, b))
    for n, i, j in itertools.product(range(-1, 6), range(-2, 6), range(-2, 7)):
        rep.state()
        rep.trans()
        ok = n >= 2 and 0 <= i < j < n
        if ok:
            t.so_generator(n, i, j)
        else:
            rep.raises("accepted:so_generator", lambda: t.so_generator(n, i, j), (ValueError,), n=n, i=i, j=j)
    for shape in ((2,), (2, 3), (3, 2), (1, 2, 2), ()):
        rep.raises("accepted:spiral-generator", lambda: t.Spiral(np.zeros(shape)), (ValueError,), shape=shape)
    for n in (2, 3):
        for shape in ((n, n + 1), (n + 1, n), (n + 1, n + 1), (n,), (n - 1, n - 1)):
            rep.raises("accepted:spiral-initial", lambda: t.Spiral(t.so_generator(n), initial=np.zeros(shape)), (ValueError,), shape=shape)
        t.Spiral(t.so_generator(n), initial=np.eye(n))


def lvm(rep):
    import bmi.samplers as s

    for dx, dy, k in itertools.product((1, 2, 3, 5), (1, 2, 4), range(-2, 7)):
        rep.state()
        rep.trans(2)
        ok = 0 <= k <= min(dx, dy)
        for name, build in (("lvm", lambda: s.GaussianLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=k, alpha=0.1, lambd=1.0)),
                            ("sparse", lambda: s.SparseLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=k))):
            if ok:
                build()
            else:
                rep.raises(f"accepted:n_interacting:{name}", build, (ValueError,), dims=(dx, dy), k=k)
    for dx, dy, k in itertools.product(range(-1, 4), range(-1, 4), range(-1, 5)):
        rep.state()
        rep.trans()
        ok = min(dx, dy, k) >= 1 and k <= min(dx, dy)
        build = lambda: s.parametrised_correlation_matrix(dx, dy, k=k)
        build() if ok else rep.raises("accepted:correlation-matrix-dims", build, (ValueError,), dims=(dx, dy), k=k)
    for name in ("correlation", "correlation_x", "correlation_y"):
        for v in (-1.5, -1 - 1e-9, -1.0, 0.0, 0.3, 1.0, 1 + 1e-9, 3.0):
            rep.state()
            rep.trans()
            build = lambda: s.parametrised_correlation_matrix(2, 3, k=2, **{name: v})
            build() if -1 <= v <= 1 else rep.raises(f"accepted:{name}", build, (ValueError,), value=v)
