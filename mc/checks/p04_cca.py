"""P04: the CCA estimator is the Gaussian MI of the sample canonical correlations."""

import itertools
import math

PROPERTY = "P04"
BOUNDS = {
    "quick": "all 5-point sequences over 3 ordinates at fixed abscissae (1+1 dim, exact); dims 1..4 x 1..4, "
    "n in {12,30,60}, 20 samples each, and up to (3,5), (1,6), (5,1) with n to 3000, (5,5) to (20,20) with n to 2000; noise levels 1e-6..1e6 in 6 pairs of units; scale on/off, with every coordinate permutation/sign/shear "
    "re-expression of X and of Y; wrapped functions: 2 parameter sets x 12 shapes and every pair of 8 element types",
    "thorough": "as quick with 40 samples per shape and n=200",
}
ASSUMPTIONS = [
    "scikit-learn's CCA iteration converges to ~1e-3 on the enumerated samples when both sides have "
    "at least two coordinates (the closed form is compared at 1e-9 otherwise)"
]


def cases(tier):
    deep = tier == "thorough"
    out = [{"part": "line", "first": a} for a in range(3)]
    for dx, dy in itertools.product((1, 2, 3, 4), repeat=2):
        for n in (12, 30, 60) + ((200,) if deep else ()):
            out.append({"part": "shape", "dims": (dx, dy), "n": n, "salts": 60 if deep else 20})
    for n, dims in itertools.product((99, 100, 101, 257, 1000, 3000), ((1, 1), (1, 6), (5, 1), (2, 2), (3, 5))):
        out.append({"part": "shape", "dims": dims, "n": n, "salts": 8 if deep else 2})
    for n, dims in itertools.product((300, 2000), ((4, 4), (5, 5), (4, 7), (6, 6), (8, 5), (9, 12), (20, 20))):
        out.append({"part": "shape", "dims": dims, "n": n, "salts": 6 if deep else 2})
    out.append({"part": "extremes"})
    out.append({"part": "invariance"})
    out.append({"part": "wrapper"})
    return out


def reference(x, y):
    import numpy as np

    x, y = x - x.mean(0), y - y.mean(0)
    qx, _ = np.linalg.qr(x)
    qy, _ = np.linalg.qr(y)
    s = np.linalg.svd(qx.T @ qy, compute_uv=False)
    return float(-0.5 * np.log(1 - s**2).sum())


def sample(n, dx, dy, salt):
    import numpy as np

    rng = np.random.default_rng([n, dx, dy, salt])
    x = rng.normal(size=(n, dx))
    y = rng.normal(size=(n, dy))
    k = min(dx, dy)
    # many components: weights such that neighbouring canonical correlations differ enough for the power iteration
    weights = np.arange(1, k + 1) if k <= 12 else 0.5 + 0.1 * np.arange(k)
    y[:, :k] += x[:, :k] * (weights * (1 if salt % 2 else -0.7))
    return x, y


def run(case, rep):
    import numpy as np
    from bmi.estimators import CCAMutualInformationEstimator as CCA

    part = case["part"]
    if part == "line":
        # exact rational correlation, every sequence of ordinates
        xs = [0, 1, 3, 4, 9]
        for ys in itertools.product((0, 1, 5), repeat=4):
            ys = (0, 1, 5)[case["first"]], *ys
            n = 5
            sxy = n * sum(a * b for a, b in zip(xs, ys)) - sum(xs) * sum(ys)
            sxx = n * sum(a * a for a in xs) - sum(xs) ** 2
            syy = n * sum(b * b for b in ys) - sum(ys) ** 2
            if syy == 0:
                continue
            r2 = sxy * sxy / (sxx * syy)
            want = -0.5 * math.log(1 - r2)
            rep.outcome(round(want, 8))
            rep.state()
            x, y = np.array(xs, float)[:, None], np.array(ys, float)[:, None]
            for scale in (True, False):
                rep.trans(2)
                rep.close("line", CCA(scale=scale).estimate(x, y), want, rtol=1e-7, atol=1e-9, y=ys)
                rep.close("line:swap", CCA(scale=scale).estimate(y, x), want, rtol=1e-7, atol=1e-9, y=ys)
            rep.trace()
            rep.sample(dict(x=xs, y=ys, expected=want))
    elif part == "shape":
        dx, dy = case["dims"]
        for salt in range(case["salts"]):
            x, y = sample(case["n"], dx, dy, salt)
            want = reference(x, y)
            tol = 1e-7 if min(dx, dy) == 1 else 5e-3 if case["n"] < 30 else 1e-3
            rep.state()
            rep.outcome(round(want, 5))
            for scale in (True, False):
                x0, y0 = x.copy(), y.copy()
                got = CCA(scale=scale).estimate(x, y)
                rep.trans()
                rep.close("shape", got, want, rtol=tol, atol=tol, dims=case["dims"], n=case["n"], salt=salt)
                rep.expect((x0 == x).all() and (y0 == y).all(), "shape:mutated")
            rep.trace()
    elif part == "extremes":
        # almost functional, almost independent and exactly uncorrelated pairs; very different units
        for n, noise, ux, uy, dy in itertools.product((12, 150), (1e-6, 1e-3, 1.0, 1e3, 1e6), (1e-6, 1.0, 1e7), (1e-4, 1e5), (1, 2)):
            x, e = sample(n, 1, dy, 7)
            y = x + noise * e
            want = reference(x, y)
            for scale in (True, False):
                rep.state()
                rep.trans(2)
                # with one coordinate on one side there is nothing to iterate; the rounding of 1-rho^2 decides
                if scale or ux == uy == 1.0 or dy == 1:
                    tol = 1e-6 if noise >= 1e-3 else 2e-3
                    rep.close("extremes", CCA(scale=scale).estimate(ux * x, uy * y), want, rtol=tol, atol=tol, noise=noise, units=(ux, uy), n=n, scale=scale)
                    rep.close("extremes:swap", CCA(scale=scale).estimate(uy * y, ux * x), want, rtol=tol, atol=tol, noise=noise, units=(ux, uy), n=n, scale=scale)
            rep.outcome((n, round(want, 6)))
        for k in (1, 2, 5):
            x = np.array([[-1.0], [0.0], [1.0]] * k)
            y = np.array([[1.0], [-2.0], [1.0]] * k)
            rep.trans()
            try:
                got = CCA().estimate(x, y)
            except ValueError as e:
                rep.fail("extremes:uncorrelated:refused", f"exactly uncorrelated sample of {3 * k} points: {type(e).__name__}", x=x, y=y)
                continue
            rep.close("extremes:uncorrelated", got, 0.0, rtol=0, atol=1e-9)
        rep.trace()
    elif part == "invariance":
        for dx, dy in ((1, 2), (2, 2), (3, 2), (2, 3)):
            x, y = sample(60, dx, dy, 1)
            base = reference(x, y)
            for side, d in (("x", dx), ("y", dy)):
                for perm in itertools.permutations(range(d)):
                    for signs in itertools.product((1.0, -1.0), repeat=d):
                        for scale_, shear in ((1.0, 0.0), (50.0, 0.0), (1.0, 0.3)):
                            m = np.eye(d)[list(perm)] * np.array(signs)
                            m = scale_ * m + shear * np.triu(np.ones((d, d)), 1)
                            if abs(np.linalg.det(m)) < 1e-3:
                                continue
                            a, b = (x @ m + 7.0, y) if side == "x" else (x, y @ m - 3.0)
                            rep.state()
                            rep.trans()
                            rep.close("invariance", CCA().estimate(a, b), base, rtol=2e-3, atol=2e-3,
                                      m=m, side=side)
            rep.trace()
    else:
        from bmi.estimators.function_wrapper import FunctionalEstimator
        from bmi.interface import BaseModel

        class Par(BaseModel):
            a: int = 3

        seen = []

        def f(x, y):
            seen.append((type(x).__name__, x.shape, type(y).__name__, y.shape))
            return float(x.sum() - 2 * y.sum())

        for p in (None, Par()):
            est = FunctionalEstimator(f, params=p)
            for n, dx, dy in itertools.product((1, 2, 5), (1, 2), (1, 3)):
                x = [[i + 10 * c for c in range(dx)] for i in range(n)]
                y = [[2 * i + c for c in range(dy)] for i in range(n)]
                want = float(sum(map(sum, x)) - 2 * sum(map(sum, y)))
                rep.state()
                rep.trans(2)
                seen.clear()
                rep.close("wrapper:value", est.estimate(x, y), want)
                rep.expect(seen == [("ndarray", (n, dx), "ndarray", (n, dy))], "wrapper:args", f"{seen}")
                rep.close("wrapper:info", est.estimate_with_info(x, y).mi_estimate, want)
            # every pair of element types: the function sees the same numbers
            kinds = {
                "int64": np.array([[2**53 + 1], [-3], [0]]), "int32": np.array([[7], [-3], [0]], np.int32),
                "float64": np.array([[0.1], [1e300], [-2.5]]), "float32": np.array([[0.1], [1e30], [-2.5]], np.float32),
                "float16": np.array([[0.1], [6e4], [-2.5]], np.float16), "bool": np.array([[True], [False], [True]]),
                "list": [[0.1], [2], [-3.7]], "complex": np.array([[1j], [2.0], [0.5]]),
            }
            for kx, ky in itertools.product(kinds, repeat=2):
                got = []
                value = FunctionalEstimator(lambda a, b: got.append((a.copy(), b.copy())) or 0.1 + 0.2, params=p).estimate(
                    kinds[kx], kinds[ky])
                rep.state()
                rep.trans()
                same = len(got) == 1 and all(
                    np.array_equal(g, w) and g.dtype == np.asarray(w).dtype for g, w in zip(got[0], (kinds[kx], kinds[ky])))
                rep.expect(same and value == 0.1 + 0.2, "wrapper:same-data", f"{got} {value!r}", kinds=(kx, ky))
            if p is not None:
                rep.expect(est.parameters() == p, "wrapper:params")
            else:
                rep.expect(est.parameters().dict() == {}, "wrapper:params")
        rep.trace()
