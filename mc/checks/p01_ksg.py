"""P01: both KSG implementations equal the definition (eq. 8 of Kraskov et al.)."""

import itertools
import math
from fractions import Fraction

PROPERTY = "P01"
BOUNDS = {
    "quick": "all 4-point subsets of a 4x4 grid (1+1 dim) for every k-set; all 4-point subsets of a "
    "2+1 and a 2+2 dimensional grid for every metric pair; chunk sizes 1..n+2 and jobs {1,2,-1} on "
    "n=5,12,13; standardised and raw; every set of 4-6 neighborhood sizes (n=7), up to 29 sizes (n=30), default neighborhoods and three other lists on n=30 x 7 chunk sizes and n up to 250",
    "thorough": "as quick with 5-point subsets and a 5x4 grid, neighbourhood lists up to length 3",
}
ASSUMPTIONS = [
    "scipy.special.digamma is the digamma function",
    "points of the enumerated samples are pairwise distinct, and inputs whose ordering of distances "
    "would depend on floating-point rounding are left out",
]


# --------------------------------------------------------------------- model
def sqdist(a, b, metric):
    """Exact squared distance between rational points."""
    diffs = [abs(p - q) for p, q in zip(a, b)]
    if metric == "euclidean":
        return sum(d * d for d in diffs)
    if metric == "manhattan":
        return sum(diffs) ** 2
    return max(diffs) ** 2


def model(xs, ys, ks, mx, my, var_x=None, var_y=None):
    """Exact model.  Returns {k: mi}, or None if the sample is degenerate (two points
    coincide), or if rounding decides an inequality."""
    from scipy.special import digamma

    n = len(xs)

    def scaled(points, var):
        if var is None:
            return points
        return [tuple(float(c) / math.sqrt(v) for c, v in zip(p, var)) for p in points]

    exact = var_x is None
    px, py = scaled(xs, var_x), scaled(ys, var_y)
    dx = [[sqdist(a, b, mx) for b in px] for a in px]
    dy = [[sqdist(a, b, my) for b in py] for a in py]
    out = {}
    for k in set(ks):
        total = 0.0
        for i in range(n):
            dz = sorted(max(dx[i][j], dy[i][j]) for j in range(n) if j != i)
            eps = dz[k - 1]
            if eps <= (0 if exact else 1e-12):
                return None
            if not exact:
                for row in (dx[i], dy[i]):
                    for j in range(n):
                        if j != i and row[j] != eps and abs(row[j] - eps) < 1e-9 * eps:
                            return None
                        # a distance realised twice by different float routes is fragile too
                ties = sum(
                    1 for j in range(n) if j != i and (dx[i][j] == eps or dy[i][j] == eps)
                )
                if ties > 1:
                    return None
            nx = sum(1 for j in range(n) if j != i and dx[i][j] < eps)
            ny = sum(1 for j in range(n) if j != i and dy[i][j] < eps)
            total += digamma(nx + 1) + digamma(ny + 1)
        out[k] = max(0.0, float(digamma(k) + digamma(n) - total / n))
    return out


def variances(points):
    n = len(points)
    out = []
    for c in range(len(points[0])):
        col = [Fraction(p[c]) for p in points]
        m = sum(col) / n
        v = sum((q - m) ** 2 for q in col) / n
        out.append(float(v) if v > 0 else 1.0)
    return out


# ---------------------------------------------------------------------- cases
GRID = [0, 1, 3, 7]
METRICS = ["euclidean", "manhattan", "chebyshev"]
X2 = [(0, 0), (3, 4), (1, 0), (2, 2)]  # contains a 3-4-5 triangle, axis and diagonal offsets
Y2 = [(0, 0), (2, 1), (0, 4)]


def slices(n, parts):
    step = -(-n // parts)
    return [(i, min(n, i + step)) for i in range(0, n, step)]


def cases(tier):
    deep = tier == "thorough"
    out = []
    n11 = math.comb(16, 4)
    for s in slices(n11, 16):
        out.append({"part": "grid11", "n": 4, "range": s})
    if deep:
        for s in slices(math.comb(16, 5), 48):
            out.append({"part": "grid11", "n": 5, "range": s})
    for mx, my in itertools.product(METRICS, METRICS + [None]):
        out.append({"part": "grid21", "mx": mx, "my": my, "n": 4})
        out.append({"part": "grid22", "mx": mx, "my": my, "n": 3 if not deep else 4})
    for n in (5, 12, 13) if not deep else (5, 7, 12, 13, 20, 21, 31):
        for jobs in (1, 2, -1):
            out.append({"part": "exec", "n": n, "jobs": jobs})
    for chunk in (1, 7, 10, 15, 29, 30, 31):
        out.append({"part": "default", "n": 30, "chunk": chunk})
    for n in (64, 101, 250):
        out.append({"part": "default", "n": n, "chunk": 10})
    for n in (6, 9):
        for dims in ((1, 1), (2, 1), (1, 3), (3, 2)):
            out.append({"part": "std", "n": n, "dims": dims})
    out.append({"part": "ksets"})
    out.append({"part": "types"})
    out.append({"part": "errors"})
    out.append({"part": "histories", "depth": 3 if not deep else 4})
    return out


def kernel(rep, key, xs, ys, ks, mx, my, std, chunk=10, jobs=1, slow=True):
    """One state: run both implementations, compare with the model."""
    import numpy as np
    from bmi.estimators import ksg

    myy = my or mx
    ref = model(
        xs,
        ys,
        ks,
        mx,
        myy,
        variances(xs) if std else None,
        variances(ys) if std else None,
    )
    if ref is None:
        rep.count("skipped_degenerate_or_rounding_sensitive")
        return
    rep.state()
    x, y = np.array(xs, dtype=float), np.array(ys, dtype=float)
    fast = ksg.KSGEnsembleFirstEstimator(
        neighborhoods=ks, standardize=std, metric_x=mx, metric_y=my, n_jobs=jobs, chunk_size=chunk
    )
    est = [("fast", fast)]
    if slow:
        est.append(
            (
                "slow",
                ksg.KSGEnsembleFirstEstimatorSlow(
                    neighborhoods=ks, standardize=std, metric_x=mx, metric_y=my, n_jobs=jobs
                ),
            )
        )
    want = sum(ref.values()) / len(ref)
    rep.outcome(round(want, 6))
    for name, e in est:
        got = e.estimate(x, y)
        rep.trans()
        d = dict(x=xs, y=ys, ks=ks, metrics=(mx, my), standardize=std, chunk=chunk, jobs=jobs)
        rep.close(f"{key}:{name}:estimate", got, want, rtol=1e-7, atol=1e-9, **d)
        preds = e.get_predictions()
        if rep.expect(set(preds) == set(ref), f"{key}:{name}:ks", f"{set(preds)}!={set(ref)}", **d):
            for k in ref:
                rep.close(f"{key}:{name}:k", preds[k], ref[k], rtol=1e-7, atol=1e-9, k=k, **d)
    rep.trace()
    rep.sample(dict(x=xs, y=ys, ks=list(ks), metric_x=mx, metric_y=my, expected=want))


def generic(n, dims, salt=0):
    """Deterministic generic-position integer sample with dependence between X and Y."""
    dx, dy = dims
    xs, ys = [], []
    for i in range(n):
        xs.append(tuple((i * i * (7 + 2 * c) + 31 * i * (c + 1) + 5 * salt * i) % 211 for c in range(dx)))
        ys.append(
            tuple((xs[i][0] * (c + 1) + (i * i * i * (5 + c) + 17 * i) % 61) % 307 for c in range(dy))
        )
    return xs, ys


def run(case, rep):
    part = case["part"]
    if part == "grid11":
        pts = list(itertools.product(GRID, GRID))
        lo, hi = case["range"]
        for combo in itertools.islice(itertools.combinations(pts, case["n"]), lo, hi):
            xs = [(p[0],) for p in combo]
            ys = [(p[1],) for p in combo]
            kernel(rep, "grid11", xs, ys, (1, 2, case["n"] - 1), "euclidean", None, False, chunk=3)
    elif part == "grid21":
        pts = list(itertools.product(X2, [(0,), (1,), (4,)]))
        for combo in itertools.combinations(pts, case["n"]):
            # every 5th subset goes through the slow variant as well
            idx = hash(combo) % 5 == 0
            kernel(
                rep, "grid21", [c[0] for c in combo], [c[1] for c in combo], (1, 3),
                case["mx"], case["my"], False, chunk=4, slow=idx,
            )
    elif part == "grid22":
        pts = list(itertools.product(X2, Y2))
        for combo in itertools.combinations(pts, case["n"]):
            kernel(
                rep, "grid22", [c[0] for c in combo], [c[1] for c in combo], (1, 2),
                case["mx"], case["my"], False, chunk=2, slow=False,
            )
    elif part == "exec":
        n = case["n"]
        xs, ys = generic(n, (2, 1))
        for std in (False, True):
            for chunk in list(range(1, n + 3)) + [10**6]:
                kernel(rep, "exec", xs, ys, (1, 2, n - 1), "manhattan", "chebyshev", std,
                       chunk=chunk, jobs=case["jobs"], slow=chunk == 1 and case["jobs"] == 1)
    elif part == "default":
        for dims in ((1, 1), (3, 2)):
            xs, ys = generic(case["n"], dims, case["chunk"])
            for ks in ((5, 10), (2, 12, 25), (1,)):
                for std in (False, True):
                    kernel(rep, "default", xs, ys, ks, "euclidean", None, std, chunk=case["chunk"], slow=ks == (5, 10))
    elif part == "std":
        for salt in range(6):
            xs, ys = generic(case["n"], case["dims"], salt)
            scaled = [tuple(1000 * c - 5000 for c in p) for p in xs]
            for mx, my in itertools.product(METRICS, METRICS):
                kernel(rep, "std", scaled, ys, (1, 2, 4), mx, my, True, chunk=4,
                       slow=(mx, my) == ("euclidean", "manhattan"))
            # a constant coordinate carries no distance
            flat = [(3,) + p for p in xs]
            kernel(rep, "std-const", flat, ys, (1, 3), "euclidean", None, True)
    elif part == "ksets":
        xs, ys = generic(7, (1, 2), 3)
        pool = [1, 2, 3, 5, 6]
        for r in (1, 2, 3):
            for ks in itertools.product(pool, repeat=r):  # includes repetitions and any order
                kernel(rep, "ksets", xs, ys, ks, "euclidean", None, False, chunk=3)
                kernel(rep, "ksets", xs, ys, list(ks), "chebyshev", "euclidean", True, chunk=7,
                       slow=r < 3)
        # longer ensembles: every set of four or more sizes, ascending and descending
        pool = [1, 2, 3, 4, 5, 6]
        for r in (4, 5, 6):
            for ks in itertools.combinations(pool, r):
                kernel(rep, "ksets-long", xs, ys, ks, "euclidean", None, False, chunk=3, slow=True)
                kernel(rep, "ksets-long", xs, ys, ks[::-1], "chebyshev", "euclidean", True, chunk=7, slow=True)
        xs, ys = generic(30, (2, 1), 1)
        for ks in (range(1, 30), range(29, 0, -1), range(1, 30, 3), (1, 2, 4, 8, 16, 29), (20,) * 4 + (3,)):
            kernel(rep, "ksets-long", xs, ys, tuple(ks), "euclidean", None, False, chunk=11, slow=True)
    elif part == "types":
        types(rep)
    elif part == "errors":
        errors(rep)
    elif part == "histories":
        histories(rep, case["depth"])


def types(rep):
    """The same sample as list, integer, float32, Fortran-ordered, strided or JAX array."""
    import jax.numpy as jnp
    import numpy as np
    from bmi.estimators import ksg

    xs, ys = generic(8, (2, 1), 1)
    x, y = np.array(xs, dtype=float), np.array(ys, dtype=float)
    wide = np.zeros((8, 4))
    wide[:, ::2] = x
    forms = {
        "list": (xs, ys),
        "int": (x.astype(int), y.astype(int)),
        "float32": (x.astype(np.float32), y.astype(np.float32)),
        "fortran": (np.asfortranarray(x), np.asfortranarray(y)),
        "strided": (wide[:, ::2], y),
        "jax": (jnp.asarray(x), jnp.asarray(y)),
    }
    for ks in ((1,), (2, 5)):
        ref = model(xs, ys, ks, "euclidean", "euclidean")
        want = sum(ref.values()) / len(ref)
        for cls in (ksg.KSGEnsembleFirstEstimator, ksg.KSGEnsembleFirstEstimatorSlow):
            for name, (a, b) in forms.items():
                rep.state()
                rep.trans()
                got = cls(neighborhoods=ks, standardize=False).estimate(a, b)
                rep.close(f"types:{name}", got, want, rtol=1e-5, atol=1e-6, cls=cls.__name__)
    rep.trace()


def errors(rep):
    import numpy as np
    import pydantic
    from bmi.estimators import ksg
    from bmi.estimators.base import EstimatorNotFittedException

    for cls in (ksg.KSGEnsembleFirstEstimator, ksg.KSGEnsembleFirstEstimatorSlow):
        for bad in ((), (0,), (-1,), (3, 0), (1, -2)):
            rep.state()
            rep.raises("errors:k", lambda: cls(neighborhoods=bad), (ValueError,), bad=bad)
        for bad in ("cosine", "l2", ""):
            rep.raises("errors:metric_x", lambda: cls(metric_x=bad), (ValueError,), bad=bad)
            if bad:
                rep.raises("errors:metric_y", lambda: cls(metric_y=bad), (ValueError,), bad=bad)
        rep.raises("errors:notfitted", lambda: cls().get_predictions(), (EstimatorNotFittedException,))
        for n in range(1, 8):
            xs, ys = generic(n, (1, 1))
            x, y = np.array(xs, float), np.array(ys, float)
            for ks in ((1,), (2,), (6,), (1, 6), (6, 1), (3, 5)):
                rep.state()
                rep.trans()
                est = cls(neighborhoods=ks, standardize=False)
                if n <= max(ks):
                    rep.raises("errors:toofew", lambda: est.estimate(x, y), (ValueError,), n=n, ks=ks)
                    rep.raises(
                        "errors:toofew-unfitted",
                        lambda: est.get_predictions(),
                        (EstimatorNotFittedException,), n=n, ks=ks,
                    )
                else:
                    v = est.estimate(x, y)
                    rep.expect(np.isfinite(v) and v >= 0, "errors:value", f"{v}", n=n, ks=ks)
        xs, ys = generic(8, (1, 1))
        for m in (1, 5, 7):
            rep.raises(
                "errors:length", lambda: cls(neighborhoods=(1,)).estimate(xs, ys[:m]), (ValueError,), m=m
            )
            rep.raises(
                "errors:length", lambda: cls(neighborhoods=(1,)).estimate(xs[:m], ys), (ValueError,), m=m
            )
        p = cls(neighborhoods=(4, 2), standardize=False, metric_x="manhattan").parameters()
        rep.expect(
            list(p.neighborhoods) == [4, 2] and p.standardize is False and p.metric_x == "manhattan"
            and p.metric_y == "manhattan",
            "errors:params", f"{p}",
        )
    rep.trace()


def histories(rep, depth):
    """Every sequence of operations on one estimator object, up to `depth`, leaves it in the
    state that the last successful fit alone would produce."""
    import numpy as np
    from bmi.estimators import ksg
    from bmi.estimators.base import EstimatorNotFittedException

    ks = (1, 3)
    data = {"A": generic(6, (1, 1), 0), "B": generic(9, (2, 1), 2), "S": generic(3, (1, 1))}
    refs = {}
    for n in "AB":
        refs[n] = model(*data[n], ks, "euclidean", "euclidean")
    arrs = {n: (np.array(d[0], float), np.array(d[1], float)) for n, d in data.items()}
    ops = ["fitA", "fitB", "estA", "estB", "failS", "read", "tamper"]
    for cls in (ksg.KSGEnsembleFirstEstimator, ksg.KSGEnsembleFirstEstimatorSlow):
        for d in range(1, depth + 1):
            for seq in itertools.product(ops, repeat=d):
                est, last = cls(neighborhoods=ks, standardize=False), None
                rep.state()
                for op in seq:
                    rep.trans()
                    if op[:3] == "fit":
                        est.fit(*arrs[op[-1]])
                        last = op[-1]
                    elif op[:3] == "est":
                        v = est.estimate(*arrs[op[-1]])
                        last = op[-1]
                        rep.close("hist:estimate", v, sum(refs[last].values()) / 2, rtol=1e-7, seq=seq)
                    elif op == "failS":
                        rep.raises("hist:fail", lambda: est.fit(*arrs["S"]), (ValueError,), seq=seq)
                    elif op == "tamper" and last:
                        got = est.get_predictions()
                        got[1] = 99.0
                        got.pop(3, None)
                    elif op == "read" and last is None:
                        rep.raises(
                            "hist:unfitted", lambda: est.get_predictions(),
                            (EstimatorNotFittedException,), seq=seq,
                        )
                    if last is not None:
                        got = est.get_predictions()
                        ok = set(got) == {1, 3} and all(
                            abs(got[k] - refs[last][k]) < 1e-9 for k in (1, 3)
                        )
                        rep.expect(ok, "hist:state", f"{got} != {refs[last]}", seq=seq, op=op)
                rep.trace()
