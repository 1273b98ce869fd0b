"""P02: the histogram estimator is the plug-in mutual information of the binned sample."""

import itertools
import math
from collections import Counter
from fractions import Fraction

PROPERTY = "P02"
BOUNDS = {
    "quick": "all multisets of 3 and 4 points of a 4x4 grid x bin pairs; all 4-point subsets of a 2+1 "
    "and 1+2 dimensional grid; generic samples up to 25 points, up to 2+2 dimensions, 1..6 bins; every 2x2, 2x3 and "
    "3x2 contingency table over the counts 0, 1, (7,) 1500 and every 2x2 table over 0, 1, 70000; samples up to 2500 points and 40 bins",
    "thorough": "as quick with 5-point multisets and all 36 bin pairs",
}
ASSUMPTIONS = [
    "bins are the equal-width bins between the smallest and largest observed value of a coordinate, "
    "last bin closed (NumPy's convention); samples with a value on an inexact bin edge are left out"
]
GRID = [0, 1, 3, 8]


def bin_of(v, lo, hi, nb):
    """(bin, robust?)"""
    if lo == hi:  # NumPy widens a degenerate range to [v - 1/2, v + 1/2]
        return nb // 2, nb % 2 == 1
    pos = Fraction(v - lo) * nb / Fraction(hi - lo)
    b = min(int(pos), nb - 1)
    robust = not (pos.denominator == 1 and 0 < pos < nb)
    return b, robust


def model(points, bins):
    """points: list of full tuples, bins per coordinate.  Returns labels or None."""
    cols = list(zip(*points))
    labels = []
    for c, nb in zip(cols, bins):
        lo, hi = min(c), max(c)
        col = []
        for v in c:
            b, ok = bin_of(v, lo, hi, nb)
            if not ok:
                return None
            col.append(b)
        labels.append(col)
    return list(zip(*labels))


def plugin(labels, dx):
    n = len(labels)
    cxy = Counter(labels)
    cx = Counter(lab[:dx] for lab in labels)
    cy = Counter(lab[dx:] for lab in labels)
    return sum(
        c / n * math.log(c * n / (cx[k[:dx]] * cy[k[dx:]])) for k, c in cxy.items()
    ), len(cx), len(cy)


def cases(tier):
    deep = tier == "thorough"
    out = []
    pairs = list(itertools.product(range(1, 7), repeat=2)) if deep else [
        (1, 1), (1, 4), (2, 2), (2, None), (3, 2), (2, 5), (4, 4), (5, None), (6, 3)]
    for n in (2, 3, 4, 5) if deep else (2, 3, 4):
        for p in pairs:
            out.append({"part": "grid", "n": n, "bins": p})
    for dims in ((2, 1), (1, 2), (2, 2)):
        for p in ((1, 2), (2, 3), (3, 1), (3, 3), (2, None)):
            out.append({"part": "multi", "dims": dims, "bins": p})
    for n in (7, 16, 25):
        for p in pairs:
            out.append({"part": "generic", "n": n, "bins": p})
    for shape in ((2, 2), (2, 3), (3, 2)):
        out.append({"part": "tables", "shape": shape, "counts": (0, 1, 7, 1500) if deep or shape == (2, 2) else (0, 1, 1500)})
    out.append({"part": "tables", "shape": (2, 2), "counts": (0, 1, 70000)})
    out.append({"part": "large"})
    out.append({"part": "config"})
    return out


def tables(rep, shape, counts):
    """Every contingency table over the given counts: big samples, rare cells, uneven margins."""
    import numpy as np
    from bmi.estimators import HistogramEstimator

    r, c = shape
    for t in itertools.product(counts, repeat=r * c):
        t = np.array(t).reshape(r, c)
        if (t.sum(1) == 0).any() or (t.sum(0) == 0).any():
            continue
        n = t.sum()
        q = t / n
        prod = np.outer(q.sum(1), q.sum(0))
        want = float(sum(a * math.log(a / b) for a, b in zip(q.ravel(), prod.ravel()) if a > 0))
        x = np.repeat(np.repeat(np.arange(r), c), t.ravel()).astype(float)[:, None]
        y = np.repeat(np.tile(np.arange(c), r), t.ravel()).astype(float)[:, None]
        rep.state()
        rep.trans()
        rep.outcome(round(want, 9))
        est = HistogramEstimator(n_bins_x=r, n_bins_y=c, standardize=bool(t[0, 0] % 2))
        rep.close("tables:value", est.estimate(x, y), want, rtol=1e-9, atol=1e-9, table=t.tolist())
        rep.trace()


def check(rep, key, xs, ys, bins, stds=(False, True), shift=None):
    import numpy as np
    from bmi.estimators import HistogramEstimator

    bx, by = bins
    dx, dy = len(xs[0]), len(ys[0])
    full = [tuple(a) + tuple(b) for a, b in zip(xs, ys)]
    labels = model(full, [bx] * dx + [by or bx] * dy)
    if labels is None:
        rep.count("skipped_edge_values")
        return
    want, kx, ky = plugin(labels, dx)
    rep.state()
    rep.outcome(round(want, 9))
    x, y = np.array(xs, dtype=float), np.array(ys, dtype=float)
    if shift:
        x, y = x * shift[0] + shift[1], y * shift[2] + shift[3]
    for std in stds:
        kw = {} if by is None else {"n_bins_y": by}
        est = HistogramEstimator(n_bins_x=bx, standardize=std, **kw)
        got = est.estimate(x, y)
        rep.trans()
        d = dict(x=xs, y=ys, bins=bins, standardize=std)
        rep.close(f"{key}:value", got, want, rtol=1e-9, atol=1e-9, **d)
        rep.expect(
            -1e-9 <= got <= math.log(min(kx, ky)) + 1e-9, f"{key}:bounds", f"{got}", **d
        )
    rep.trace()
    rep.sample(dict(x=xs, y=ys, bins=bins, expected=want))


def run(case, rep):
    part = case["part"]
    if part == "grid":
        pts = list(itertools.product(GRID, GRID))
        for combo in itertools.combinations_with_replacement(pts, case["n"]):
            check(rep, "grid", [(c[0],) for c in combo], [(c[1],) for c in combo], case["bins"],
                  stds=(False,) if case["n"] > 3 else (False, True))
    elif part == "multi":
        dx, dy = case["dims"]
        # coordinates of X and Y with different value patterns, so that axis mix-ups show
        px = list(itertools.product((0, 5), (0, 1, 7)))[:5] if dx == 2 else [(0,), (2,), (9,)]
        py = list(itertools.product((0, 1, 7), (3, 4)))[:4] if dy == 2 else [(1,), (2,), (11,)]
        pts = list(itertools.product(px, py))
        for combo in itertools.combinations(pts, 3):
            check(rep, "multi", [c[0] for c in combo], [c[1] for c in combo], case["bins"], (True,))
        for combo in itertools.islice(itertools.combinations(pts, 5), 0, None, 23):
            check(rep, "multi", [c[0] for c in combo], [c[1] for c in combo], case["bins"])
    elif part == "generic":
        n = case["n"]
        for dims in ((1, 1), (2, 1), (1, 2), (2, 2)):
            if sum(dims) == 4 and (case["bins"][0] > 4 or (case["bins"][1] or case["bins"][0]) > 4):
                continue
            for salt in range(4):
                xs = [tuple((i * i * (3 + 2 * c + salt) + 5 * i) % 53 for c in range(dims[0])) for i in range(n)]
                ys = [tuple((xs[i][0] * (1 + c) + i * (c + salt)) % 47 for c in range(dims[1])) for i in range(n)]
                check(rep, "generic", xs, ys, case["bins"])
                check(rep, "generic-affine", xs, ys, case["bins"], shift=(8.0, -16.0, -0.5, 3.0)
                      if salt == 9 else (8.0, -16.0, 0.5, 3.0))
    elif part == "tables":
        tables(rep, case["shape"], case["counts"])
    elif part == "large":
        for n in (60, 400, 2500):
            for bins in ((2, None), (5, None), (13, 4), (40, 40)):
                xs = [((i * i * 3 + 5 * i) % 1009,) for i in range(n)]
                ys = [((xs[i][0] * 2 + i * 7) % 997,) for i in range(n)]
                check(rep, "large", xs, ys, bins)
                # fine structure far from zero (binary scales, so that the bins stay the same)
                check(rep, "large-far", xs, ys, bins, shift=(2.0**-7, 2.0**21, 2.0**-20, -2.0**5))
                check(rep, "large-tiny", xs, ys, bins, shift=(2.0**-40, 0.0, 2.0**40, 2.0**60))
    else:
        from bmi.estimators import HistogramEstimator

        for a, b in itertools.product(range(1, 5), list(range(1, 5)) + [None]):
            for s in (True, False):
                rep.state()
                rep.trans()
                p = HistogramEstimator(n_bins_x=a, n_bins_y=b, standardize=s).parameters()
                rep.expect(
                    (p.n_bins_x, p.n_bins_y, p.standardize) == (a, b or a, s), "config:params", f"{p}"
                )
        for bad in (0, -1):
            rep.raises("config:bad", lambda: HistogramEstimator(n_bins_x=bad), (ValueError,))
        rep.raises("config:bad", lambda: HistogramEstimator(n_bins_x=2, n_bins_y=-2), (ValueError,))
        rep.raises(
            "config:length", lambda: HistogramEstimator().estimate([[0.0], [1.0]], [[0.0]]), (ValueError,)
        )
        rep.trace()
