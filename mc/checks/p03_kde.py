"""P03: KDE estimator: entropies and MI equal the kernel-density definition."""

import itertools
import math

PROPERTY = "P03"
BOUNDS = {
    "quick": "6 kernels x 6 kernels for joint/X, separate Y kernel and bandwidths, float / scott / "
    "silverman bandwidths (all 36 placements), dims (1,1),(2,1),(1,2),(2,2), 5-8 points, raw and standardised; "
    "40 to 1200 points in 3 dimension pairs, generic, coinciding and far from zero, 12 configurations each",
    "thorough": "as quick with all 216 kernel triples and more samples",
}
ASSUMPTIONS = ["kernel normalisation constants are recomputed by integration, except the cosine kernel's, which is taken from scikit-learn"]
KERNELS = ["gaussian", "tophat", "epanechnikov", "exponential", "linear", "cosine"]


def bandwidth(b, n, d):
    if b == "scott":
        return n ** (-1.0 / (d + 4))
    if b == "silverman":
        return (n * (d + 2) / 4) ** (-1.0 / (d + 4))
    return float(b)


def profile(kernel, u):
    """Unnormalised kernel at scaled distance u."""
    if kernel == "gaussian":
        return math.exp(-0.5 * u * u)
    if kernel == "exponential":
        return math.exp(-u)
    if u >= 1:
        return 0.0
    return {
        "tophat": 1.0,
        "epanechnikov": 1 - u * u,
        "linear": 1 - u,
        "cosine": math.cos(0.5 * math.pi * u),
    }[kernel]


_NORM = {}


def norm(kernel, d):
    """Integral of the kernel profile over R^d (numerically, radial)."""
    if (kernel, d) not in _NORM and kernel == "cosine":
        # scikit-learn's own constant: it is not the integral in even dimensions (a fault of
        # that library, not of the code under test), and NaN from four dimensions on
        import numpy as np
        from sklearn.neighbors import KernelDensity

        unit = KernelDensity(kernel="cosine", bandwidth=1.0).fit(np.zeros((1, d)))
        _NORM[kernel, d] = math.exp(-unit.score_samples(np.zeros((1, d)))[0])
    if (kernel, d) not in _NORM:
        from scipy.integrate import quad

        surface = 2 * math.pi ** (d / 2) / math.gamma(d / 2)
        hi = 60.0 if kernel in ("gaussian", "exponential") else 1.0
        val = quad(lambda r: profile(kernel, r) * r ** (d - 1), 0, hi, limit=400, points=None)[0]
        _NORM[kernel, d] = surface * val
    return _NORM[kernel, d]


def entropy(points, kernel, bw):
    n, d = len(points), len(points[0])
    h = bandwidth(bw, n, d)
    tot = 0.0
    for p in points:
        s = 0.0
        for q in points:
            u = math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) / h
            if abs(u - 1) < 1e-9:
                return None  # on the edge of a compact kernel: rounding decides
            s += profile(kernel, u)
        tot += math.log(s / (n * norm(kernel, d) * h**d))
    return -tot / n


def data(n, dims, salt):
    xs = [tuple(((i * i * (3 + c) + 7 * i + salt * 5) % 23) / 3.7 for c in range(dims[0])) for i in range(n)]
    ys = [tuple((xs[i][0] * (0.6 + c) + ((i * 11 + salt) % 13) / 2.9) for c in range(dims[1])) for i in range(n)]
    return xs, ys


def standardised(points):
    cols = list(zip(*points))
    out = []
    for c in cols:
        m = sum(c) / len(c)
        s = math.sqrt(sum((v - m) ** 2 for v in c) / len(c)) or 1.0
        out.append([(v - m) / s for v in c])
    return list(zip(*out))


def cases(tier):
    deep = tier == "thorough"
    out = []
    for dims in ((1, 1), (2, 1), (1, 2), (2, 2)):
        out.append({"part": "shared", "dims": dims})
        for kxy in KERNELS:
            out.append({"part": "kernels", "dims": dims, "kxy": kxy, "all": deep})
        for bxy in (0.7, "scott", "silverman"):
            out.append({"part": "bandwidths", "dims": dims, "bxy": bxy})
    for n in (40, 101, 513, 1200) + ((3000,) if deep else ()):
        for dims in ((1, 1), (3, 2), (2, 4)):
            out.append({"part": "large", "n": n, "dims": dims})
    out.append({"part": "repeat"})
    out.append({"part": "config"})
    return out


def check(rep, key, xs, ys, cfg, std):
    import numpy as np
    from bmi.estimators import KDEMutualInformationEstimator

    ks = [cfg["kernel_xy"], cfg.get("kernel_x") or cfg["kernel_xy"], cfg.get("kernel_y") or cfg["kernel_xy"]]
    b0 = cfg["bandwidth_xy"]
    bs = [
        b0,
        b0 if cfg.get("bandwidth_x") is None else cfg["bandwidth_x"],
        b0 if cfg.get("bandwidth_y") is None else cfg["bandwidth_y"],
    ]
    px, py = (standardised(xs), standardised(ys)) if std else (xs, ys)
    pxy = [tuple(a) + tuple(b) for a, b in zip(px, py)]
    h = [entropy(pxy, ks[0], bs[0]), entropy(px, ks[1], bs[1]), entropy(py, ks[2], bs[2])]
    if None in h or any(v != v for v in h):
        rep.count("skipped_kernel_edge")
        return
    rep.state()
    x, y = np.array(xs), np.array(ys)
    est = KDEMutualInformationEstimator(standardize=std, **cfg)
    e = est.estimate_entropies(x, y)
    mi = est.estimate(x, y)
    rep.trans(2)
    d = dict(cfg=cfg, dims=(len(xs[0]), len(ys[0])), n=len(xs), standardize=std)
    tol = dict(rtol=2e-5, atol=2e-5)
    rep.close(f"{key}:h_xy", e.entropy_xy, h[0], **tol, **d)
    rep.close(f"{key}:h_x", e.entropy_x, h[1], **tol, **d)
    rep.close(f"{key}:h_y", e.entropy_y, h[2], **tol, **d)
    rep.close(f"{key}:mi", mi, h[1] + h[2] - h[0], **tol, **d)
    rep.close(f"{key}:mi2", e.mutual_information, h[1] + h[2] - h[0], **tol, **d)
    rep.outcome(round(h[0], 5))
    rep.trace()
    rep.sample(dict(cfg=cfg, entropies=h))


def entropy_np(p, kernel, bw):
    """The same definition, vectorised."""
    import numpy as np

    n, d = p.shape
    h = bandwidth(bw, n, d)
    u = np.sqrt(((p[:, None, :] - p[None]) ** 2).sum(-1)) / h
    f = {
        "gaussian": lambda: np.exp(-0.5 * u * u), "exponential": lambda: np.exp(-u), "tophat": lambda: 1.0 * (u < 1),
        "epanechnikov": lambda: (1 - u * u) * (u < 1), "linear": lambda: (1 - u) * (u < 1),
    }[kernel]()
    return float(-np.log(f.sum(1) / (n * norm(kernel, d) * h**d)).mean())


def large(rep, n, dims):
    """Ordinary sizes; also points that coincide, coordinates far from zero, and bandwidths that isolate or merge all points."""
    import numpy as np
    from bmi.estimators import KDEMutualInformationEstimator

    rng = np.random.default_rng([n, *dims])
    x = rng.normal(size=(n, dims[0])) * 1.7
    y = 0.6 * x[:, :1] + rng.normal(size=(n, dims[1]))
    samples = {"generic": (x, y), "coinciding": (np.round(x), np.round(2 * y) / 2 + 0.25), "far": (x * 1e-3 + 5e3, y * 40 - 1e5)}
    for (name, (a, b)), std in itertools.product(samples.items(), (True, False)):
        za, zb = ((v - v.mean(0)) / v.std(0) for v in (a, b)) if std else (a, b)
        zab = np.hstack([za, zb])
        for kernels, bws in itertools.product(
            [("gaussian", None, None), ("tophat", None, "gaussian"), ("linear", "epanechnikov", None), ("exponential", "gaussian", "linear")],
            [("scott", None, None), (0.031, "silverman", None), (2.7, 0.31, 57.0)],
        ):
            if n > 600 and (kernels[0] == "linear" or name != "generic"):
                continue
            ks = [kernels[0], kernels[1] or kernels[0], kernels[2] or kernels[0]]
            bs = [bws[0], bws[1] or bws[0], bws[2] or bws[0]]
            est = KDEMutualInformationEstimator(*kernels, *bws, standardize=std)
            d = dict(n=n, dims=dims, kernels=kernels, bandwidths=bws, sample=name, standardize=std)
            want = [entropy_np(p, k, h) for p, k, h in zip((zab, za, zb), ks, bs)]
            got = est.estimate_entropies(a, b)
            rep.state()
            rep.trans(2)
            for tag, g, w in zip(("h_xy", "h_x", "h_y"), (got.entropy_xy, got.entropy_x, got.entropy_y), want):
                rep.close(f"large:{tag}", g, w, rtol=1e-5, atol=1e-5, **d)
            rep.close("large:mi", est.estimate(a, b), want[1] + want[2] - want[0], rtol=2e-5, atol=2e-5, **d)
            rep.outcome((name, round(want[0], 4)))
    rep.trace()


def run(case, rep):
    part = case["part"]
    if part == "shared":
        for n in (5, 8):
            for salt in range(2):
                xs, ys = data(n, case["dims"], salt)
                for k in KERNELS:
                    for b in (0.4, 1.3, 6.0, "scott", "silverman"):
                        for std in (True, False):
                            check(rep, "shared", xs, ys, dict(kernel_xy=k, bandwidth_xy=b), std)
    elif part == "kernels":
        xs, ys = data(6, case["dims"], 1)
        for kx, ky in itertools.product(KERNELS + [None], KERNELS + [None]):
            if not case["all"] and kx and ky and KERNELS.index(kx) % 2 == KERNELS.index(ky) % 2 and kx != ky:
                continue
            check(rep, "kernels", xs, ys,
                  dict(kernel_xy=case["kxy"], kernel_x=kx, kernel_y=ky, bandwidth_xy=1.1), True)
    elif part == "bandwidths":
        xs, ys = data(7, case["dims"], 2)
        for bx, by in itertools.product((None, 0.5, 2.0, "scott", "silverman"), repeat=2):
            for k in ("gaussian", "tophat"):
                check(rep, "bandwidths", xs, ys,
                      dict(kernel_xy=k, bandwidth_xy=case["bxy"], bandwidth_x=bx, bandwidth_y=by),
                      k == "gaussian")
    elif part == "large":
        large(rep, case["n"], case["dims"])
    elif part == "repeat":
        # the object is reusable: every sequence of data sets gives each data set's own value
        import numpy as np
        from bmi.estimators import KDEMutualInformationEstimator

        sets = [data(5, (1, 1), 0), data(8, (2, 1), 1), data(6, (1, 2), 2)]
        sets = [(np.array(a), np.array(b)) for a, b in sets]
        for bw in ("scott", 0.9, "silverman"):
            fresh = [KDEMutualInformationEstimator("gaussian", bandwidth_xy=bw).estimate(*s) for s in sets]
            for seq in itertools.product(range(3), repeat=3):
                rep.state()
                est = KDEMutualInformationEstimator("gaussian", bandwidth_xy=bw)
                for i in seq:
                    rep.trans()
                    rep.close("repeat", est.estimate(*sets[i]), fresh[i], rtol=1e-12, seq=seq, bw=bw)
                rep.trace()
    else:
        from bmi.estimators import KDEMutualInformationEstimator

        for kxy, kx, ky in itertools.product(KERNELS[:3], [None] + KERNELS[2:5], [None] + KERNELS[3:]):
            for bxy, bx, by in itertools.product((0.5, "scott"), (None, 2.0, "silverman"), (None, 3.0)):
                rep.state()
                rep.trans()
                p = KDEMutualInformationEstimator(kxy, kx, ky, bxy, bx, by, standardize=False).parameters()
                want = (kxy, kx or kxy, ky or kxy, bxy, bxy if bx is None else bx, bxy if by is None else by, False)
                got = (p.kernel_xy, p.kernel_x, p.kernel_y, p.bandwidth_xy, p.bandwidth_x, p.bandwidth_y, p.standardize)
                rep.expect(got == want, "config:params", f"{got} != {want}")
        rep.raises(
            "config:length", lambda: KDEMutualInformationEstimator().estimate([[0.0], [1.0]], [[0.0]]),
            (ValueError,),
        )
        rep.trace()
