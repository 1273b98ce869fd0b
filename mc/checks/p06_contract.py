"""P06: contract shared by the classical estimators: the estimate depends on the sample as a set of
pairs, not on row order, on the roles of X and Y, on units, on the container or on the past."""

import itertools

PROPERTY = "P06"
BOUNDS = {
    "quick": "8 estimator configurations; every row permutation of 5-point (120) and every rotation/swap/"
    "reversal of 9-point samples, dims (1,1),(2,1),(1,2); X/Y exchange; 16 affine recodings per "
    "coordinate pattern; every sequence of length <=3 over 2 objects x 3 data sets, and over 4 look-alike "
    "data sets of whole numbers (same shape, same X or Y, same values in another pairing) x (new arrays, refilled buffers)",
    "thorough": "as quick with all 720 permutations of 6 points and sequences up to length 4",
}
ASSUMPTIONS = [
    "samples are in general position, so that rounding in the standardisation cannot reorder distances "
    "or move a point across a bin edge"
]
NAMES = ["ksg", "ksg_slow", "ksg_mixed", "hist", "hist_raw", "kde", "kde_mixed", "cca"]


def make(name):
    from bmi import estimators as e

    return {
        "ksg": lambda: e.KSGEnsembleFirstEstimator(neighborhoods=(1, 3), chunk_size=2),
        "ksg_slow": lambda: e.KSGEnsembleFirstEstimatorSlow(neighborhoods=(1, 3)),
        "ksg_mixed": lambda: e.KSGEnsembleFirstEstimator(
            neighborhoods=(2,), metric_x="manhattan", metric_y="chebyshev", chunk_size=3
        ),
        "hist": lambda: e.HistogramEstimator(n_bins_x=2, n_bins_y=3),
        "hist_raw": lambda: e.HistogramEstimator(n_bins_x=3, standardize=False),
        "kde": lambda: e.KDEMutualInformationEstimator("gaussian"),
        "kde_mixed": lambda: e.KDEMutualInformationEstimator(
            "gaussian", "exponential", "gaussian", 0.8, 0.5, "silverman"
        ),
        "cca": lambda: e.CCAMutualInformationEstimator(),
    }[name]()


def raw(name):
    """A configuration which looks at the values as they are given (where there is a choice)."""
    from bmi import estimators as e

    return {
        "ksg": lambda: e.KSGEnsembleFirstEstimator(neighborhoods=(1, 3), chunk_size=2, standardize=False),
        "ksg_slow": lambda: e.KSGEnsembleFirstEstimatorSlow(neighborhoods=(1, 3), standardize=False),
        "hist": lambda: e.HistogramEstimator(n_bins_x=2, n_bins_y=3, standardize=False),
        "kde": lambda: e.KDEMutualInformationEstimator("gaussian", standardize=False),
        "kde_mixed": lambda: e.KDEMutualInformationEstimator(
            "gaussian", "exponential", "gaussian", 8.0, 5.0, 6.0, standardize=False
        ),
    }.get(name, lambda: make(name))()


def swapped(name):
    """The same configuration with the roles of X and Y exchanged."""
    from bmi import estimators as e

    return {
        "ksg_mixed": lambda: e.KSGEnsembleFirstEstimator(
            neighborhoods=(2,), metric_x="chebyshev", metric_y="manhattan", chunk_size=3
        ),
        "hist": lambda: e.HistogramEstimator(n_bins_x=3, n_bins_y=2),
        "kde_mixed": lambda: e.KDEMutualInformationEstimator(
            "gaussian", "gaussian", "exponential", 0.8, "silverman", 0.5
        ),
    }.get(name, lambda: make(name))()


def data(n, dims, salt=0):
    import numpy as np

    dx, dy = dims
    rng = np.random.default_rng([n, dx, dy, salt])  # fixed: independent of VERIF_SEED
    x = rng.normal(size=(n, dx))
    y = 0.8 * x[:, :1] * np.arange(1, dy + 1) + rng.normal(size=(n, dy))
    return x, y


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name in NAMES:
        for dims in ((1, 1), (2, 1), (1, 2)):
            if name == "cca" and dims == (2, 2):
                continue
            out.append({"part": "order", "est": name, "dims": dims, "n": 6 if deep else 5})
            out.append({"part": "order9", "est": name, "dims": dims})
            out.append({"part": "affine", "est": name, "dims": dims})
        out.append({"part": "forms", "est": name})
        out.append({"part": "histories", "est": name, "depth": 4 if deep else 3})
        out.append({"part": "lookalikes", "est": name, "depth": 4 if deep else 3})
    return out


def run(case, rep):
    import numpy as np

    part, name = case["part"], case["est"]
    tol = dict(rtol=1e-6, atol=1e-7)
    if part in ("order", "order9"):
        n = case.get("n", 9)
        for salt in range(3):
            x, y = data(n, case["dims"], salt)
            base = make(name).estimate(x, y)
            rep.outcome(round(float(base), 6))
            if part == "order":
                perms = itertools.permutations(range(n))
            else:
                ident = list(range(n))
                perms = [ident[::-1]] + [ident[r:] + ident[:r] for r in range(1, n)]
                for a, b in itertools.combinations(range(n), 2):
                    p = ident.copy()
                    p[a], p[b] = b, a
                    perms.append(p)
            est = make(name)
            for p in perms:
                p = list(p)
                rep.state()
                rep.trans()
                rep.close("order", est.estimate(x[p], y[p]), base, perm=p, dims=case["dims"], est=name, **tol)
            rep.trans(2)
            rep.close("exchange", swapped(name).estimate(y, x), base, dims=case["dims"], est=name, **tol)
            info = make(name).estimate_with_info(x, y)
            rep.close("with-info", info.mi_estimate, base, est=name, **tol)
            rep.trace()
    elif part == "affine":
        for n, salt in itertools.product((7, 12), range(3)):
            x, y = data(n, case["dims"], salt)
            base = make(name).estimate(x, y)
            for sx, tx, sy, ty in itertools.product((0.001, 40.0), (-5.0, 1000.0), (0.2, 300.0), (0.0, 77.0)):
                a = sx * np.arange(1, x.shape[1] + 1)
                b = sy * np.arange(1, y.shape[1] + 1)
                rep.state()
                rep.trans()
                rep.close("affine", make(name).estimate(x * a + tx, y * b + ty), base, est=name,
                          recode=(sx, tx, sy, ty), dims=case["dims"], n=n, **tol)
            # reflections: only exact symmetries of the method
            if not name.startswith("hist"):
                rep.trans(2)
                rep.close("reflect", make(name).estimate(-x, y), base, est=name, **tol)
                rep.close("reflect", make(name).estimate(x, -2 * y), base, est=name, **tol)
            rep.trace()
    elif part == "forms":
        import jax.numpy as jnp

        for dims in ((1, 1), (2, 1), (2, 2)):
            x, y = data(9, dims, 4)
            base = make(name).estimate(x, y)
            ro_x, ro_y = x.copy(), y.copy()
            ro_x.setflags(write=False)
            ro_y.setflags(write=False)
            wide = np.full((18, 5), np.nan)
            wide[::2, 1 : 1 + dims[0]] = x
            forms = {
                "list": (x.tolist(), y.tolist(), 1e-9),
                "readonly": (ro_x, ro_y, 1e-9),
                "fortran": (np.array(x, order="F"), np.array(y, order="F"), 1e-9),
                "view": (wide[::2, 1 : 1 + dims[0]], y, 1e-9),
                "jax": (jnp.asarray(x), jnp.asarray(y), 1e-3),
                "float32": (x.astype(np.float32), y.astype(np.float32), 1e-3),
            }
            for form, (a, b, t) in forms.items():
                ka, kb = np.array(a).copy(), np.array(b).copy()
                rep.state()
                rep.trans()
                got = make(name).estimate(a, b)
                rep.close("form", got, base, rtol=t, atol=t, form=form, est=name, dims=dims)
                rep.expect(
                    (np.array(a) == ka).all() and (np.array(b) == kb).all(), "input-mutated",
                    f"{name} changed its {form} input", est=name, form=form,
                )
            rep.trace()
    elif part == "lookalikes":
        # data sets which agree in everything cheap to compare (shape, sum, X, first and last rows,
        # multiset of values), given as new arrays or through one pair of buffers refilled in place
        # whole numbers: sums of permuted columns are equal to the last bit
        x, y = (np.round(4 * v) for v in data(12, (2, 1), 5))
        mid = list(range(12))
        mid[1:11] = [4, 1, 9, 2, 3, 7, 10, 5, 8, 6]
        sets = {"base": (x, y), "y-permuted": (x, y[mid]), "x-permuted": (x[mid], y),
                "y-other": (x, np.round(4 * data(12, (2, 1), 6)[1]))}
        for kind in (make, raw):
            lookalikes(rep, name, kind, sets, case["depth"])
    else:
        sets = {"A": data(6, (1, 1), 0), "B": data(9, (2, 1), 1), "C": data(7, (1, 2), 2)}
        other = {"ksg": "ksg_mixed", "ksg_mixed": "ksg", "hist": "hist_raw", "hist_raw": "hist",
                 "kde": "kde_mixed", "kde_mixed": "kde"}.get(name, name)
        kinds = [name, other]
        fresh = {(o, s): make(kinds[o]).estimate(*sets[s]) for o in (0, 1) for s in sets}
        params = [make(k).parameters().dict() for k in kinds]
        ops = list(itertools.product((0, 1), sets))
        for depth in range(2, case["depth"] + 1):
            for seq in itertools.product(ops, repeat=depth):
                objs = [make(k) for k in kinds]
                rep.state()
                for o, s in seq:
                    rep.trans()
                    rep.close("history", objs[o].estimate(*sets[s]), fresh[o, s], est=name, seq=seq,
                              rtol=1e-9, atol=1e-9)
                rep.expect([o.parameters().dict() for o in objs] == params, "history:params", seq=seq)
                rep.trace()


def lookalikes(rep, name, make, sets, depth):
    import numpy as np

    fresh = {k: make(name).estimate(a.copy(), b.copy()) for k, (a, b) in sets.items()}
    rep.expect(len({round(float(v), 9) for v in fresh.values()}) >= 2, "lookalikes:distinct", fresh=fresh)
    ops = list(itertools.product(sets, ("new", "buffer")))
    for length in range(2, depth + 1):
        for seq in itertools.product(ops, repeat=length):
            est = make(name)
            bx, by = np.empty_like(sets["base"][0]), np.empty_like(sets["base"][1])
            rep.state()
            for key, how in seq:
                a, b = sets[key]
                if how == "buffer":
                    bx[:], by[:] = a, b
                    a, b = bx, by
                rep.trans()
                rep.close("history", est.estimate(a, b), fresh[key], est=name, seq=seq, rtol=1e-9, atol=1e-9)
            rep.trace()
