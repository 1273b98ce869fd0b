"""P18: the covariance constructors build the covariance of the model they describe."""

import itertools
import math

PROPERTY = "P18"
BOUNDS = {
    "quick": "latent-variable models: dims 1..4 x 1..4 x every number of interacting pairs x 36 weight assignments (defaults, "
    "zeros, X/Y-specific weights); correlation matrices: dims 1..4 x 1..5 x every k x 27 correlations; canonical: 1..4 correlations",
    "thorough": "dims up to 7",
}
ASSUMPTIONS = []


def cases(tier):
    top = 7 if tier == "thorough" else 4
    out = [{"part": "lvm", "dims": (a, b)} for a in range(1, top + 1) for b in range(1, top + 1)]
    out += [{"part": "matrix", "dims": (a, b)} for a in range(1, top + 1) for b in range(1, top + 2)]
    out += [{"part": "canonical"}]
    return out


def reference(dx, dy, k, alpha, lambd, ex, ey, bx, by, hx, hy):
    """Columns of the generative model, one latent variable after another."""
    import numpy as np

    n = dx + dy
    cols = []

    def latent(weights):
        c = np.zeros(n)
        for i, w in weights.items():
            c[i] = w
        cols.append(c)

    latent({i: alpha for i in range(n)})
    latent({i: bx for i in range(dx)})
    latent({dx + j: by for j in range(dy)})
    for i in range(k):
        latent({i: lambd, dx + i: lambd})
    for i in range(dx):
        latent({i: ex})
    for j in range(dy):
        latent({dx + j: ey})
    for i in range(k, dx):
        latent({i: hx})
    for j in range(k, dy):
        latent({dx + j: hy})
    return np.array(cols).T


def run(case, rep):
    import numpy as np
    import bmi.samplers as s

    if case["part"] == "canonical":
        for k in (1, 2, 3, 4):
            for rho in itertools.product((-0.5, 0.0, 0.9), repeat=k):
                for extra in range(4):
                    rep.state()
                    rep.trans()
                    want = np.eye(2 * k + extra)
                    for i, r in enumerate(rho):
                        want[i, k + i] = want[k + i, i] = r
                    rep.close("canonical", s.canonical_correlation(list(rho), additional_y=extra), want, rho=rho, extra=extra)
                    rep.close("canonical:array", s.canonical_correlation(np.array(rho), extra), want)
                    rep.outcome((rho, extra))
            rep.close("canonical:default", s.canonical_correlation([0.3] * k), s.canonical_correlation([0.3] * k, additional_y=0))
        rep.trace()
        return

    dx, dy = case["dims"]
    if case["part"] == "matrix":
        for k in range(1, min(dx, dy) + 1):
            for c, cx, cy in itertools.product((-0.5, 0.0, 0.8), (0.0, 0.25, -1.0), (0.0, 0.4, 1.0)):
                rep.state()
                rep.trans()
                want = np.zeros((dx + dy, dx + dy))
                for i, j in itertools.product(range(dx + dy), repeat=2):
                    if i == j:
                        v = 1.0
                    elif i < dx and j < dx:
                        v = cx
                    elif i >= dx and j >= dx:
                        v = cy
                    else:
                        v = c if abs(i - j) == dx and min(i, j) < k else 0.0
                    want[i, j] = v
                got = s.parametrised_correlation_matrix(dx, dy, k=k, correlation=c, correlation_x=cx, correlation_y=cy)
                rep.close("matrix", got, want, dims=(dx, dy), k=k, correlations=(c, cx, cy))
                rep.outcome((k, c, cx, cy))
        d = np.eye(dx + dy)
        d[0, dx] = d[dx, 0] = 0.5
        rep.close("matrix:defaults", s.parametrised_correlation_matrix(dx, dy), d)
        rep.trace()
        return

    weights = [
        dict(alpha=0.0, lambd=0.0), dict(alpha=0.5, lambd=2.0), dict(alpha=-0.5, lambd=1.0), dict(alpha=1.5, lambd=0.0),
        dict(alpha=0.0, lambd=0.7),
    ]
    noise = [{}, dict(epsilon_x=0.5), dict(epsilon_x=0.5, epsilon_y=2.0), dict(epsilon_y=0.25), dict(epsilon_x=2.0, epsilon_y=0.0)]
    dense = [{}, dict(beta_x=0.3), dict(beta_x=0.3, beta_y=0.9), dict(beta_y=0.6), dict(beta_x=0.4, beta_y=0.0)]
    extra = [{}, dict(eta_x=0.8), dict(eta_x=0.8, eta_y=1.6), dict(eta_y=0.4), dict(eta_x=0.6, eta_y=0.0)]
    for k in range(min(dx, dy) + 1):
        for w, e, b, h in itertools.product(weights, noise, dense, extra):
            if sum(map(bool, (e, b, h))) == 3 and (len(e) + len(b) + len(h)) % 2:
                continue
            kw = {**w, **e, **b, **h}
            rep.state()
            rep.trans(4)
            p = s.GaussianLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=k, **kw)
            ex = e.get("epsilon_x", 1.0)
            bx, hx = b.get("beta_x", 0.0), h.get("eta_x", 0.0)
            a = reference(dx, dy, k, kw["alpha"], kw["lambd"], ex, e.get("epsilon_y", ex), bx, b.get("beta_y", bx), hx, h.get("eta_y", hx))
            want = a @ a.T
            d = dict(dims=(dx, dy), k=k, weights=kw)
            rep.close("lvm:covariance", p.covariance, want, **d)
            rep.expect(p.mixing.shape == (dx + dy, p.n_latent) == a.shape, "lvm:shape", f"{p.mixing.shape}, {p.n_latent}", **d)
            rep.close("lvm:mixing", p.mixing, a, **d)
            rep.expect(len(p.latent_variable_labels) == p.n_latent and len(set(p.latent_variable_labels)) == p.n_latent, "lvm:labels",
                       f"{p.latent_variable_labels}", **d)
            rep.expect(len(set(p.xy_labels)) == dx + dy and all(("X" in v) == (i < dx) for i, v in enumerate(p.xy_labels)), "lvm:xy-labels")
            v = np.diag(want)
            if (v > 0).all():
                rep.close("lvm:correlation", p.correlation, want / np.sqrt(np.outer(v, v)), **d)
                rep.close("lvm:unit-diagonal", np.diag(p.correlation), np.ones(dx + dy))
            rep.outcome(round(float(want.sum()), 6))
        labels = [v.strip("$") for v in p.latent_variable_labels]
        # a label names the coordinates its column touches
        for name, col in zip(labels, s.GaussianLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=k, alpha=1, lambd=1, beta_x=1, eta_x=1).mixing.T):
            head, _, idx = name.partition("_")
            touched = set(np.nonzero(col)[0])
            if idx.strip("{}").isdigit():
                i = int(idx.strip("{}")) - 1
                expect = {"Z": {i, dx + i}, "E": {i}, "V": {i}, "F": {dx + i}, "W": {dx + i}}[head]
                rep.expect(touched == expect, "lvm:label-meaning", f"{name} touches {touched}", dims=(dx, dy), k=k)
    for alpha, eps in itertools.product((0.0, 0.5, 2.0), (0.5, 1.0)):
        p = s.DenseLVMParametrization(dim_x=dx, dim_y=dy, alpha=alpha, epsilon=eps)
        c = p.correlation
        off = c[~np.eye(dx + dy, dtype=bool)]
        rep.close("dense", off, np.full(off.shape, alpha**2 / (alpha**2 + eps**2)))
        rep.close("dense:strength", p.correlation_strength, alpha**2 / (alpha**2 + eps**2))
        rep.state()
        rep.trans()
    for k in range(1, min(dx, dy) + 1):
        for beta, lambd, eps, eta in itertools.product((0.0, 0.6), (0.5, 2.0, 0.0), (0.5, 1.0), (None, 0.3, 0.0, -0.7)):
            rep.state()
            rep.trans()
            p = s.SparseLVMParametrization(dim_x=dx, dim_y=dy, n_interacting=k, beta=beta, lambd=lambd, epsilon=eps, eta=eta)
            h = lambd if eta is None else eta
            a = reference(dx, dy, k, 0.0, lambd, eps, eps, beta, beta, h, h)
            rep.close("sparse:covariance", p.covariance, a @ a.T, k=k)
            rep.close("sparse:correlation", p.correlation_interacting, p.correlation[0, dx], k=k)
            if eta is None:
                rep.close("sparse:equal-variances", np.diag(p.covariance), np.full(dx + dy, beta**2 + eps**2 + lambd**2))
            for i, j in itertools.product(range(dx), range(dy)):
                if i != j or i >= k:
                    rep.expect(p.correlation[i, dx + j] == 0, "sparse:others", f"{i},{j}")
    rep.trace()
