"""P27: the Gaussian mixture estimator: stated model and prior, stated MCMC run, posterior draws turned into mixtures, average MI."""

import itertools
import math

PROPERTY = "P27"
BOUNDS = {
    "quick": "log density of the model for 1..3 components, 2..4 dimensions, 4 concentrations, 2 LKJ concentrations, 2 jitters, 3 data sets and 3 latent points "
    "each; every posterior draw to mixture conversion for 1..3 components and 4 dimension pairs; the estimator over a scripted posterior for every number "
    "of components, concentration, standardisation, warm-up/sample/thinning counts and sequences of <=3 operations; one real MCMC run",
    "thorough": "more latent points, sequences of <=4, three real MCMC runs",
}
ASSUMPTIONS = ["the sampler (NUTS) is trusted: only what it is given and what is made of its draws is judged", "single precision"]
ALPHAS = (None, 0.25, 1.0, 4.0)


def cases(tier):
    out = [{"part": "real", "i": i} for i in range(3 if tier == "thorough" else 1)]
    out += [{"part": "density", "k": k, "d": d} for k in (1, 2, 3) for d in (2, 3, 4)]
    out += [{"part": "mixture", "k": k, "dims": dims} for k in (1, 2, 3) for dims in ((1, 1), (2, 1), (1, 2), (2, 3))]
    out += [{"part": "config", "k": k, "std": s} for k in (3, 2, 1) for s in (True, False)]
    out.append({"part": "many"})
    out += [{"part": "history", "first": i, "depth": 4 if tier == "thorough" else 3} for i in range(len(OPS))]
    out += [{"part": "negative"}]
    return out


def correlation_factors(d, which):
    import numpy as np

    if which == 0:
        return np.eye(d)
    i = np.arange(d)
    r = (0.5 if which == 1 else -0.6) ** np.abs(i[:, None] - i[None, :])
    return np.linalg.cholesky(r)


def lkj_log_density(L, eta):
    """Density of the Cholesky factor with respect to its free entries (Lewandowski, Kurowicka and Joe, 2009)."""
    import numpy as np
    from scipy.special import gammaln

    d = len(L)
    log_c = sum(0.5 * k * math.log(math.pi) + gammaln(eta + 0.5 * (d - 1 - k)) - gammaln(eta + 0.5 * (d - 1)) for k in range(1, d))
    diag = np.log(np.diag(L))
    return float(2 * (eta - 1) * diag.sum() + sum((d - 1 - i) * diag[i] for i in range(1, d)) - log_c)


def part_density(case, rep):
    import jax.numpy as jnp
    import numpy as np
    from numpyro.infer.util import log_density
    from scipy import stats
    from scipy.special import logsumexp

    from bmi.estimators.external import gmm

    k, d = case["k"], case["d"]
    weights = [np.full(k, 1 / k), np.arange(1, k + 1) / (k * (k + 1) / 2)]
    for alpha, lkj, jitter in itertools.product(ALPHAS, (1.0, 2.5), (1e-3, 0.2)):
        for n, pi, which in itertools.product((1, 2, 5), weights, range(3 if rep.tier == "thorough" else 2)):
            data = np.sin(1.3 * np.arange(n * d).reshape(n, d)) * 2
            mu = np.cos(0.7 * np.arange(k * d)).reshape(k, d)
            tau = 0.5 + 0.25 * np.arange(k * d).reshape(k, d) % 1.7
            Ls = np.stack([correlation_factors(d, (which + c) % 3) for c in range(k)])
            kw = dict(K=k)
            if alpha is not None or n == 2:
                kw["alpha"] = alpha
            if lkj != 1.0 or n == 2:
                kw["lkj_conc"] = lkj
            if jitter != 1e-3 or n == 2:
                kw["jitter"] = jitter
            params = {"pi": jnp.asarray(pi), "mu": jnp.asarray(mu), "tau": jnp.asarray(tau.T), "L_omega": jnp.asarray(Ls)}
            got, trace = log_density(gmm.model, (jnp.asarray(data),), kw, params)
            a = 1 / k if alpha is None else alpha
            scaled = tau[:, :, None] * Ls + jitter * np.eye(d)
            cov = scaled @ scaled.transpose(0, 2, 1)
            want = stats.dirichlet.logpdf(pi, np.full(k, a)) if k > 1 else 0.0
            want += stats.norm(0, 3).logpdf(mu).sum() + stats.halfcauchy.logpdf(tau).sum() + sum(lkj_log_density(L, lkj) for L in Ls)
            want += logsumexp([math.log(p) + np.atleast_1d(stats.multivariate_normal(m, c).logpdf(data)) for p, m, c in zip(pi, mu, cov)], axis=0).sum()
            rep.state()
            rep.trans()
            rep.trace()
            rep.close("density", float(got), want, rtol=2e-4, atol=2e-3, alpha=alpha, lkj=lkj, jitter=jitter, n=n, which=which)
            shapes = {s: tuple(trace[s]["value"].shape) for s in ("pi", "mu", "cov")}
            rep.expect(shapes == {"pi": (k,), "mu": (k, d), "cov": (k, d, d)}, "shapes", str(shapes))
            rep.close("cov", trace["cov"]["value"], cov, rtol=1e-4, atol=1e-5)
            rep.outcome((alpha, lkj, jitter, n, which, round(want, 5)))


def draw(k, d, i):
    """The i-th scripted posterior draw: (proportions, means, covariances)."""
    import numpy as np

    pi = (1.0 + (np.arange(k) * (i + 1)) % 3)
    pi = pi / pi.sum()
    mu = np.sin(np.arange(k * d).reshape(k, d) * (i + 1)) * 3
    covs = []
    for c in range(k):
        L = correlation_factors(d, (i + c) % 3) * (0.5 + 0.3 * ((i + np.arange(d)) % 3))[:, None]
        covs.append(L @ L.T)
    return pi, mu, np.stack(covs)


def part_mixture(case, rep):
    import jax.numpy as jnp
    import numpy as np
    from scipy import stats
    from scipy.special import logsumexp

    from bmi.estimators.external import gmm

    k, (dx, dy) = case["k"], case["dims"]
    d = dx + dy
    for i in range(6):
        pi, mu, cov = draw(k, d, i)
        J = [jnp.asarray(v) for v in (mu, cov, pi)]
        dist = gmm.sample_into_bmm_distribution(means=J[0], covariances=J[1], proportions=J[2], dim_x=dx, dim_y=dy)
        rep.state()
        rep.expect((dist.dim_x, dist.dim_y) == (dx, dy), "mixture:dims", f"{dist.dim_x}, {dist.dim_y}")
        pts = np.cos(1.1 * np.arange(7 * d).reshape(7, d)) * 3
        for what, fn, arg, sl in (
            ("joint", dist.dist_joint, pts, slice(0, d)), ("x", dist.dist_x, pts[:, :dx], slice(0, dx)), ("y", dist.dist_y, pts[:, dx:], slice(dx, d)),
        ):
            want = logsumexp([math.log(p) + np.atleast_1d(stats.multivariate_normal(m[sl], c[sl, sl]).logpdf(arg)) for p, m, c in zip(pi, mu, cov)], axis=0)
            rep.trans()
            rep.close(f"mixture:{what}", np.asarray(fn.log_prob(jnp.asarray(arg))), want, rtol=2e-3, atol=2e-3, i=i)
        rep.outcome((k, dx, dy, i))
        for bad in ((J[0][:, 1:], J[1], J[2], dx, dy), (J[0], J[1][:, 1:], J[2], dx, dy), (J[0], J[1], J[2], dx + 1, dy), (J[0], J[1], jnp.ones(k + 1) / (k + 1), dx, dy)):
            rep.trans()
            rep.raises("mixture:refused", lambda: gmm.sample_into_bmm_distribution(means=bad[0], covariances=bad[1], proportions=bad[2], dim_x=bad[3], dim_y=bad[4]))
    rep.trace()


# -- the estimator over a scripted posterior ----------------------------------

RHOS = (0.0, 0.85, 0.98, 0.9995)


def scripted(runs, k=1, dims=(1, 1)):
    """Stands in for numpyro's MCMC: records what it is asked and returns the scripted draws (one Gaussian correlation per draw)."""
    import jax.numpy as jnp
    import numpy as np

    class Kernel:
        def __init__(self, model, *a, **kw):
            self.model, self.args = model, (a, kw)

    class Chain:
        def __init__(self, sampler, *, num_warmup, num_samples, num_chains=1, **kw):
            self.kernel, self.num_warmup, self.num_samples, self.num_chains = sampler, num_warmup, num_samples, num_chains

        def run(self, rng_key, *args, **kw):
            runs.append({"chain": self, "key": tuple(int(v) for v in rng_key), "args": args, "kw": kw})

        def get_samples(self, *a, **kw):
            n = self.num_samples
            d = sum(dims)
            cov = np.tile(np.eye(d), (n, k, 1, 1))
            for i in range(n):
                cov[i, :, 0, d - 1] = cov[i, :, d - 1, 0] = RHOS[i % len(RHOS)]
            return {"pi": jnp.full((n, k), 1.0 / k), "mu": jnp.zeros((n, k, d)), "cov": jnp.asarray(cov)}

    return Kernel, Chain


class patched:
    def __init__(self, kernel, chain):
        self.new = {"NUTS": kernel, "MCMC": chain}

    def __enter__(self):
        import numpyro.infer

        from bmi.estimators.external import gmm

        self.old = []
        for mod in (gmm, numpyro.infer):
            for name, v in self.new.items():
                if hasattr(mod, name):
                    self.old.append((mod, name, getattr(mod, name)))
                    setattr(mod, name, v)
        return gmm

    def __exit__(self, *exc):
        for mod, name, v in self.old:
            setattr(mod, name, v)


def which_draw(mi):
    """Index of the scripted correlation whose MI this is (they are far apart compared with the Monte Carlo error)."""
    exact = [-0.5 * math.log1p(-r * r) for r in RHOS]
    best = min(range(len(RHOS)), key=lambda i: abs(exact[i] - mi))
    return best if abs(exact[best] - mi) < 0.35 else None


def model_density(fn, data, kw, args=()):
    """Value of the given model at a fixed latent point (so that a wrapped or partially applied model is judged by its meaning)."""
    import jax.numpy as jnp
    import numpy as np
    from numpyro.infer.util import log_density

    k, d = kw.get("K", 10), np.shape(data)[1]
    pi, mu, _ = draw(k, d, 1)
    params = {"pi": jnp.asarray(pi), "mu": jnp.asarray(mu), "tau": jnp.ones((d, k)), "L_omega": jnp.asarray(np.stack([np.eye(d)] * k))}
    return float(log_density(fn, args, {**kw, "data": data} if not args else kw, params)[0])


def part_many(case, rep):
    """A long posterior: every one of the draws asked for counts, once, whatever their number."""
    import jax
    import numpy as np

    x, y = np.arange(6.0)[:, None], np.array([[1.0], [2.0], [0.0], [4.0], [1.5], [-1.0]])
    for num, thin in ((5, None), (130, None), (130, 129), (1100, None), (1100, 600), (1100, 7)):
        runs, asked = [], []
        with patched(*scripted(runs, 1)) as gmm:
            e = gmm.GMMEstimator(key=3, n_components=1, mcmc_num_warmup=1, mcmc_num_samples=num, mi_estimate_num_samples=20, n_thinned_samples=thin)
            e.get_sample_mi = lambda idx, *a, **k: asked.append(int(idx)) or float(int(idx) % 97)  # quick stand-in; asked stays empty if not used
            mis = np.asarray(e.get_posterior_mi(x, y))
            first = list(asked)
            del asked[:]
            e.key = jax.random.PRNGKey(3)
            value = float(e.estimate(x, y))
        n = num if thin is None else thin
        d = dict(num=num, thin=thin)
        rep.state(n)
        rep.trans(2)
        rep.expect(len(mis) == n, "many:count", f"{len(mis)} of {len(first)}", **d)
        if not first:
            continue
        rep.expect(len(first) == n, "many:asked", f"{len(first)}", **d)
        rep.expect(len(set(first)) == len(first) and set(first) <= set(range(num)), "many:draws", "", **d)
        if len(mis) == n == len(first):
            rep.close("many:values", mis, [i % 97 for i in first], **d)
        rep.close("many:mean", value, float(np.mean([i % 97 for i in asked])), rtol=1e-5, **d)
        rep.expect(len(asked) == n and len(set(asked)) == n, "many:estimate", f"{len(asked)}", **d)
        rep.outcome((num, thin, value))
    rep.trace()


def part_config(case, rep):
    import numpy as np

    k, std = case["k"], case["std"]
    x = np.array([[0.0], [1.0], [5.0], [2.0], [-3.0], [0.5], [7.0]])
    y = np.array([[1.0], [2.0], [0.0], [4.0], [1.5], [-1.0], [3.0]]) * 3 + 1
    norm = lambda v: (v - v.mean(0)) / v.std(0)
    data = np.hstack([norm(x), norm(y)] if std else [x, y])
    # thinning counts stay below the number of distinct scripted draws, so a repeated draw is recognised
    for alpha, (warm, num), thin, mc, key in itertools.product(ALPHAS, ((3, 2), (7, 4), (1, 1)), (None, 1, 3), (200,), (0, 5)):
        if (thin is not None and thin > num) or (key and not (alpha is None and num == 4)):
            continue
        runs = []
        with patched(*scripted(runs, k)) as gmm:
            make = lambda: gmm.GMMEstimator(
                key=key, n_components=k, alpha=alpha, standardize=std, mcmc_num_warmup=warm, mcmc_num_samples=num, mi_estimate_num_samples=mc,
                n_thinned_samples=thin)
            e = make()
            p = e.parameters().dict()
            want = dict(standardize=std, n_components=k, alpha=alpha, mcmc_num_warmup=warm, mcmc_num_samples=num, mi_estimate_num_samples=mc,
                        n_thinned_samples=num if thin is None else thin)
            rep.state()
            rep.expect({a: p.get(a) for a in want} == want, "config:parameters", f"{p}")
            mis = np.asarray(e.get_posterior_mi(x, y))
            rep.trans(2)
            d = dict(alpha=alpha, warm=warm, num=num, thin=thin, key=key)
            rep.expect(len(runs) == 1, "config:runs", f"{len(runs)}", **d)
            c = runs[0]["chain"]
            rep.expect((c.num_warmup, c.num_samples, c.num_chains) == (warm, num, 1), "config:mcmc", f"{c.num_warmup}, {c.num_samples}, {c.num_chains}", **d)
            args, kw = runs[0]["args"], dict(runs[0]["kw"])
            seen = kw.pop("data") if "data" in kw else args[0]
            rep.close("config:data", seen, data, rtol=1e-6, atol=1e-6, **d)
            # what the sampler is given means the stated prior
            ref_kw = dict(K=k, alpha=1 / k if alpha is None else alpha)
            got = model_density(c.kernel.model, seen, {**kw}, args[1:] and args or ())
            rep.close("config:model", got, model_density(gmm.model, data, ref_kw), rtol=1e-4, atol=1e-3, **d)
            used = [which_draw(float(m)) for m in mis]
            n_used = num if thin is None else thin
            rep.expect(len(mis) == n_used, "thinning:count", f"{len(mis)}", **d)
            rep.expect(None not in used and len(set(used)) == len(used) and all(u < num for u in used if u is not None), "thinning:draws", f"{used}", **d)
            twin = make()
            value = twin.estimate(x, y)
            rep.close("estimate:mean", float(value), float(mis.mean()), rtol=1e-5, atol=1e-6, **d)
            rep.expect(runs[1]["key"] == runs[0]["key"], "estimate:key", "", **d)
            rep.trace()
            rep.outcome((k, std, alpha, warm, num, thin, key, round(float(value), 4)))
            if thin is not None or alpha == 1.0:
                continue
            over = make()
            one = np.asarray(over.get_posterior_mi(x, y, n_thinned_samples=1))
            rep.expect(one.shape == (1,), "thinning:override", f"{one.shape}", **d)
            rep.close("estimate:override", float(make().estimate(x, y, n_thinned_samples=1)), float(one[0]), rtol=1e-5, atol=1e-6, **d)
            info = make().estimate_with_info(x, y)
            rep.close("estimate:info", float(info.mi_estimate), float(value), rtol=1e-5, atol=1e-6, **d)
            rep.trans(4)


OPS = ("run", "estimate", "posterior", "sample0", "sample2", "keyed", "dist")


def part_history(case, rep):
    """Sequences of operations: draws belong to the last run, keys are never reused, an unfitted estimator refuses."""
    import jax
    import numpy as np

    data = {"a": (np.linspace(-1, 1, 6)[:, None], np.cos(np.arange(6.0))[:, None]), "b": (np.linspace(0, 5, 8)[:, None], np.sin(np.arange(16.0)).reshape(8, 2))}
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        seq = (OPS[case["first"]], *rest)
        for order in ("ab",):
            runs = []
            holder = {"dims": (1, 1)}
            kernel, chain = scripted(runs)

            class Chain(chain):
                def run(self, rng_key, *args, **kw):
                    super().run(rng_key, *args, **kw)
                    self.d = np.shape(kw["data"] if "data" in kw else args[0])[1]

                def get_samples(self, *a, **kw):
                    return scripted([], 1, (1, self.d - 1))[1].get_samples(self)

            with patched(kernel, Chain) as gmm:
                e = gmm.GMMEstimator(key=3, n_components=1, mcmc_num_samples=3, mcmc_num_warmup=2, mi_estimate_num_samples=120)
                fitted, values, keyed = None, [], []
                for i, op in enumerate(seq):
                    which = order[i % 2]
                    rep.trans()
                    if op in ("run", "estimate", "posterior"):
                        out = {"run": e.run_mcmc, "estimate": e.estimate, "posterior": e.get_posterior_mi}[op](*data[which])
                        fitted = which
                        if op == "posterior":
                            rep.expect(sorted(which_draw(float(m)) for m in out) == [0, 1, 2], "history:draws", f"{seq}: {np.asarray(out)}")
                    elif fitted is None:
                        rep.raises("history:unfitted", {"dist": lambda: e.get_bmm_distribution(0)}.get(op, lambda: e.get_sample_mi(0)), exc=(ValueError,), msg=str(seq))
                    elif op == "dist":
                        dist = e.get_bmm_distribution(1)
                        rep.expect((dist.dim_x, dist.dim_y) == (1, 1 if fitted == "a" else 2), "history:dims", f"{seq}: {dist.dim_x}, {dist.dim_y}")
                    else:
                        idx = {"sample0": 0, "sample2": 2, "keyed": 2}[op]
                        mi = float(e.get_sample_mi(idx, mc_samples=150, key=jax.random.PRNGKey(9)) if op == "keyed" else e.get_sample_mi(idx))
                        rep.expect(which_draw(mi) == idx, "history:index", f"{seq}: {mi}")
                        (keyed if op == "keyed" else values).append((idx, fitted, mi))
                rep.state()
                # without a key every request is a new Monte Carlo estimate; with the same key the same one
                fresh = [v for v in values if v[0] == 2]
                rep.expect(len(set(fresh)) == len(fresh), "history:fresh", f"{seq}: {fresh}")
                rep.expect(len({v for v in keyed if v[1] == "a"}) <= 1 and len({v for v in keyed if v[1] == "b"}) <= 1, "history:keyed", f"{seq}: {keyed}")
                keys = [r["key"] for r in runs]
                rep.expect(len(set(keys)) == len(keys), "history:mcmc-key", f"{seq}: {keys}")
                rep.outcome((seq, order, fitted, len(runs)))
            rep.trace()


def part_real(case, rep):
    """A short real run: draws have the stated shapes, the value is reproducible and is that of the draws."""
    import numpy as np

    from bmi.estimators.external.gmm import GMMEstimator

    rng = np.random.default_rng(case["i"])
    x = rng.normal(size=(12, 1))
    y = x + 0.5 * rng.normal(size=(12, 1))
    kw = dict(key=case["i"], n_components=1 + case["i"], mcmc_num_warmup=15, mcmc_num_samples=6, mi_estimate_num_samples=50, n_thinned_samples=3)
    a, b = GMMEstimator(**kw), GMMEstimator(**kw)
    va, vb = float(a.estimate(x, y)), float(b.estimate(x, y))
    rep.state()
    rep.trans(2)
    rep.expect(math.isfinite(va) and va == vb, "real:reproducible", f"{va}, {vb}")
    for i in range(6):
        dist = a.get_bmm_distribution(i)
        rep.expect((dist.dim_x, dist.dim_y) == (1, 1) and np.isfinite(np.asarray(dist.dist_joint.log_prob(np.zeros((1, 2), np.float32)))).all(), "real:draw", str(i))
    rep.trace()
    rep.outcome(va)


def part_negative(case, rep):
    """Monte Carlo values of single draws may be negative: they are kept, since cutting them off would bias the average."""
    import numpy as np

    x, y = np.linspace(-1, 1, 6)[:, None], np.cos(np.arange(6.0))[:, None]
    for rho, mc in ((0.2, 2), (0.3, 4), (0.05, 3)):
        runs = []
        kernel, chain = scripted(runs)
        with patched(kernel, chain) as gmm:
            import jax.numpy as jnp

            class Weak(chain):
                def get_samples(self, *a, **kw):
                    out = dict(super().get_samples())
                    out["cov"] = jnp.broadcast_to(jnp.asarray([[1.0, rho], [rho, 1.0]]), out["cov"].shape)
                    return out

            gmm.MCMC = Weak
            make = lambda: gmm.GMMEstimator(key=1, n_components=1, mcmc_num_samples=40, mcmc_num_warmup=1, mi_estimate_num_samples=mc)
            mis = np.asarray(make().get_posterior_mi(x, y))
            rep.state()
            rep.trans(2)
            # each of the 40 independent values is negative with probability about one half
            rep.expect(mis.shape == (40,) and (mis < 0).sum() >= 3 and (mis > 0).sum() >= 3 and len(set(mis.tolist())) > 30, "negative:draws", f"{mis}", rho=rho)
            rep.close("negative:mean", float(make().estimate(x, y)), float(mis.mean()), rtol=1e-4, atol=1e-6, rho=rho)
            rep.outcome((rho, mc, round(float(mis.mean()), 5)))
    rep.trace()


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
