"""P10: MINE: value, moving-average-corrected gradient, pairing and evaluation."""

import itertools
import math

PROPERTY = "P10"
BOUNDS = {
    "quick": "gradient formula on every 2x2 score table over 4 values x 4 previous denominators x 3 alphas and every "
    "permutation of 3 points; training: up to 6 steps x 4 alphas x 3 learning rates against a reference optimiser; "
    "all admissible resamplings of 3 points (6 full, 36 mini-batch) over 24 keys",
    "thorough": "as quick with 3x3 tables over 3 values, 12 steps and 96 keys",
}
ASSUMPTIONS = ["Adam with optax's default constants (0.9, 0.999, 1e-8)",
               "running denominator = alpha * previous + (1 - alpha) * current, starting from zero"]


def cases(tier):
    deep = tier == "thorough"
    out = [{"part": "gradient", "n": 2, "alphabet": [-45.0, -2.0, 0.0, 1.0, 30.0], "alpha": a} for a in (0.1, 0.5, 0.9)]
    if deep:
        out += [{"part": "gradient", "n": 3, "alphabet": [-1.0, 0.0, 2.0], "alpha": a} for a in (0.1, 0.9)]
    for alpha in (0.05, 0.5, 0.9, 0.99):
        for lr in (0.01, 0.1, 1.0):
            out.append({"part": "training", "alpha": alpha, "lr": lr, "steps": 12 if deep else 6})
    for batch in (None, 2, 3, 1):
        for k in range(4):
            out.append({"part": "resampling", "batch": batch, "keys": list(range(k, 96 if deep else 24, 4))})
    out.append({"part": "coverage", "keys": 96 if deep else 40})
    for n, batch in ((3, 2), (4, 2), (4, 3), (5, 2)) + (((5, 4), (6, 2), (6, 3)) if deep else ()):
        out.append({"part": "independent", "n": n, "batch": batch, "keys": 48 if deep else 20})
    for batch, m in ((4, 60), (None, 48), (32, 33), (2, 101)):
        out.append({"part": "heldout", "batch": batch, "m": m, "keys": 60 if deep else 16})
    for est in ("MINEEstimator", "InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator"):
        out.append({"part": "wiring", "est": est})
    return out


def lme(v):
    m = max(v)
    return m + math.log(sum(math.exp(a - m) for a in v) / len(v))


def ref_step(scores_p, scores_u, prev, alpha):
    """value, weights of the unpaired gradient, log denominator."""
    val = sum(scores_p) / len(scores_p) - lme(scores_u)
    batch = lme(scores_u)
    a, b = math.log(alpha) + prev, math.log(1 - alpha) + batch
    m = max(a, b)
    denom = m + math.log(math.exp(a - m) + math.exp(b - m))
    corr = math.exp(batch - denom)
    mx = max(scores_u)
    ex = [math.exp(s - mx) for s in scores_u]
    return val, [corr * e / sum(ex) for e in ex], denom


class Adam:
    def __init__(self, shape, lr):
        import numpy as np

        self.m, self.v, self.t, self.lr = np.zeros(shape), np.zeros(shape), 0, lr

    def copy(self):
        import copy

        return copy.deepcopy(self)

    def update(self, w, g):
        import numpy as np

        self.t += 1
        self.m = 0.9 * self.m + 0.1 * g
        self.v = 0.999 * self.v + 0.001 * g * g
        mh, vh = self.m / (1 - 0.9**self.t), self.v / (1 - 0.999**self.t)
        return w - self.lr * mh / (np.sqrt(vh) + 1e-8)


def table_critic(w):
    import equinox as eqx
    import jax.numpy as jnp

    class Table(eqx.Module):
        w: object

        def __call__(self, x, y):
            return self.w[x[0].astype(jnp.int32), y[0].astype(jnp.int32)]

    return Table(jnp.asarray(w, dtype=jnp.float32))


def step_model(W, opt, prev, alpha, xi, yp, yu):
    """One optimisation step of the reference on the table W; returns (W', opt', denom)."""
    import numpy as np

    sp = [W[a, b] for a, b in zip(xi, yp)]
    su = [W[a, b] for a, b in zip(xi, yu)]
    _, wu, denom = ref_step(sp, su, prev, alpha)
    g = np.zeros_like(W)
    for (a, b), c in zip(zip(xi, yu), wu):
        g[a, b] += c
    for a, b in zip(xi, yp):
        g[a, b] -= 1 / len(xi)
    opt = opt.copy()
    return opt.update(W, g), opt, denom


W3 = [[0.3, -0.7, 1.1], [0.9, 0.2, -0.4], [-1.3, 0.6, 0.05]]


def run(case, rep):
    import numpy as np

    part = case["part"]
    if part == "gradient":
        gradient(rep, case)
    elif part == "training":
        training(rep, case)
    elif part == "resampling":
        resampling(rep, case)
    elif part == "coverage":
        coverage(rep, case["keys"])
    elif part == "independent":
        independent(rep, case)
    elif part == "heldout":
        heldout(rep, case)
    else:
        wiring(rep, case["est"])


def names(fn):
    import inspect

    return set(inspect.signature(fn).parameters)


def gradient(rep, case):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import bmi.estimators.neural._mine_estimator as mine

    fn = getattr(mine, "_mine_value_neg_grad_log_denom", None)
    value_fn = getattr(mine, "_mine_value", None)
    if fn is None or value_fn is None or not (
        names(fn) == {"f", "xs", "ys_paired", "ys_unpaired", "log_denom_prev", "alpha"} and names(value_fn) == {"f", "xs", "ys_paired", "ys_unpaired"}
    ):
        # helpers of the module, which may be reorganised: the trajectories below decide then
        rep.count("seam_absent")
        return
    n, alpha = case["n"], case["alpha"]
    tables = np.array(list(itertools.product(case["alphabet"], repeat=n * n))).reshape(-1, n, n)
    proto = table_critic(np.zeros((n, n)))
    xs = jnp.arange(n, dtype=jnp.float32)[:, None]

    def one(T, yp, yu, prev):
        import equinox as eqx

        f = eqx.tree_at(lambda m: m.w, proto, T)
        v, g, d = fn(f=f, xs=xs, ys_paired=yp, ys_unpaired=yu, log_denom_prev=prev, alpha=alpha)
        return v, g.w, d, value_fn(f=f, xs=xs, ys_paired=yp, ys_unpaired=yu)

    run_ = jax.jit(jax.vmap(one, in_axes=(0, None, None, None)))
    for perm in itertools.permutations(range(n)):
        for prev in (-math.inf, -3.0, 0.0, 4.0):
            yp = xs
            yu = jnp.asarray(perm, dtype=jnp.float32)[:, None]
            v, g, d, pv = (np.asarray(a, float) for a in run_(jnp.asarray(tables, jnp.float32), yp, yu, prev))
            rep.trans(len(tables))
            rep.state(len(tables))
            for k, T in enumerate(tables):
                wv, wu, wd = ref_step([T[i, i] for i in range(n)], [T[i, perm[i]] for i in range(n)], prev, alpha)
                wg = np.zeros((n, n))
                for i in range(n):
                    wg[i, perm[i]] += wu[i]
                    wg[i, i] -= 1 / n
                ok = (
                    abs(v[k] - wv) < 1e-4 + 1e-5 * abs(wv) and abs(pv[k] - wv) < 1e-4 + 1e-5 * abs(wv)
                    and abs(d[k] - wd) < 1e-4 + 1e-5 * abs(wd)
                    and np.allclose(g[k], wg, rtol=1e-3, atol=1e-4 * max(1, np.abs(wg).max()))
                )
                if not ok:
                    rep.fail("gradient", f"got value {v[k]}/{pv[k]}, log denominator {d[k]}, gradient {g[k].tolist()}; "
                             f"expected {wv}, {wd}, {wg.tolist()}", table=T, perm=perm, prev=prev, alpha=alpha)
                if k % 37 == 0:
                    rep.outcome((round(wv, 4), round(wd, 4)))
            rep.trace()


def call(critic, xs, ys, key, alpha, lr, steps, every, batch, early=False, xt=None, yt=None):
    import jax
    from bmi.estimators.neural._mine_estimator import mine_training

    return mine_training(
        rng=jax.random.PRNGKey(key), critic=critic, xs=xs, ys=ys, xs_test=xt, ys_test=yt, alpha=alpha,
        batch_size=batch, test_every_n_steps=every, max_n_steps=steps, early_stopping=early, learning_rate=lr,
        verbose=False,
    )


def training(rep, case):
    """Score depends on y only, so the (random) re-pairing cannot matter: the whole trajectory is
    determined and is compared with a reference implementation including the optimiser."""
    import jax.numpy as jnp
    import numpy as np

    alpha, lr, steps = case["alpha"], case["lr"], case["steps"]
    for ids, yw in (((0, 1, 2), (0.2, -0.5, 1.0)), ((0, 0, 1), (0.0, 1.5, 0.0)), ((0, 1, 1, 2), (2.0, -3.0, 0.1)), ((0, 1, 2), (-60.2, -60.5, -59.0)), ((0, 1, 1), (40.0, 41.0, 39.5))):
        n = len(ids)
        xs = jnp.zeros((n, 1))
        ys = jnp.asarray(ids, dtype=jnp.float32)[:, None]
        W, opt, prev, hist = np.array([yw]), Adam((1, 3), lr), -math.inf, []
        for s in range(1, steps + 1):
            W, opt, prev = step_model(W, opt, prev, alpha, [0] * n, ids, ids)
            sc = [W[0, i] for i in ids]
            hist.append((s, sum(sc) / n - lme(sc)))
        for key in (0, 1):
            log, new = call(table_critic([yw]), xs, ys, key, alpha, lr, steps, 1, None)
            rep.state()
            rep.trans(steps)
            got = [tuple(h) for h in log.additional_information["test_history"]]
            rep.expect([g[0] for g in got] == [h[0] for h in hist], "training:steps", f"{got}")
            rep.close("training:history", [g[1] for g in got], [h[1] for h in hist], rtol=2e-3, atol=2e-4,
                      alpha=alpha, lr=lr, ids=ids, key=key)
            rep.close("training:critic", np.asarray(new.w, float), W, rtol=2e-3, atol=1e-3 * lr + 1e-4,
                      alpha=alpha, lr=lr, ids=ids, key=key)
            rep.close("training:final", float(log.final_mi), max(h[1] for h in hist), rtol=2e-3, atol=2e-4)
            rep.trace()
        rep.outcome((alpha, lr, ids, round(hist[-1][1], 5)))
        # held-out evaluation every `every` steps, with early stopping
        for every in (2, 3):
            best, since, want, last = None, 0, [], steps
            for s, v in hist:
                if s % every == 0:
                    want.append(s)
                    if best is None or v > best:
                        best, since = v, 0
                    else:
                        since += 1
                if since >= 2:
                    last = s
                    break
            gaps = [hist[s - 1][1] for s in want]
            if any(abs(a - b) < 1e-4 for a, b in itertools.combinations(gaps, 2)):
                continue
            log, _ = call(table_critic([yw]), xs, ys, 5, alpha, lr, steps, every, None, early=True)
            rep.trans(steps)
            info = log.additional_information
            rep.expect([h[0] for h in info["test_history"]] == want and info["n_training_steps"] == last,
                       "training:early", f"{info} expected tests at {want}, last step {last}", alpha=alpha, lr=lr)


def resampling(rep, case):
    """Whatever the key, the step taken is one of the admissible ones: a batch of distinct true pairs
    and, for the product term, the same x with a batch of distinct y."""
    import jax.numpy as jnp
    import numpy as np

    n, alpha, lr = 3, 0.5, 0.1
    batch = case["batch"]
    ids = range(n)
    W0 = np.array(W3)
    xs = jnp.arange(n, dtype=jnp.float32)[:, None]
    if batch is None:
        choices = [(tuple(ids), p) for p in itertools.permutations(ids)]
    else:
        choices = list(itertools.product(itertools.permutations(ids, batch), repeat=2))
    succ = [step_model(W0, Adam((3, 3), lr), -math.inf, alpha, p, p, u) for p, u in choices]
    for key in case["keys"]:
        xt = jnp.asarray([0.0, 2.0])[:, None] if key % 2 else None
        log, new = call(table_critic(W0), xs, xs, key, alpha, lr, 1, 1, batch, xt=xt, yt=xt)
        rep.state()
        rep.trans()
        w = np.asarray(new.w, float)
        hits = [s for s in succ if np.abs(s[0] - w).max() < 2e-4]
        if not rep.expect(hits, "resampling:step", f"critic {w.round(4).tolist()} is not reachable by any admissible batch",
                          batch=batch, key=key):
            continue
        tid = (0, 2) if key % 2 else tuple(ids)
        vals = []
        for s in hits:
            for p in itertools.permutations(tid):
                vals.append(sum(s[0][i, i] for i in tid) / len(tid) - lme([s[0][i, j] for i, j in zip(tid, p)]))
        got = log.additional_information["test_history"][0][1]
        rep.expect(min(abs(got - v) for v in vals) < 2e-4, "resampling:test",
                   f"held-out value {got} is not one of {sorted(set(np.round(vals, 4)))}", batch=batch, key=key)
        rep.outcome((batch, tuple(w.round(3).ravel()), round(got, 3)))
        rep.trace()


def coverage(rep, keys):
    """The re-pairing really varies: over many keys most of the 6 permutations occur, in training and in tests."""
    import jax.numpy as jnp
    import numpy as np

    W0 = np.array(W3)
    xs = jnp.arange(3, dtype=jnp.float32)[:, None]
    perms = list(itertools.permutations(range(3)))
    succ = {p: step_model(W0, Adam((3, 3), 0.1), -math.inf, 0.5, (0, 1, 2), (0, 1, 2), p)[0] for p in perms}
    seen_train, seen_test = set(), set()
    for key in range(keys):
        log, new = call(table_critic(W0), xs, xs, 1000 + key, 0.5, 0.1, 1, 1, None)
        rep.state()
        rep.trans()
        w = np.asarray(new.w, float)
        p = min(perms, key=lambda q: np.abs(succ[q] - w).max())
        seen_train.add(p)
        got = log.additional_information["test_history"][0][1]
        t = np.trace(w) / 3
        seen_test.add(min(perms, key=lambda q: abs(t - lme([w[i, q[i]] for i in range(3)]) - got)))
        rep.outcome((p, round(got, 3)))
    rep.expect(len(seen_train) >= 4, "coverage:train", f"only the re-pairings {seen_train} ever occur")
    rep.expect(len(seen_test) >= 4, "coverage:test", f"only the re-pairings {seen_test} ever occur")
    rep.trace()


def independent(rep, case):
    """The mini-batch of the product term is drawn from all the points, not tied to the paired mini-batch:
    over many keys the two batches share points about as often as independent draws do."""
    import jax.numpy as jnp
    import numpy as np

    n, batch, keys = case["n"], case["batch"], case["keys"]
    W0 = np.random.default_rng(n * 10 + batch).normal(size=(n, n))
    xs = jnp.arange(n, dtype=jnp.float32)[:, None]
    ids = range(n)
    choices = list(itertools.product(itertools.combinations(ids, batch), itertools.permutations(ids, batch)))
    succ = np.array([step_model(W0, Adam((n, n), 0.1), -math.inf, 0.5, p, p, u)[0] for p, u in choices])
    same, paired, unpaired = 0, set(), set()
    for key in range(keys):
        _, new = call(table_critic(W0), xs, xs, 500 + key, 0.5, 0.1, 1, 1, batch)
        rep.state()
        rep.trans()
        w = np.asarray(new.w, float)
        dist = np.abs(succ - w).max(axis=(1, 2))
        hits = [choices[k] for k in np.flatnonzero(dist < 2e-4)]
        if not rep.expect(hits, "independent:step", f"critic {w.round(4).tolist()} is not reachable by any admissible "
                          f"batch", n=n, batch=batch, key=key):
            continue
        # one step with Adam only shows which cells were pulled: some choices are indistinguishable
        same += all(set(p) == set(u) for p, u in hits)
        paired.add(hits[0][0])
        unpaired.update(frozenset(u) for _, u in hits)
        rep.outcome((n, batch, hits[0]))
    rep.expect(same <= keys * (1 + 1 / math.comb(n, batch)) / 2, "independent:same-points",
               f"in {same} of {keys} steps the product term used exactly the points of the joint term", n=n, batch=batch)
    rep.expect(len(paired) >= min(3, math.comb(n, batch) - 1), "independent:paired", f"only the batches {paired}", n=n, batch=batch)
    rep.trace()


def heldout(rep, case):
    """Held-out evaluation of points whose order carries information (sorted): the product term must be
    re-paired at random, whatever the sizes of batch and held-out set."""
    import jax.numpy as jnp
    import numpy as np

    m, batch, c, near = case["m"], case["batch"], 2.0, 3
    gap = np.abs(np.subtract.outer(np.arange(m), np.arange(m)))
    W = c * (np.minimum(gap, m - gap) <= near)  # cyclically near pairs score c, others 0
    pts = jnp.arange(m, dtype=jnp.float32)[:, None]
    counts = []
    for key in range(case["keys"]):
        log, new = call(table_critic(W), pts, pts, 40 + key, 0.5, 1e-9, 1, 1, batch, xt=pts, yt=pts)
        rep.state()
        rep.trans()
        got = float(log.additional_information["test_history"][0][1])
        k = (math.exp(c - got) - 1) * m / (math.exp(c) - 1)  # c - log((m - k + k e^c) / m) = got
        rep.expect(abs(k - round(k)) < 1e-2, "heldout:count", f"held-out value {got} corresponds to {k} near pairs", **case)
        counts.append(round(k))
        rep.outcome((m, round(k)))
    mean, sd = float(np.mean(counts)), math.sqrt((2 * near + 1) / case["keys"])
    rep.expect(abs(mean - (2 * near + 1)) < 5 * sd, "heldout:pairing", f"on average {mean} of the re-paired points are near, "
               f"{2 * near + 1} would be by chance", counts=counts, **case)
    rep.trace()


def wiring(rep, only):
    """Every hyperparameter of the estimators reaches the training."""
    import numpy as np
    import bmi.estimators as e
    import jax

    rng = np.random.default_rng(3)
    x = rng.normal(size=(30, 2))
    y = x[:, :1] + 0.4 * rng.normal(size=(30, 1))
    base = dict(batch_size=6, max_n_steps=6, test_every_n_steps=2, learning_rate=0.05, hidden_layers=(3,),
                verbose=False, seed=1, train_test_split=0.5, standardize=True)
    for name in (only,):
        cls = getattr(e, name)
        est = cls(**base)
        ref = est.estimate_with_info(x, y)
        hist = ref.additional_information["test_history"]
        rep.expect([h[0] for h in hist] == [2, 4, 6][: len(hist)], "wiring:interval", f"{hist}", est=name)
        shapes = [tuple(np.shape(a)) for a in jax.tree_util.tree_leaves(est.trained_critic) if np.ndim(a) == 2]
        rep.expect(shapes == [(3, 3), (1, 3)], "wiring:layers", f"{shapes}", est=name)
        changes = [dict(batch_size=15), dict(learning_rate=0.2), dict(hidden_layers=(4, 2)), dict(seed=2),
                   dict(train_test_split=0.7), dict(train_test_split=None), dict(test_every_n_steps=3)]
        if name == "MINEEstimator":
            changes += [dict(smoothing_alpha=0.2)]
        for ch in changes:
            rep.state()
            rep.trans()
            est = cls(**{**base, **ch})
            got = est.estimate_with_info(x, y)
            gh = got.additional_information["test_history"]
            rep.expect(gh != hist, "wiring:no-effect", f"{ch} changes nothing", est=name, change=ch)
            if "hidden_layers" in ch:
                shapes = [tuple(np.shape(a)) for a in jax.tree_util.tree_leaves(est.trained_critic) if np.ndim(a) == 2]
                rep.expect(shapes == [(4, 3), (2, 4), (1, 2)], "wiring:layers", f"{shapes}", est=name)
            if "test_every_n_steps" in ch:
                rep.expect([h[0] for h in gh] == [3, 6][: len(gh)], "wiring:interval", f"{gh}", est=name)
            rep.outcome((name, str(ch), float(got.mi_estimate)))
        for steps in (1, 2, 5):
            got = cls(**{**base, "max_n_steps": steps}).estimate_with_info(x, y)
            rep.trans()
            rep.expect(got.additional_information["n_training_steps"] == steps, "wiring:max-steps",
                       f"{got.additional_information}", est=name)
        rep.trace()
