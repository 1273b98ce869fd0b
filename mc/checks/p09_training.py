"""P09: the training loop: batches, held-out evaluation, early stopping and reproducibility."""

import itertools
import math

PROPERTY = "P09"
BOUNDS = {
    "quick": "basic training driven by a scripted environment: every held-out script of length 5 over 3 values "
    "(x test interval 1..3, early stopping on/off); every batch size 1..5 of 5 points and 5 sizes of 33 and 150 points over 40 keys (each batch "
    "checked against the set of admissible batches); estimator-level: 4 estimators x split modes x histories, 4 to 101 points",
    "thorough": "scripts of length 6 over 4 values, 120 keys, three training seeds per estimator",
}
ASSUMPTIONS = ["optax.adam moves a parameter with constant unit gradient by one learning rate per step"]

LR = 0.125
SCRIPT = (0.0, 1.0, 2.0)


def cases(tier):
    deep = tier == "thorough"
    out = []
    L = 6 if deep else 5
    vals = (0.0, 1.0, 2.0, -1.0) if deep else SCRIPT
    for first, second in itertools.product(vals, repeat=2):
        out.append({"part": "script", "prefix": (first, second), "values": vals, "len": L})
    out.append({"part": "intervals"})
    out += [{"part": "long", "steps": n} for n in (260, 1030, 2100) + ((5200,) if deep else ())]
    for n in (1, 2, 3, 5, 33, 150):
        out.append({"part": "batches", "n": n, "keys": 120 if deep else 40})
    for est in ("base", "base_default_test"):
        for split in (0.5, 0.7, 0.25, None):
            out.append({"part": "estimator", "kind": est, "split": split})
    for name in ("InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator", "MINEEstimator"):
        for s in range(3 if deep else 1):
            out.append({"part": "repro", "est": name, "seed": 5 + s})
        out.append({"part": "toobig", "est": name})
    out.append({"part": "params"})
    out.append({"part": "critic"})
    return out


def scripted():
    """A critic whose parameter counts the steps taken, and formulas reading it."""
    import equinox as eqx
    import jax.numpy as jnp

    class Counter(eqx.Module):
        w: object

        def __call__(self, x, y):
            return self.w + 0.0 * x[0]

    def train_formula(f, xs, ys):
        return f.w

    def make_test(script):
        arr = jnp.asarray(script, dtype=jnp.float32)

        def test_formula(f, xs, ys):
            step = jnp.round(f.w / LR).astype(jnp.int32)
            return arr[step]

        return test_formula

    return Counter(jnp.asarray(0.0)), train_formula, make_test


def model_run(script, max_steps, every, early):
    """Reference: (number of steps, held-out history, final)."""
    hist, best, since = [], None, 0
    steps = 0
    for s in range(1, max_steps + 1):
        steps = s
        if s % every == 0:
            v = script[s]
            hist.append((s, v))
            if best is None or v > best:
                best, since = v, 0
            else:
                since += 1
        if early and since >= 2:
            break
    return steps, hist, best, since


def run_script(rep, script, max_steps, every, early, tag):
    import jax
    import jax.numpy as jnp
    from bmi.estimators.neural._basic_training import basic_training

    critic, ftrain, mk = scripted()
    pts = jnp.arange(4.0)[:, None]
    log, new = basic_training(
        rng=jax.random.PRNGKey(3), critic=critic, mi_formula=ftrain, mi_formula_test=mk(script), xs=pts, ys=pts,
        xs_test=pts, ys_test=pts, batch_size=2, test_every_n_steps=every, max_n_steps=max_steps,
        early_stopping=early, learning_rate=LR, verbose=False,
    )
    steps, hist, best, since = model_run(script, max_steps, every, early)
    rep.state()
    rep.trans(max_steps)
    d = dict(script=script, max_steps=max_steps, every=every, early=early)
    info = log.additional_information
    rep.expect(info["n_training_steps"] == steps, f"{tag}:steps", f"{info['n_training_steps']} != {steps}", **d)
    rep.close(f"{tag}:critic", float(new.w), steps * LR, rtol=1e-4, **d)
    got = [tuple(h) for h in info["test_history"]]
    rep.expect(got == hist, f"{tag}:history", f"{got} != {hist}", **d)
    if best is None:
        rep.expect(math.isnan(float(log.final_mi)), f"{tag}:final", f"{log.final_mi}", **d)
    else:
        rep.close(f"{tag}:final", float(log.final_mi), best, **d)
    flag = bool(info.get("early_stopping_not_triggered", False))
    rep.expect(flag == (early and since < 2), f"{tag}:flag", f"{info}", **d)
    rep.outcome((steps, best))
    rep.trace()
    rep.sample(d)


def run(case, rep):
    part = case["part"]
    if part == "script":
        L = case["len"]
        for tail in itertools.product(case["values"], repeat=L - 2):
            run_script(rep, (9.0,) + tuple(case["prefix"]) + tail, L, 1, True, "script")
    elif part == "intervals":
        for every in (1, 2, 3, 4, 7):
            for steps in (1, 2, 3, 6, 8):
                for early in (True, False):
                    for up in (True, False):
                        script = [9.0] + [0.01 * i if up else 1.0 - 0.25 * (i % 2) for i in range(1, 9)]
                        run_script(rep, tuple(_f32(s) for s in script), steps, every, early, "interval")
    elif part == "long":
        # a rate, a schedule or a window that only shows after many steps
        n = case["steps"]
        for every, early in ((n // 5, False), (50, True), (7, False)):
            run_script(rep, tuple(_f32(9.0 if s == 0 else 0.01 * s if s % 3 else 0.5) for s in range(n + 1)), n, every, early, "long")
        up = tuple(_f32(0.001 * s) for s in range(n + 1))
        run_script(rep, up, n, 10, True, "long")
    elif part == "batches":
        batches(rep, case["n"], case["keys"])
    elif part == "estimator":
        estimator(rep, case["kind"], case["split"])
    elif part == "repro":
        repro(rep, case["est"], case["seed"])
    elif part == "toobig":
        toobig(rep, case["est"])
    elif part == "params":
        params(rep)
    else:
        critic(rep)


def _f32(v):
    import numpy as np

    return float(np.float32(v))


def batches(rep, n, keys):
    """A training batch is any `batch_size` distinct pairs; never a broken pair or a repeated row."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np
    from bmi.estimators.neural._basic_training import basic_training

    class W(eqx.Module):
        w: object

        def __call__(self, x, y):
            return self.w * 0.0

    xs = jnp.arange(n, dtype=jnp.float32)[:, None]
    ys = jnp.stack([xs[:, 0] * 10.0 + 3.0, -xs[:, 0]], axis=1)
    seen_all = set()
    for b in (list(range(1, n + 1)) if n <= 5 else [2, n // 2, n - 1, n]) + [None]:
        rec, tested = [], []

        def formula(f, x, y):
            jax.debug.callback(lambda a, c: rec.append((np.array(a), np.array(c))), x, y)
            return f.w * jnp.mean(x)

        def tformula(f, x, y):
            jax.debug.callback(lambda a, c: tested.append((np.array(a), np.array(c))), x, y)
            return jnp.sum(f.w) * 0.0

        seen = set()
        steps = max(1, keys // 4)
        for k in range(4):
            rec.clear()
            tested.clear()
            basic_training(
                rng=jax.random.PRNGKey(k), critic=W(jnp.asarray(0.0)), mi_formula=formula, mi_formula_test=tformula,
                xs=xs, ys=ys, xs_test=xs[::-1], ys_test=ys[::-1], batch_size=b, test_every_n_steps=5,
                max_n_steps=steps, early_stopping=False, verbose=False,
            )
            jax.effects_barrier()
            rep.trans(steps)
            rep.expect(len(rec) == steps, "batch:count", f"{len(rec)} evaluations for {steps} steps", n=n, b=b)
            rep.expect(len(tested) == steps // 5, "batch:tests", f"{len(tested)}", n=n, b=b)
            for a, c in tested:
                rep.expect((a == np.array(xs)[::-1]).all() and (c == np.array(ys)[::-1]).all(), "batch:test-data")
            for a, c in rec:
                ids = tuple(int(v) for v in a[:, 0])
                want = n if b is None else b
                rep.expect(len(ids) == want, "batch:size", f"batch of {len(ids)} instead of {want}", n=n, b=b)
                rep.expect(len(set(ids)) == len(ids), "batch:repeat", f"rows {ids}", n=n, b=b)
                rep.expect(all(0 <= i < n for i in ids), "batch:range", f"{ids}")
                rep.expect(np.array_equal(c, np.stack([a[:, 0] * 10 + 3, -a[:, 0]], 1)), "batch:pairing",
                           f"x rows {ids} were trained with y rows {c.tolist()}", n=n, b=b)
                seen.add(frozenset(ids))
                rep.state()
        if b is not None and b < n:
            # every point is reachable by training, and the batches differ between steps
            rep.expect(len(frozenset().union(*seen)) == n or b * len(seen) < 8 * n, "batch:coverage",
                       f"points never trained on: {set(range(n)) - set().union(*seen)}", n=n, b=b)
            rep.expect(len(seen) > 1, "batch:varies", "every step used the same batch", n=n, b=b)
        for s in seen:
            rep.outcome((n, b, tuple(sorted(s))))
        rep.trace()


def _records():
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import numpy as np

    class W(eqx.Module):
        w: object

        def __call__(self, x, y):
            return self.w * 1.0

    train, test, dims = [], [], []

    def factory(key, dx, dy):
        dims.append((dx, dy))
        return W(jnp.asarray(0.0))

    def ftrain(f, x, y):
        jax.debug.callback(lambda a, c: train.append((np.array(a), np.array(c))), x, y)
        return f.w

    def ftest(f, x, y):
        jax.debug.callback(lambda a, c: test.append((np.array(a), np.array(c))), x, y)
        return f.w * 3.0

    return train, test, dims, factory, ftrain, ftest, W


def estimator(rep, kind, split):
    """Public base class with recording formulas: what is trained on and what is evaluated on."""
    import jax
    import numpy as np
    from bmi.estimators import NeuralEstimatorBase

    for n, dims_, std, seed in itertools.product((4, 7, 50, 101), ((1, 2), (3, 1)), (True, False), (0, 9)):
        if n > 7 and (std or seed):
            continue
        dx, dy = dims_
        x = np.array([[10.0 * i + c + (i * i % 3) for c in range(dx)] for i in range(n)])
        y = np.array([[-3.0 * i + 100 * c + (i * i % 5) for c in range(dy)] for i in range(n)])
        n_train = n if split is None else int(math.floor(split * n + 1e-9))
        if n_train < 1 or (split is not None and n - n_train < 1):
            continue
        train, test, dims, factory, ftrain, ftest, W = _records()
        kw = dict(mi_formula_test=ftest) if kind == "base" else {}
        est = NeuralEstimatorBase(
            mi_formula=ftrain, mi_formula_name="rec", critic_factory=factory, batch_size=n_train, max_n_steps=4,
            train_test_split=split, test_every_n_steps=2, standardize=std, verbose=False, seed=seed,
            learning_rate=0.5, **kw,
        )
        d = dict(n=n, dims=dims_, split=split, standardize=std, seed=seed, kind=kind)
        rep.state()
        rep.expect(est.trained_critic is None, "est:critic-before", **d)
        kx, ky = x.copy(), y.copy()
        res = est.estimate_with_info(x, y)
        jax.effects_barrier()
        rep.trans(4)
        rep.expect((x == kx).all() and (y == ky).all(), "est:input-mutated", **d)
        rep.expect(dims == [(dx, dy)], "est:critic-dims", f"{dims}", **d)
        if std:
            zx, zy = (x - x.mean(0)) / x.std(0), (y - y.mean(0)) / y.std(0)
        else:
            zx, zy = x, y
        full = np.hstack([zx, zy])

        def ids(pair):
            z = np.hstack(pair)
            out = []
            for row in z:
                m = np.flatnonzero(np.abs(full - row).max(1) < 1e-3)
                if len(m) != 1:
                    rep.fail("est:foreign-row", f"row {row.tolist()} is not a (standardised) sample pair", **d)
                    return None
                out.append(int(m[0]))
            return out

        if kind == "base":
            trains, tests = train, test
        else:  # the training formula is evaluated on both; held-out evaluations are the last of each 2 steps
            trains = [p for i, p in enumerate(train) if i % 3 != 2]
            tests = [p for i, p in enumerate(train) if i % 3 == 2]
        rep.expect(len(trains) == 4 and len(tests) == 2, "est:evaluations", f"{len(trains)}, {len(tests)}", **d)
        tr = [ids(p) for p in trains]
        te = [ids(p) for p in tests]
        if any(v is None for v in tr + te) or not tr or not te:
            continue
        tset = set(tr[0])
        rep.expect(all(set(t) == tset and len(t) == n_train for t in tr), "est:train-set",
                   f"{tr} (expected {n_train} fixed rows)", **d)
        if split is None:
            rep.expect(tset == set(range(n)) and all(sorted(t) == list(range(n)) for t in te), "est:no-split", **d)
        else:
            rep.expect(all(not (set(t) & tset) for t in te), "est:leak",
                       f"held-out rows {te} overlap training rows {sorted(tset)}", **d)
            rep.expect(all(set(t) | tset == set(range(n)) and len(t) == n - n_train for t in te), "est:held-out",
                       f"{te}", **d)
        w = 0.5 * 4
        rep.expect(isinstance(est.trained_critic, W), "est:critic-after", **d)
        rep.close("est:critic-value", float(est.trained_critic.w), w, rtol=1e-3, **d)
        rep.close("est:value", res.mi_estimate, 3 * w if kind == "base" else w, rtol=1e-3, **d)
        rep.expect(res.additional_information["n_training_steps"] == 4, "est:n-steps", **d)
        again = est.estimate_with_info(x, y)
        jax.effects_barrier()
        rep.expect(again.mi_estimate == res.mi_estimate, "est:repeat", **d)
        rep.outcome((tuple(sorted(tset)), n, split))
        rep.trace()


def _data():
    import numpy as np

    rng = np.random.default_rng(77)
    x = rng.normal(size=(40, 2))
    y = x[:, :1] + 0.5 * rng.normal(size=(40, 1))
    return x, y


def repro(rep, name, seed):
    """Same data and seed: same result, whatever ran before; the estimate is the best held-out value."""
    import numpy as np
    import bmi.estimators as e

    x, y = _data()
    u, v = x[:30, ::-1] * 3 + 1, y[:30] ** 2
    cls = getattr(e, name)
    kw = dict(batch_size=8, max_n_steps=12, test_every_n_steps=3, hidden_layers=(4,), learning_rate=0.05, verbose=False)

    def critic_state(est):
        import jax

        return [np.array(a) for a in jax.tree_util.tree_leaves(est.trained_critic)]

    def go(est, data):
        r = est.estimate_with_info(*data)
        return float(r.mi_estimate), r.additional_information, critic_state(est)

    def same(a, b):
        return a[0] == b[0] and a[1]["test_history"] == b[1]["test_history"] and all(
            (p == q).all() for p, q in zip(a[2], b[2]))

    first = {}
    for s in (seed, seed + 100):
        for k, d in (("A", (x, y)), ("B", (u, v))):
            est = cls(seed=s, **kw)
            r = first[s, k] = go(est, d)
            hist = r[1]["test_history"]
            rep.state()
            rep.trans()
            rep.close("repro:best", r[0], max(h[1] for h in hist), rtol=1e-6, est=name)
            rep.expect([h[0] for h in hist] == [3 * i + 3 for i in range(len(hist))], "repro:steps", f"{hist}")
            rep.expect(r[1]["n_training_steps"] >= hist[-1][0], "repro:n", f"{r[1]}")
            rep.expect(np.isfinite(r[0]), "repro:finite", f"{r[0]}", est=name)
            rep.outcome((name, s, k, r[0]))
    rep.expect(first[seed, "A"][0] != first[seed + 100, "A"][0], "repro:seed-ignored",
               "two seeds gave the same estimate", est=name)
    for seq in ("AA", "AB", "BA", "ABA", "BBA") if rep.tier == "quick" else itertools.product("AB", repeat=3):
        est = cls(seed=seed, **kw)
        for k in seq:
            d = (x, y) if k == "A" else (u, v)
            r = go(est, d)
            rep.trans()
            rep.expect(same(r, first[seed, k]), "repro:history",
                       f"{r[0]} after {seq} != {first[seed, k][0]}", est=name, seq=seq)
        rep.state()
        rep.trace()
    est = cls(seed=seed, **kw)
    rep.close("repro:estimate", float(est.estimate(x, y)), first[seed, "A"][0], rtol=0, atol=0, est=name)
    lst = cls(seed=seed, **kw).estimate(x.tolist(), y.tolist())
    rep.close("repro:list", float(lst), first[seed, "A"][0], rtol=1e-5, est=name)
    # units do not matter once the data are standardised
    un = cls(seed=seed, **kw).estimate(x * [1000.0, 0.5] + 3, y * 20 - 7)
    rep.close("repro:units", float(un), first[seed, "A"][0], rtol=2e-2, atol=2e-3, est=name)
    raw = cls(seed=seed, standardize=False, **kw)
    rep.expect(float(raw.estimate(x * 7 + 3, y)) != first[seed, "A"][0], "repro:standardize-flag", est=name)
    rep.trace()


def toobig(rep, name):
    import numpy as np
    import bmi.estimators as e

    x, y = _data()
    for n, split, b in itertools.product((10, 11, 20), (0.5, 0.3, None), range(1, 23, 3)):
        n_train = n if split is None else int(math.floor(split * n + 1e-9))
        for bs in {b, n_train, n_train + 1}:
            rep.state()
            rep.trans()
            est = getattr(e, name)(batch_size=bs, train_test_split=split, max_n_steps=1, test_every_n_steps=1,
                                   hidden_layers=(2,), verbose=False)
            if bs <= n_train:
                if n != 10 or (split != 0.5 and split is not None) or bs != n_train:
                    continue  # too slow to compile each; the boundary itself is covered
                r = est.estimate_with_info(x[:n], y[:n])
                if bs > 1:  # a single pair has no off-diagonal term
                    rep.expect(np.isfinite(r.mi_estimate), "toobig:ok", f"{r}", n=n, split=split, b=bs, est=name)
                rep.expect("batch_size_larger_than_train" not in r.additional_information, "toobig:flag", n=n, b=bs)
            else:
                r = est.estimate_with_info(x[:n], y[:n])
                rep.expect(np.isnan(r.mi_estimate), "toobig:nan", f"{r}", n=n, split=split, b=bs, est=name)
                rep.expect(r.additional_information.get("batch_size_larger_than_train") is True, "toobig:info",
                           f"{r}", n=n, split=split, b=bs, est=name)
    rep.trace()


def params(rep):
    import bmi.estimators as e

    for name in ("InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator", "MINEEstimator"):
        for bs, steps, split, every, lr, hl, std, seed in itertools.product(
            (3, 64), (10, 77), (0.25, None), (2, 9), (0.5, 0.01), ((3,), (8, 2, 5)), (True, False), (0, 13)
        ):
            kw = dict(batch_size=bs, max_n_steps=steps, train_test_split=split, test_every_n_steps=every,
                      learning_rate=lr, hidden_layers=hl, standardize=std, seed=seed, verbose=False)
            p = getattr(e, name)(**kw).parameters()
            rep.state()
            rep.trans()
            got = dict(batch_size=p.batch_size, max_n_steps=p.max_n_steps, train_test_split=p.train_test_split,
                       test_every_n_steps=p.test_every_n_steps, learning_rate=p.learning_rate,
                       standardize=p.standardize, seed=p.seed)
            want = {k: v for k, v in kw.items() if k in got}
            rep.expect(got == want, "params", f"{got} != {want}", est=name)
            hidden = p.hidden_layers if hasattr(p, "hidden_layers") else p.critic_params.hidden_layers
            rep.expect(list(hidden) == list(hl), "params:hidden", f"{hidden}", est=name)
        for k in ("batch_size", "max_n_steps", "learning_rate"):
            for bad in (0, -1):
                rep.raises("params:bad", lambda: getattr(e, name)(**{k: bad}), (ValueError,), est=name, k=k)
        rep.trace()
    for name in ("InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator"):
        rep.raises("params:backend", lambda: getattr(e, name)(_train_backend="cubic"), (ValueError,))
    for bad in (0.0, 1.0, -0.5, 2):
        rep.raises("params:alpha", lambda: e.MINEEstimator(smoothing_alpha=bad), (ValueError,))


def critic(rep):
    """The default critic is the documented ReLU network on the concatenated point."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from bmi.estimators.neural._critics import MLP

    for dx, dy, hl in itertools.product((1, 2, 3), (1, 2), ((), (1,), (4,), (3, 5), (2, 3, 4))):
        for seed in (0, 3):
            m = MLP(key=jax.random.PRNGKey(seed), dim_x=dx, dim_y=dy, hidden_layers=hl)
            ws = [(np.array(l.weight, float), np.array(l.bias, float)) for l in m.layers]
            dims = [dx + dy] + list(hl) + [1]
            rep.state()
            rep.expect([w.shape for w, _ in ws] == [(b, a) for a, b in zip(dims, dims[1:])], "critic:shapes",
                       f"{[w.shape for w, _ in ws]}", hl=hl)
            flat = np.concatenate([w.ravel() for w, _ in ws])
            rep.expect(len(set(flat.round(9))) == len(flat), "critic:init", "two layers share initial weights", hl=hl)
            for s in range(4):
                x = np.array([np.sin(3 * s + c) * 2 for c in range(dx)])
                y = np.array([np.cos(5 * s - c) * 2 for c in range(dy)])
                z = np.concatenate([x, y])
                for i, (w, b) in enumerate(ws):
                    z = w @ z + b
                    if i < len(ws) - 1:
                        z = np.maximum(z, 0)
                got = m(jnp.asarray(x), jnp.asarray(y))
                rep.trans()
                rep.expect(got.shape == (), "critic:scalar", f"{got.shape}")
                rep.close("critic:value", float(got), float(z[0]), rtol=1e-4, atol=1e-5, hl=hl, dims=(dx, dy))
        rep.trace()
