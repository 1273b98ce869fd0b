"""P30: the tables and curves behind the figures of the study say what the results say."""

import itertools
import math
import sys

PROPERTY = "P30"
EST = (-0.5, 0.0, 0.04, 0.05, 0.5, 1.2)
BOUNDS = {
    "quick": "every assignment of 6 estimates to 3 seeds (failure rule, per kind of estimator); every pattern solved / not solved / unknown on up to "
    "5 sample sizes in 3 orders; annotations for 400 sizes; figures for 1024 assignments of 4 outcomes to 2 estimators x 2 tasks x 2 sizes "
    "(every pair of outcomes in every two cells); curves for every subset of 3 estimators; reader options x 8 thresholds",
    "thorough": "7 sample sizes, 4 seeds, 4096 assignments",
}
ASSUMPTIONS = ["the drawing library is replaced by a recorder; only what it is asked to draw is judged"]


class Seaborn:
    """Records heatmaps."""

    def __init__(self):
        self.maps = []

    def heatmap(self, data, **kw):
        self.maps.append((data, kw))


def module():
    from mc.checks.p29_search import modules

    cfu = modules()[2]
    cfu.sns = Seaborn()
    return cfu


def cases(tier):
    deep = tier == "thorough"
    out = [{"part": "failures", "first": i, "seeds": 4 if deep else 3} for i in range(len(EST))]
    out += [{"part": "needed", "n": n} for n in range(1, 8 if deep else 6)]
    out += [{"part": "annotations"}, {"part": "curves"}, {"part": "reader"}]
    out += [{"part": "figures", "first": i, "free": 5 if deep else 4} for i in range(4)]
    return out


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
    rep.trace()


def estimators():
    import bmi.estimators as e

    return {
        "NWJ": e.NWJEstimator(verbose=False), "CCA": e.CCAMutualInformationEstimator(), "MINE": e.MINEEstimator(verbose=False),
        "KSG": e.KSGEnsembleFirstEstimator(neighborhoods=(3,)), "DV": e.DonskerVaradhanEstimator(verbose=False), "INCE": e.InfoNCEEstimator(verbose=False),
    }


NEURAL = {"NWJ", "MINE", "DV", "INCE"}


def rows(estimates, estimator="NWJ", task="t", n=100, true=0.7):
    return [
        {"estimator_id": estimator, "task_id": task, "n_samples": n, "seed": s, "mi_estimate": v, "mi_true": true} for s, v in enumerate(estimates)
    ]


def fails(estimates):
    top = max(estimates)
    return [v < 0 or v < 0.1 * top for v in estimates]


def part_failures(case, rep):
    import numpy as np
    import pandas as pd

    cfu = module()
    ests = estimators()
    kinds = list(ests)
    for j, tail in enumerate(itertools.product(EST, repeat=case["seeds"] - 1)):
        a = (EST[case["first"]],) + tail
        # other cells must not interfere: the same estimator elsewhere, another estimator here, another size
        est = kinds[j % len(kinds)]
        cells = {(est, "t", 100): a, (est, "u", 100): (5.0, 0.2), (est, "t", 200): (9.0,), (kinds[(j + 1) % len(kinds)], "t", 100): (0.3, 0.01, 7.0)}
        table = [r for (e, t, n), v in cells.items() for r in rows(v, e, t, n, true=0.7 if t == "t" else 2.0)]
        order = np.random.default_rng(j).permutation(len(table))
        given = pd.DataFrame([table[i] for i in order])
        kept = given.copy()
        out = cfu.preprocess_benchmark_results(given, ests)
        rep.state()
        rep.trans()
        rep.expect(given.equals(kept), "failures:changed-argument")
        rep.expect(len(out) == len(table), "failures:rows", f"{len(out)} rows from {len(table)}")
        for (e, t, n), v in cells.items():
            got = out[(out.estimator_id == e) & (out.task_id == t) & (out.n_samples == n)].sort_values("seed")
            d = dict(cell=(e, t, n), estimates=v)
            rep.expect(list(got.mi_estimate) == list(v), "failures:estimates", f"{list(got.mi_estimate)}", **d)
            rep.expect([bool(b) for b in got.neural_estimator] == [e in NEURAL] * len(v), "failures:kind", **d)
            rep.expect([bool(b) for b in got.neural_fail] == [e in NEURAL and f for f in fails(v)], "failures:rule", f"{list(got.neural_fail)}", **d)
            with np.errstate(all="ignore"):
                want = np.log(np.array(v) / (0.7 if t == "t" else 2.0))
            rep.expect(np.allclose(got.log_relative_error, want, equal_nan=True), "failures:error", f"{list(got.log_relative_error)} != {want}", **d)
        rep.outcome((est, tuple(fails(a))))


SIZES = [100, 200, 500, 1000, 5000, 10000, 20000]


def needed(pattern, sizes):
    """Smallest size from which on every size is solved."""
    best = math.inf
    for n, ok in sorted(zip(sizes, pattern), reverse=True):
        if not ok:
            break
        best = n
    return best


def part_needed(case, rep):
    import pandas as pd

    cfu = module()
    n = case["n"]
    lim = math.log(1.5)
    # (log error, solved)
    values = [(0.0, True), (lim - 1e-6, True), (-lim + 1e-6, True), (lim + 1e-6, False), (-lim - 1e-6, False), (float("nan"), False), (float("-inf"), False)]
    short = [values[1], values[2], values[4], values[5]] if n > 4 else values
    if n > 5:
        short = [values[1], values[4]]
    for pattern in itertools.product(short, repeat=n):
        for order in (list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: (i * 2) % 3)):
            table = pd.DataFrame([{"n_samples": SIZES[i], "log_relative_error": pattern[i][0], "mi_estimate": 1.0} for i in order])
            got = cfu.n_samples_needed(table)
            rep.state()
            rep.trans()
            rep.expect(got == needed([p[1] for p in pattern], SIZES), "needed", f"{got}", errors=[p[0] for p in pattern], order=order)
        rep.outcome(tuple(p[1] for p in pattern))


def part_annotations(case, rep):
    cfu = module()
    for top in (1000, 5000, 10000, 100000):
        f = cfu.n_samples_annotator(top)
        rep.expect(f(float("nan")) == "" and f(math.inf) == f">{top // 1000}k", "annotation:special", f"{f(math.inf)}")
        for v in [1, 2, 10, 99, 100, 500, 999, 1000, 1001, 1999, 2000, 9999, 10000, 50000, 100000] + list(range(0, 4000, 41)):
            for w in (v, float(v)):
                rep.state()
                rep.trans()
                rep.expect(f(w) == (str(v) if v < 1000 else f"{v // 1000}k"), "annotation", f"{f(w)} for {w}")
            rep.outcome(f(v))


def part_figures(case, rep):
    """The three benchmark figures."""
    import numpy as np
    import pandas as pd
    from bmi.benchmark.tasks import task_bivariate_normal, task_multinormal_dense

    cfu = module()
    tasks = {t.id: t for t in (task_bivariate_normal(gaussian_correlation=0.75), task_multinormal_dense(2, 2, 0.5))}
    true = {k: t.mutual_information for k, t in tasks.items()}
    every = estimators()
    names = {"CCA": "linear", "KSG": "neighbors", "NWJ": "bound", "MINE": "mine"}
    # outcome of one cell as multiples of the truth per seed: close, far, one failed run, noisy
    outcomes = [(1.0, 1.1), (2.5, 2.0), (1.2, 0.01), (1.6, 0.7)]
    for j, free in enumerate(itertools.product(range(4), repeat=case["free"])):
        c = (case["first"],) + free
        # the remaining cells are combinations of the free ones: every combination of outcomes in any two cells occurs
        cells = (c + (c[0] ^ c[1] ^ c[2], c[1] ^ c[2] ^ c[3], c[0] ^ c[3] ^ c[4], c[0] ^ c[2] ^ c[4]))[:8]
        order = ["CCA", "NWJ"] if j % 2 else ["MINE", "KSG"]
        ests = {k: every[k] for k in (order if j % 3 else order[::-1])}
        if j % 5 == 0:
            ests["DV"] = every["DV"]  # no results: no row
        table, cell = [], {}
        for (e, t, n), o in zip(itertools.product(order, tasks, (100, 2000)), cells):
            v = [m * true[t] for m in outcomes[o]]
            cell[e, t, n] = v
            table += rows(v, e, t, n, true[t])
        idx = np.random.default_rng(j).permutation(len(table))
        data = pd.DataFrame([table[i] for i in idx])
        good = {}
        for k, v in cell.items():
            good[k] = [x for x, bad in zip(v, fails(v)) if not (bad and k[0] in NEURAL)]
        shown = [e for e in ests if e in order]
        rep.state()
        rep.trans(3)
        d = dict(cells=cells, estimators=list(ests))
        kept = data.copy()
        cfu.sns.maps.clear()
        cfu.plot_benchmark_mi_estimate(Axis(), data, ests, tasks, names)
        (colour, kw), = cfu.sns.maps
        rep.expect(list(colour.index) == [names[e] for e in shown] + ["True MI"], "figure:rows", f"{list(colour.index)}", **d)
        rep.expect(list(colour.columns) == [t.name for t in tasks.values()], "figure:columns", f"{list(colour.columns)}", **d)
        for t, task in tasks.items():
            for e in shown:
                v = good[e, t, 2000]
                rep.close("figure:estimate", kw["annot"].loc[names[e], task.name], sum(v) / len(v), rtol=1e-9, **d)
                rep.close("figure:error", colour.loc[names[e], task.name], sum(math.log(x / true[t]) for x in v) / len(v), rtol=1e-7, atol=1e-9, **d)
            rep.close("figure:truth", kw["annot"].loc["True MI", task.name], true[t], rtol=1e-9)
            rep.expect(colour.loc["True MI", task.name] == 0, "figure:truth-error")
        cfu.sns.maps.clear()
        cfu.plot_benchmark_n_samples(Axis(), data, ests, tasks, names)
        (sizes, kw), = cfu.sns.maps
        for t, task in tasks.items():
            for e in shown:
                solved = []
                for n in (100, 2000):
                    v = good[e, t, n]
                    solved.append(abs(sum(math.log(x / true[t]) for x in v) / len(v)) < math.log(1.5))
                want = needed(solved, (100, 2000))
                text = {100: "100", 2000: "2k", math.inf: ">2k"}[want]
                rep.expect(kw["annot"].loc[names[e], task.name] == text, "figure:needed", f"{kw['annot'].loc[names[e], task.name]} instead of {text}", **d)
                rep.expect(sizes.loc[names[e], task.name] == min(want, 200000), "figure:needed-colour", f"{sizes.loc[names[e], task.name]}", **d)
        cfu.sns.maps.clear()
        cfu.plot_benchmark_neural_fails(Axis(), data, ests, tasks, names)
        (count, kw), = cfu.sns.maps
        neural = [e for e in shown if e in NEURAL]
        rep.expect(list(count.index) == [names[e] for e in neural], "figure:neural-rows", f"{list(count.index)}", **d)
        for t, task in tasks.items():
            for e in neural:
                rep.expect(count.loc[names[e], task.name] == sum(fails(cell[e, t, 2000])), "figure:fails", f"{count.loc[names[e], task.name]}", **d)
        rep.expect(data.equals(kept), "figure:changed-results")
        rep.outcome(cells)


class Axis:
    def __getattr__(self, name):
        return lambda *a, **k: None


class Curves:
    """Records lines and bands."""

    def __init__(self):
        self.lines, self.bands = [], []

    def plot(self, x, y, **kw):
        self.lines.append((list(x), list(y), kw))

    def fill_between(self, x, lo, hi, **kw):
        self.bands.append((list(x), list(lo), list(hi), kw))

    def __getattr__(self, name):
        return lambda *a, **k: None


def part_curves(case, rep):
    import numpy as np
    import pandas as pd

    cfu = module()
    colors, names = {"A": "red", "B": "blue", "C": "green"}, {"A": "first", "B": "second", "C": "third"}
    for k in range(1, 4):
        for chosen in itertools.combinations("ABC", k):
            for xs, seeds, salt in itertools.product(((0.0, 1.0), (3.0, -1.0, 0.5), (1, 10, 100, 1000)), (2, 3, 5), range(3)):
                table = [
                    {"estimator_id": e, "x": x, "other": -x, "seed": s, "mi_estimate": math.sin(ord(e) * 3.1 + x * 7 + s * s + salt), "mi_true": x * x + 1.0}
                    for e in chosen for x in xs for s in range(seeds)
                ]
                idx = np.random.default_rng(salt).permutation(len(table))
                data = pd.DataFrame([table[i] for i in idx])
                for col, std in (("x", True), ("x", False), ("other", True)):
                    ax = Curves()
                    cfu.plot_mi(ax, data, col, colors, names, plot_std=std)
                    rep.state()
                    rep.trans()
                    d = dict(chosen=chosen, x=xs, seeds=seeds, column=col)
                    points = sorted(set(r[col] for r in table))
                    by = {kw["label"]: (x, y, kw) for x, y, kw in ax.lines}
                    rep.expect(set(by) == {names[e] for e in chosen} | {"True MI"} and len(ax.lines) == k + 1, "curve:labels", f"{list(by)}", **d)
                    bands = {kw["color"]: b for *b, kw in ax.bands}
                    rep.expect(len(ax.bands) == (k if std else 0), "curve:bands", f"{len(ax.bands)}", **d)
                    for e in chosen:
                        groups = [[r["mi_estimate"] for r in table if r[col] == p and r["estimator_id"] == e] for p in points]
                        mean = [sum(g) / len(g) for g in groups]
                        sd = [math.sqrt(sum((v - m) ** 2 for v in g) / (len(g) - 1)) for g, m in zip(groups, mean)]
                        x, y, kw = by[names[e]]
                        rep.expect(x == points and kw["color"] == colors[e], "curve:points", f"{x}", **d)
                        rep.close("curve:mean", y, mean, rtol=1e-9, atol=1e-12, **d)
                        if std:
                            x, lo, hi = bands[colors[e]]
                            rep.expect(x == points, "curve:band-points", f"{x}", **d)
                            rep.close("curve:band", [lo, hi], [[m - s for m, s in zip(mean, sd)], [m + s for m, s in zip(mean, sd)]], rtol=1e-9, atol=1e-9, **d)
                    x, y, kw = by["True MI"]
                    rep.expect(x == points, "curve:truth-points")
                    rep.close("curve:truth", y, [p * p + 1.0 for p in points], rtol=1e-9)
                    rep.outcome((chosen, xs, seeds, col))


def part_reader(case, rep):
    import tempfile

    import pandas as pd

    cfu = module()
    table = [
        {"estimator_id": e, "task_id": t, "seed": s, "n_samples": n, "mi_estimate": 0.125 * k - 0.375, "mi_true": 1.5, "task_params": {"alpha": 0.25 * k, "label": f"p{k}"},
         "additional_information": {"n_training_steps": k, "flag": bool(k % 2)} if k % 3 else {}}
        for k, (e, t, s, n) in enumerate(itertools.product(("A", "B"), ("t", "u"), (0, 1), (100, 200)))
    ]
    with tempfile.TemporaryDirectory(prefix="mc-p30-") as tmp:
        path = tmp + "/results.csv"
        pd.DataFrame(table).to_csv(path, index=False)
        for params, info, top in itertools.product((True, False), (True, False), (None, -1.0, -0.375, -0.3, 0.0, 0.125, 0.65, 10.0)):
            got = cfu.read_results(path, unpack_task_params=params, unpack_additional_information=info, max_mi_estimate=top)
            rep.state()
            rep.trans()
            want = [r for r in table if top is None or r["mi_estimate"] < top]
            d = dict(params=params, info=info, top=top)
            rep.expect(len(got) == len(want), "reader:rows", f"{len(got)} instead of {len(want)}", **d)
            for (_, g), w in zip(got.iterrows(), want):
                flat = {k: v for k, v in w.items() if k not in ("task_params", "additional_information")}
                for k, unpack in (("task_params", params), ("additional_information", info)):
                    flat.update(w[k] if unpack else {k: w[k]})
                bad = {k: (g.get(k), v) for k, v in flat.items() if g.get(k) != v}
                rep.expect(not bad, "reader:values", f"{bad}", **d)
                rep.expect(("task_params" in g) != params and ("additional_information" in g) != info, "reader:columns", f"{list(g.index)}", **d)
            rep.outcome((params, info, top, len(want)))
        default = cfu.read_results(path)
        rep.expect("alpha" in default and "additional_information" in default and len(default) == len(table), "reader:defaults", f"{list(default)}")
