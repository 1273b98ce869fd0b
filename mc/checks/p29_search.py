"""P29: the search for a distribution with a requested mutual information, and the tasks built with it."""

import importlib
import itertools
import math
import sys
import types

PROPERTY = "P29"
BOUNDS = {
    "quick": "root search: 7 increasing functions x 5 intervals x 41 targets (in and out of range) x 3 precisions or 3 seeds, and the same with the "
    "function undefined on 6 sets of arguments; task families: 12 requested values x dims 2..6; sparsity tasks: 6 dims x 11 steps; scaling of "
    "task lists: 6 tasks, every tail of the list",
    "thorough": "401 targets, 10 seeds, dims up to 12",
}
ASSUMPTIONS = ["where the function is undefined on part of the interval the search may give up, but may not be wrong"]
FUNCTIONS = {
    "identity": lambda x: x, "cube": lambda x: x**3, "sinh": math.sinh, "atan": math.atan, "softplus": lambda x: math.log1p(math.exp(min(x, 700.0))),
    "kink": lambda x: x if x < 0.3 else 0.3 + 40 * (x - 0.3), "flat": lambda x: 1e-3 * x,
}
INTERVALS = [(0.0, 1.0), (-2.0, 2.0), (0.0, 10.0), (-7.0, -1.0), (0.2999, 0.31)]
HOLES = [((0.5, 9e9),), ((-9e9, 0.1),), ((0.4, 0.6),), ((-0.05, 0.05), (0.74, 0.76)), ((0.45, 0.55), (0.2, 0.3)), ((-9e9, 9e9),)]


def modules():
    """The helper modules of the figures import seaborn, which is not needed for what is checked here."""
    from mc.core import REPO

    path = str(REPO / "workflows" / "projects" / "Beyond_Normal")
    if path not in sys.path:
        sys.path.insert(0, path)
    try:
        importlib.import_module("seaborn")
    except ImportError:
        sys.modules["seaborn"] = types.ModuleType("seaborn")
    return [importlib.import_module(m) for m in ("_high_mi_utils", "_sparsity_utils", "_common_figure_utils")]


def cases(tier):
    deep = tier == "thorough"
    out = [{"part": "search", "f": f, "targets": 401 if deep else 41, "seeds": 10 if deep else 3} for f in FUNCTIONS]
    out += [{"part": "partial", "f": f, "targets": 41 if deep else 9} for f in FUNCTIONS]
    out += [{"part": "families", "dim": d} for d in range(2, 13 if deep else 7)]
    out += [{"part": "sparsity", "dim": d} for d in ((2, 3, 4, 6, 10) if not deep else range(2, 13))]
    out += [{"part": "scale"}]
    return out


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
    rep.trace()


def part_search(case, rep):
    hmu = modules()[0]
    f = FUNCTIONS[case["f"]]
    k = case["targets"]
    for (lo, hi), delta, seed in itertools.product(INTERVALS, (1e-4, 1e-2, 1e-8), range(case["seeds"])):
        if seed and delta != 1e-4:
            continue
        a, b = f(lo), f(hi)
        for i in range(-3, k + 3):
            target = a + (b - a) * (i + 0.5) / k
            asked = []

            def g(x):
                asked.append(x)
                return f(x)

            kw = {} if delta == 1e-4 and seed == 0 else dict(delta=delta, seed=seed)
            got = hmu.binsearch(g, target, lo, hi, max_iter=300, **kw)
            d = dict(f=case["f"], interval=(lo, hi), target=target, delta=delta, seed=seed)
            rep.state()
            rep.trans(len(asked))
            rep.expect(all(lo <= x <= hi for x in asked), "search:outside", f"{min(asked)}..{max(asked)}", **d)
            margin = max(a - target, target - b)
            if margin > 2 * delta:
                rep.expect(got is None, "search:invented", f"{got} where there is no solution", **d)
            elif margin < 0 and math.ulp(max(abs(a), abs(b))) < delta / 10:
                if rep.expect(got is not None, "search:given-up", "a solution exists", **d):
                    rep.expect(abs(f(got) - target) < delta, "search:value", f"f({got}) = {f(got)}", **d)
            elif got is not None:
                rep.expect(abs(f(got) - target) < delta, "search:value", f"f({got}) = {f(got)}", **d)
            rep.outcome((case["f"], None if got is None else round(got, 3)))
    # limits are respected, and arguments may be given in any form
    for limit in (1, 2, 5):
        asked = []
        hmu.binsearch(lambda x: asked.append(x) or f(x), f(0.123), 0.0, 1.0, max_iter=limit, delta=1e-13)
        rep.expect(len(asked) <= limit, "search:limit", f"{len(asked)} evaluations with max_iter={limit}")


def part_partial(case, rep):
    hmu = modules()[0]
    f = FUNCTIONS[case["f"]]
    k = case["targets"]
    for (lo, hi), holes, seed in itertools.product(INTERVALS, HOLES, (0, 5)):
        scale = hi - lo
        bad = lambda x: any(p <= (x - lo) / scale < q for p, q in holes)

        def g(x):
            if bad(x):
                raise ValueError("undefined here")
            return f(x)

        for i in range(k):
            x0 = lo + scale * (i + 0.5) / k
            target = f(x0)
            got = hmu.binsearch(g, target, lo, hi, seed=seed, max_iter=2000)
            d = dict(f=case["f"], interval=(lo, hi), holes=holes, target=target, seed=seed)
            rep.state()
            rep.trans()
            if got is not None:
                rep.expect(lo <= got <= hi and not bad(got) and abs(f(got) - target) < 1e-4, "partial:value", f"{got}", **d)
            elif not bad(x0) and min(abs((x0 - lo) / scale - e) for h in holes for e in h) > 0.05:
                rep.fail("partial:given-up", "the function is defined around the solution", **d)
            again = hmu.binsearch(g, target, lo, hi, seed=seed, max_iter=2000)
            rep.expect(got == again, "partial:reproducible", f"{got}, {again}", **d)
            rep.outcome((case["f"], got is None))

    def other(x):
        raise RuntimeError("not a matter of the argument")

    rep.raises("partial:other-error", lambda: hmu.binsearch(other, 1.0, 0.0, 2.0), (RuntimeError,))


WANTED = (0.0, 0.01, 0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 6.5)


def part_families(case, rep):
    import numpy as np
    from mc.samplers_ref import gaussian_mi

    hmu = modules()[0]
    dim = case["dim"]
    families = {
        "sparse": lambda mi: hmu.generate_sparse_gaussian_task(mi=mi, family_name="fam", dim=dim),
        "spiral": lambda mi: hmu.generate_spiral_task(mi=mi, family_name="fam", dim=dim, speed=0.4),
        "half": lambda mi: hmu.generate_half_cube_task(mi=mi, family_name="fam", dim=dim),
    }
    ids = []
    for name, make in families.items():
        if name == "spiral" and dim < 3:
            continue
        for mi in WANTED:
            task = make(mi)
            rep.state()
            rep.trans()
            d = dict(family=name, mi=mi, dim=dim)
            if not rep.expect(task is not None, "family:missing", "", **d):
                continue
            rep.expect((task.dim_x, task.dim_y) == (dim, dim), "family:dims", f"{task.dim_x}, {task.dim_y}", **d)
            rep.close("family:mi", task.mutual_information, mi, rtol=0, atol=1.01e-4, **d)
            p = task.params
            rep.expect(p["desired_mi"] == mi and p["dim"] == dim and p["family_name"] == "fam", "family:params", f"{p}", **d)
            rep.close("family:true-mi", p["true_mi"], task.mutual_information, rtol=1e-6, atol=1e-9, **d)
            # two interacting pairs with the recorded correlation, nothing else
            c = np.eye(2 * dim)
            for i in range(2):
                c[i, dim + i] = c[dim + i, i] = p["correlation"]
            rep.close("family:correlation", gaussian_mi(c, dim), mi, rtol=0, atol=1.1e-4, **d)
            ids.append(task.id)
            x, y = task.sample(400, 3)
            rep.expect(np.isfinite(np.asarray(x)).all() and np.isfinite(np.asarray(y)).all(), "family:sample", **d)
            if name == "sparse":
                x, y = (np.asarray(v, dtype=float) for v in task.sample(5000, 3))
                r = np.corrcoef(np.hstack([x, y]).T)
                rep.expect(np.abs(r - c).max() < 0.09, "family:law", f"{np.abs(r - c).max()}", **d)
            rep.outcome((name, mi, dim))
    rep.expect(len(set(ids)) == len(ids), "family:ids", f"{ids}")
    # the covariance is that of the requested parameters
    for corr in (0.0, 0.3, 0.9):
        c = np.eye(2 * dim)
        for i in range(2):
            c[i, dim + i] = c[dim + i, i] = corr
        rep.trans(2)
        rep.close("gaussian:mi", hmu.mi_sparse_gaussian(corr, dim), gaussian_mi(c, dim), rtol=1e-6, atol=1e-9)
        rep.close("gaussian:sampler", hmu.get_sparse_gaussian_sampler(corr, dim).mutual_information(), gaussian_mi(c, dim), rtol=1e-6, atol=1e-9)


def part_sparsity(case, rep):
    import numpy as np

    su = modules()[1]
    dim = case["dim"]
    for mi in (0.5, 1.0):
        top = su.get_initial_alpha(mi, dim)
        rep.state()
        rep.trans()
        rep.expect(0 < top <= 10, "sparsity:alpha", f"{top}", dim=dim)
        tasks = [(su.get_lambda_task(mi, dim, a), a, dim) for a in np.linspace(0.0, top, 6)[:-1]]
        tasks += [(su.get_n_interacting_task(mi, dim, k), 0.0, k) for k in range(1, dim, max(1, dim // 4))]
        for t, alpha, k in tasks:
            d = dict(dim=dim, mi=mi, alpha=alpha, interacting=k)
            rep.state()
            rep.trans()
            rep.close("sparsity:mi", t.mutual_information, mi, rtol=0, atol=1.01e-4, **d)
            rep.expect((t.dim_x, t.dim_y) == (dim, dim), "sparsity:dims", f"{t.dim_x}, {t.dim_y}", **d)
            rep.expect(t.params["n_interacting"] == k, "sparsity:interacting", f"{t.params}", **d)
            rep.close("sparsity:params", t.params["alpha"], alpha, rtol=1e-9, atol=1e-12, **d)
            rep.outcome((dim, mi, round(float(alpha), 3), k))


def part_scale(case, rep):
    """Every task of a figure is whitened; nothing else about it changes."""
    import numpy as np
    from bmi.benchmark import tasks as bt

    cfu = modules()[2]
    base = [
        bt.task_bivariate_normal(gaussian_correlation=0.5), bt.task_multinormal_dense(3, 2), bt.task_additive_noise(epsilon=0.4),
        bt.task_bivariate_normal(gaussian_correlation=-0.9), bt.task_multinormal_2pair(3, 4), bt.transform_half_cube_task(bt.task_multinormal_dense(2, 2)),
    ]
    for k in range(len(base) + 1):
        chosen = base[k:] + base[: k // 2]
        got = cfu.scale_tasks({t.id: t for t in chosen})
        rep.state()
        rep.trans(len(chosen))
        rep.expect(list(got) == [t.id for t in chosen], "scale:keys", f"{list(got)}")
        for t, b in zip(got.values(), chosen):
            rep.expect((t.id, t.name, t.dim_x, t.dim_y) == (b.id, b.name, b.dim_x, b.dim_y), "scale:identity", f"{t.metadata}")
            rep.expect(t.params == b.params, "scale:params", f"{t.params} != {b.params}")
            rep.close("scale:mi", t.mutual_information, b.mutual_information, rtol=1e-6, atol=1e-9)
            for n, seed in ((50, 1), (7, 2)):
                for v, w in zip(t.sample(n, seed), b.sample(n, seed)):
                    v, w = np.asarray(v, dtype=float), np.asarray(w, dtype=float)
                    rep.close("scale:sample", v, (w - w.mean(0)) / w.std(0), rtol=1e-4, atol=1e-4, task=b.id, n=n)
            rep.outcome((k, b.id))
