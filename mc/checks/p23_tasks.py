"""P23: every benchmark task is what its id says: law, dimensions, ground truth, parameters; ids are unique."""

import functools
import itertools
import math

PROPERTY = "P23"
BOUNDS = {
    "quick": "all registry tasks and all tasks of the demo, v1 and v2 workflow configurations; every task factory over its "
    "parameter grid (about 300 tasks); 2 seeds x 3 sample sizes each against a reference built from the id alone; Gaussian-mixture tasks: "
    "4000 points projected on 6 directions against the exact law",
    "thorough": "larger grids, 4 seeds and 20000 points",
}
ASSUMPTIONS = ["ground truth of mixture tasks is a Monte Carlo estimate with 100000 points: judged at 0.02-0.03",
               "the constants of the AI distribution are documented nowhere: only its contract is checked"]
PARTS = 8


def cases(tier):
    # loading v2 evaluates every Monte Carlo ground truth: few parts
    out = [{"part": "config", "which": w, "i": i, "of": n} for w, n in (("v2", 3), ("v1", PARTS), ("demo", 1)) for i in range(n)]
    out += [{"part": "registry", "i": i} for i in range(PARTS)]
    out += [{"part": "factory", "i": i, "wide": tier == "thorough"} for i in range(PARTS)]
    out += [{"part": "ids", "wide": tier == "thorough"}]
    return out


@functools.lru_cache(None)
def load_config(which):
    import importlib.util

    from mc.core import REPO

    path = REPO / "workflows" / "benchmark" / which / "config.py"
    spec = importlib.util.spec_from_file_location(f"mc_config_{which}", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    mod.TASKS = list(mod.TASKS)
    return mod


def as_float(v):
    import numpy as np

    return np.asarray(v, dtype=float)


def same_params(got, want):
    import numpy as np

    if set(got) != set(want):
        return False
    for k in want:
        a, b = got[k], want[k]
        if a is None or b is None or isinstance(b, (bool, str)):
            if a != b:
                return False
        elif np.shape(a) != np.shape(b) or not np.allclose(as_float(a), as_float(b), rtol=1e-6, atol=1e-9):
            return False
    return True


def check_task(rep, task, ref, what, rescaled=False, task_id=None, extra_params=None):
    import numpy as np

    rep.state()
    d = dict(task=what)
    if task_id is not None:
        rep.expect(task.id == task_id, "id", f"{task.id} != {task_id}", **d)
    meta = task.metadata
    rep.expect((meta.dim_x, meta.dim_y) == (ref.dx, ref.dy) == (task.dim_x, task.dim_y), "dims", f"{meta.dim_x},{meta.dim_y}", **d)
    rep.expect(abs(float(meta.mi_true) - ref.mi) <= ref.mi_tol * max(1.0, ref.mi), "mi", f"{meta.mi_true} instead of {ref.mi}", **d)
    rep.expect(task.mutual_information == meta.mi_true == task.metadata.mi_true, "mi:changes", "", **d)
    rep.expect(isinstance(task.name, str) and task.name.strip() != "" and meta.task_name == task.name and meta.task_id == task.id, "name", task.name, **d)
    if ref.params is not None:
        want = {**ref.params, **(extra_params or {})}
        rep.expect(same_params(task.params, want), "params", f"{str(task.params):.300} instead of {str(want):.300}", **d)
    from mc.tasks_ref import apply

    seeds = (0, 3, 12, 99) if rep.tier == "thorough" else (0, 3)
    for seed in seeds:
        for n in ((2, 7, 40) if rescaled else (1, 2, 23)):
            rep.trans()
            x, y = task.sample(n, seed)
            rep.expect(np.shape(x) == (n, ref.dx) and np.shape(y) == (n, ref.dy), "shape", f"{np.shape(x)}, {np.shape(y)}", n=n, **d)
            x, y = as_float(x), as_float(y)
            rep.expect(np.isfinite(x).all() and np.isfinite(y).all(), "finite", "", n=n, seed=seed, **d)
            a, b = task.sample(n, seed)
            rep.expect(np.array_equal(as_float(a), x) and np.array_equal(as_float(b), y), "deterministic", "", n=n, seed=seed, **d)
            if ref.elliptic is not None and not rescaled:
                both = [np.hstack(v) for v in ((x, y), ref.sample(n, seed))]
                size = [np.einsum("ni,ij,nj->n", v, np.linalg.inv(ref.elliptic[0]), v) for v in both]
                rep.close("sample:size", size[0], size[1], rtol=2e-3, atol=1e-4, n=n, seed=seed, **d)
            elif ref.sample is not None:
                wx, wy = ref.sample(n, seed)
                if rescaled:
                    wx, wy = apply("rescale", wx, wy)
                # heavy tails make the angle of a spiral ill-conditioned in single precision
                tol = 2e-3
                for got, want, side in ((x, wx, "x"), (y, wy, "y")):
                    rep.close(f"sample:{side}", got, want, rtol=tol, atol=tol, n=n, seed=seed, **d)
            elif rescaled:
                for v in (x, y):
                    rep.close("rescaled:mean", v.mean(0), np.zeros(v.shape[1]), atol=1e-4, **d)
                    ok = v.std(0) > 0
                    rep.close("rescaled:std", v.std(0)[ok], np.ones(ok.sum()), atol=1e-4, **d)
            rep.outcome((what, n, seed, round(float(x[0, 0]), 4)))
    rep.trace()
    if ref.elliptic is not None and not rescaled:
        c, df = ref.elliptic
        law(rep, task, ref, d, comps=[(1.0, [0] * len(c), c)], df=df)
    if ref.mixture is not None and not rescaled:
        law(rep, task, ref, d)


def law(rep, task, ref, d, comps=None, df=None):
    import numpy as np
    from scipy import stats

    n = 20000 if rep.tier == "thorough" else 4000
    comps, undo = ref.mixture if comps is None else (comps, lambda x, y: np.hstack([x, y]))
    dist = stats.norm if df is None else (lambda m, s: stats.t(df, m, s))
    x, y = (as_float(v) for v in task.sample(n, 5))
    z = undo(x, y)
    k = z.shape[1]
    directions = [np.eye(k)[0], np.eye(k)[-1], np.ones(k), np.array([(-1.0) ** i * (1 + i) for i in range(k)]),
                  np.eye(k)[0] + np.eye(k)[ref.dx], np.eye(k)[0] - np.eye(k)[ref.dx]]
    for v in directions:
        t = np.sort(z @ v)
        f = sum(w * dist(np.dot(m, v), math.sqrt(v @ np.asarray(c, float) @ v)).cdf(t) for w, m, c in comps)
        dev = max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n))
        rep.trans()
        rep.expect(dev < 3.3 / math.sqrt(n), "law", f"projection on {v.tolist()} is off by {dev:.4f}", **d)


def part_registry(case, rep):
    import bmi
    from mc.tasks_ref import parse

    tasks = bmi.benchmark.BENCHMARK_TASKS
    for key, task in list(tasks.items())[case["i"] :: PARTS]:
        ref = parse(key)
        if not rep.expect(ref is not None, "unknown-id", key):
            continue
        extra = {"speed": 1.0, "normalize_speed": True} if key.startswith("spiral-") else None
        check_task(rep, task, ref, key, task_id=key, extra_params=extra)


def part_config(case, rep):
    from mc.tasks_ref import parse

    mod = load_config(case["which"])
    tasks = list(mod.TASKS)
    for task in tasks[case["i"] :: case["of"]]:
        key = task.id
        if key == "1v1-AI":
            class Any:
                dx, dy, mi, mi_tol, params, sample, mixture, elliptic = 1, 1, task.mutual_information, 1e-9, None, None, None, None

            rep.expect(0.3 < task.mutual_information < 3, "mi", f"AI: {task.mutual_information}")
            ref = Any
        else:
            ref = parse(key)
        if not rep.expect(ref is not None, "unknown-id", key):
            continue
        extra = {"speed": 1.0, "normalize_speed": True} if key.startswith("spiral-") else None
        check_task(rep, task, ref, f"{case['which']}:{key}", rescaled=True, extra_params=extra)


def grid(wide):
    """(factory name, args, id) over the parameter grids."""
    out = []

    def add(name, id_, **kw):
        out.append((name, kw, id_))

    for r in (-0.9, 0.0, 0.25, 0.75, 0.999):
        add("bivariate_normal.task_bivariate_normal", f"1v1-normal-{r}", gaussian_correlation=r)
        add("bimodal_gaussians.task_bimodal_gaussians", f"1v1-bimodal-{r}", gaussian_correlation=r)
    for e in (0.05, 0.1, 0.5, 0.75, 2.0):
        add("additive_noise.task_additive_noise", f"1v1-additive-{e}", epsilon=e)
    dims = [(1, 1), (1, 3), (2, 2), (3, 2), (4, 4)] + ([(2, 5), (6, 6), (9, 2)] if wide else [])
    for dx, dy in dims:
        for off in (0.0, 0.2, 0.5):
            add("multinormal.task_multinormal_dense", f"multinormal-dense-{dx}-{dy}-{off}", dim_x=dx, dim_y=dy, off_diag=off)
        for df in (1, 2, 7):
            add("student.task_student_identity", f"student-identity-{dx}-{dy}-{df}", dim_x=dx, dim_y=dy, df=df)
            for off in (0.0, 0.5):
                add("student.task_student_dense", f"student-dense-{dx}-{dy}-{df}-{off}", dim_x=dx, dim_y=dy, df=df, off_diag=off)
        for k in range(0, min(dx, dy) + 1):
            for strength in (0.5, 2.0):
                add("multinormal.task_multinormal_sparse", f"multinormal-sparse-{dx}-{dy}-{k}-{strength}", dim_x=dx, dim_y=dy, n_interacting=k, strength=strength)
                add("student.task_student_sparse", f"student-sparse-{dx}-{dy}-3-{k}-{strength}", dim_x=dx, dim_y=dy, df=3, n_interacting=k, strength=strength)
            for a, l, b, e in ((0.0, 1.0, 0.0, None), (0.5, 2.0, 0.0, 0.25), (0.3, 0.0, 0.0, 1.0)):
                add("multinormal.task_multinormal_lvm", f"multinormal-lvm-{dx}-{dy}-{k}-{a:.5f}-{l:.5f}-{b:.5f}-{(l if e is None else e):.5f}",
                    dim_x=dx, dim_y=dy, n_interacting=k, alpha=a, lambd=l, beta=b, **({} if e is None else {"eta": e}))
        if min(dx, dy) >= 2:
            add("multinormal.task_multinormal_2pair", f"multinormal-sparse-{dx}-{dy}-2-2.0", dim_x=dx, dim_y=dy)
            add("multinormal.task_multinormal_2pair", f"multinormal-sparse-{dx}-{dy}-2-0.5", dim_x=dx, dim_y=dy, strength=0.5)
            add("student.task_student_2pair", f"student-sparse-{dx}-{dy}-2-2-0.5", dim_x=dx, dim_y=dy, df=2, strength=0.5)
            add("multinormal.task_multinormal_sparse", f"multinormal-sparse-{dx}-{dy}-2-2.0", dim_x=dx, dim_y=dy)
        add("multinormal.task_multinormal_dense", f"multinormal-dense-{dx}-{dy}-0.5", dim_x=dx, dim_y=dy)
    add("bivariate_normal.task_bivariate_normal", "1v1-normal-0.75")
    add("bimodal_gaussians.task_bimodal_gaussians", "1v1-bimodal-0.75")
    for r in (0.9, 0.3):
        add("mixtures.task_x", f"1v1-X-{r}", gaussian_correlation=r)
    add("mixtures.task_galaxy", "2v1-galaxy-0.5-3.0")
    add("mixtures.task_galaxy", "2v1-galaxy-0.1-1.5", speed=0.1, distance=1.5)
    add("mixtures.task_waves", "2v1-waves-12-5.0-3.0")
    add("mixtures.task_waves", "2v1-waves-5-2.0-1.5", n_components=5, wave_amplitude=2.0, wave_frequency=1.5)
    for d, k in ((1, 1), (3, 2), (2, 5)) + (((5, 10), (25, 5)) if wide else ()):
        add("mixtures.task_concentric_multinormal", f"{d}v1-concentric_gaussians-{k}", dim_x=d, n_components=k)
    add("mixtures.task_concentric_multinormal", "2v1-concentric_gaussians-3", dim_x=2)
    for dx, dy, k, st, f in ((2, 2, 1, 2.0, 0.5), (3, 2, 2, 1.0, 0.0), (2, 3, 2, 2.0, 0.2), (2, 2, 2, 2.0, 1.0)):
        add("mixtures.task_multinormal_sparse_w_inliers", f"mult-sparse-w-inliers-{dx}-{dy}-{k}-{st}-{f}", dim_x=dx, dim_y=dy, n_interacting=k, strength=st, inlier_fraction=f)
    add("mixtures.task_multinormal_sparse_w_inliers", "mult-sparse-w-inliers-3-3-2-2.0-0.2", dim_x=3, dim_y=3)
    return out


def make(name, kw):
    import importlib

    mod, fn = name.split(".")
    return getattr(importlib.import_module(f"bmi.benchmark.tasks.{mod}"), fn)(**kw)


def part_factory(case, rep):
    from mc.tasks_ref import parse

    for name, kw, id_ in grid(case["wide"])[case["i"] :: PARTS]:
        task = make(name, kw)
        check_task(rep, task, parse(id_), (name, kw), task_id=id_)
        if name.startswith(("multinormal.", "student.")):
            rep.expect(make(name, {**kw, "task_name": "My own"}).name == "My own", "task-name", name)


def part_ids(case, rep):
    """Ids and keys are unique and name the task they lead to; configurations are runnable."""
    import bmi
    from bmi.benchmark.task_list import BENCHMARK_TASKS_LIST

    tasks = bmi.benchmark.BENCHMARK_TASKS
    rep.expect(len(tasks) == len(BENCHMARK_TASKS_LIST) >= 40, "registry:lost", f"{len(tasks)} keys, {len(BENCHMARK_TASKS_LIST)} tasks")
    rep.expect(bmi.BENCHMARK_TASKS is tasks or dict(bmi.BENCHMARK_TASKS) == dict(tasks), "registry:alias")
    for k, t in tasks.items():
        rep.state()
        rep.trans()
        rep.expect(t.id == k, "registry:key", f"{k} -> {t.id}")
        rep.expect("/" not in k and " " not in k, "registry:path", k)
        rep.outcome(k)
    seen = {}
    for name, kw, id_ in grid(case["wide"]):
        seen.setdefault(id_, set()).add(name)
    for which in ("demo", "v1", "v2"):
        mod = load_config(which)
        ids = [t.id for t in mod.TASKS]
        rep.trans(len(ids))
        rep.expect(len(set(ids)) == len(ids) > 0, "config:duplicate", f"{which}: {sorted(i for i in ids if ids.count(i) > 1)}")
        rep.expect(len(set(mod.SEEDS)) == len(mod.SEEDS) > 0 and all(isinstance(s, int) for s in mod.SEEDS), "config:seeds", which)
        rep.expect(len(set(mod.N_SAMPLES)) == len(mod.N_SAMPLES) > 0 and all(n > 1 for n in mod.N_SAMPLES), "config:n", which)
        for e_id, est in mod.ESTIMATORS_DICT.items():
            rep.expect(callable(getattr(est, "estimate_with_info", None)) and callable(getattr(est, "estimate", None)), "config:estimator", e_id)
            p = est.parameters().dict()
            rep.state()
            rep.trans()
            stated = e_id.rsplit("-", 1)[-1]
            values = [v for k, v in p.items() if k in ("neighborhoods", "neighbors", "bins", "hidden_layers", "mlp")]
            if stated.replace("_", "").isdigit() and values:
                numbers = [int(v) for v in stated.split("_")]
                v = values[0].get("hidden_layers") if isinstance(values[0], dict) else values[0]
                v = [v] if isinstance(v, int) else list(v)
                rep.expect(v == numbers, f"config:label:{which}:{e_id}", f"{e_id} runs with {v}")
    rep.trace()


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
