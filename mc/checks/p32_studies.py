"""P32: every workflow of the study is complete, and what its rules write follows from what they read."""

import contextlib
import importlib
import io
import itertools
import json
import math
import os
import pathlib
import re
import shutil
import sys
import tempfile
import types

PROPERTY = "P32"
BOUNDS = {
    "quick": "every workflow file (22): its whole graph of jobs, tables of tasks, estimators, names; each figure workflow with invented results of every task; "
    "the example distributions on 40 points; aggregations for every assignment of 4 values to 3 seeds; posterior tables for every set of 3 kinds of draws; "
    "results tables for 3 sizes x 3 seeds x 2 estimators; profiles and fits of each distribution",
    "thorough": "aggregations for every assignment of 4 values to 4 seeds, twice the points",
}
ASSUMPTIONS = ["the drawing library is real, the file it would write is not; sizes that only cost time are reduced"]
EXTERNAL = {
    # file -> the workflow that writes it
    "generated/benchmark/v2/results.csv": "benchmark/v2/run.smk",
    "generated/projects/Mixtures/gmm_benchmark/results.csv": "projects/Mixtures/gmm_benchmark.smk",
}


def cases(tier):
    from mc.core import REPO

    deep = tier == "thorough"
    files = sorted(str(p.relative_to(REPO / "workflows")) for p in (REPO / "workflows").rglob("*.smk") if not p.name.startswith("_"))
    slow = ("v2", "gmm", "cool", "outliers", "v1", "benchmark")
    files.sort(key=lambda f: not any(s in f for s in slow))
    out = [{"part": "declared", "file": f} for f in files]
    out += [{"part": "figure", "file": f} for f in ("figure_tails", "figure_sparsity", "figure_spiral", "figure_high_mi")]
    out += [{"part": "examples", "name": n} for n in ("x", "galaxy", "ai", "waves")]
    out += [{"part": "outliers"}, {"part": "posterior"}, {"part": "table"}, {"part": "compare"}, {"part": "fit"}, {"part": "discrete"}]
    out += [{"part": "profiles", "file": f} for f in ("distinct_profiles", "pmi_profiles", "pmi_plot_1v1")]
    out += [{"part": "pointwise"}, {"part": "cool"}]
    out += [{"part": "integration", "setup": n} for n in ("Four_Balls", "Four_Balls_Biased", "Four_Balls_SinSquare", "Normal-25Dim")]
    out += [{"part": "aggregate", "file": f, "seeds": 4 if deep else 3} for f in ("outliers", "how_good_integration_is")]
    return out


def run(case, rep):
    import matplotlib

    matplotlib.use("Agg")
    globals()["part_" + case["part"]](case, rep)
    rep.trace()


class Anything(types.ModuleType):
    """Stands in for a drawing library that is not installed."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


@contextlib.contextmanager
def study(name, edit=None):
    """The workflow, in a scratch directory; figures it saves end up in the list."""
    import jax
    import matplotlib.figure
    import matplotlib.pyplot as plt
    import resource

    from mc import smk
    from mc.core import REPO

    path = REPO / "workflows" / name
    old, before, known = os.getcwd(), list(sys.path), set(sys.modules)
    tmp = tempfile.mkdtemp(prefix="mc-p32-")
    save, figures = matplotlib.figure.Figure.savefig, []
    limit, x64 = resource.setrlimit, jax.config.jax_enable_x64

    def keep(fig, target, *args, **kwargs):
        figures.append(fig)
        pathlib.Path(str(target)).write_text("figure")

    own = ("config", "_utils", "example_distributions", "_common_figure_utils", "_high_mi_utils", "_sparsity_utils", "subplots_from_axsize")
    for m in own:
        sys.modules.pop(m, None)
    try:
        importlib.import_module("seaborn")
    except ImportError:
        sys.modules["seaborn"] = Anything("seaborn")
    # published separately; the package has a copy
    from bmi.plot_utils import subplots_from_axsize as copy

    sys.modules["subplots_from_axsize"] = types.ModuleType("subplots_from_axsize")
    sys.modules["subplots_from_axsize"].subplots_from_axsize = lambda nrows=1, ncols=1, axsize=(3, 2), dpi=None, **k: copy.subplots_from_axsize(
        axsize=axsize, nrows=nrows, ncols=ncols, **k)
    sys.path[:0] = [str(path.parent), str(path.parent.parent)]
    try:
        matplotlib.figure.Figure.savefig = keep
        resource.setrlimit = lambda *a: None
        w = smk.Workflow(path, edit=edit)
        w.figures = figures
        os.chdir(tmp)
        yield w
    finally:
        plt.close("all")
        matplotlib.figure.Figure.savefig = save
        resource.setrlimit = limit
        jax.config.update("jax_enable_x64", x64)
        os.chdir(old)
        sys.path[:] = before
        for m in own:
            sys.modules.pop(m, None)
        if isinstance(sys.modules.get("seaborn"), Anything):
            sys.modules.pop("seaborn")
        shutil.rmtree(tmp)


def job(w, path):
    """The job that writes the file."""
    found = w.producers(path)
    assert len(found) == 1, (path, found)
    return found[0][0].job(found[0][1])


def write(path, text):
    p = pathlib.Path(path)
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_text(text)


def part_declared(case, rep):
    with study(case["file"]) as w:
        d = dict(file=case["file"])
        try:
            dag = w.dag(external=EXTERNAL)
        except LookupError as e:
            rep.fail("declared:graph", f"{e}", **d)
            return
        rep.state(len(dag))
        rep.trans()
        # other targets that can be asked for
        for rule in w.rules.values():
            if not any("{" in p for p in rule.outputs()):
                try:
                    dag.update(w.dag([], external=EXTERNAL))
                    j = rule.job({})
                    dag.update(w.dag(list(j.input), external=EXTERNAL))
                except LookupError as e:
                    rep.fail("declared:graph", f"{rule.name}: {e}", **d)
        written = {}
        for j, _ in dag.values():
            for o in j.output:
                rep.expect(written.setdefault(os.path.normpath(str(o)), j.id) == j.id, "declared:overwritten", f"{o} by {j.id} and {written[os.path.normpath(str(o))]}", **d)
                rep.expect(not os.path.isabs(o) and not os.path.normpath(o).startswith(".."), "declared:outside", f"{o}", **d)
        env = w.env
        for name in ("TASKS", "UNSCALED_TASKS", "TASKS_DICT", "MIXING_TASKS", "VARIANCE_TASKS", "BENCHMARK_TASKS"):
            table = env.get(name)
            if isinstance(table, dict) and all(hasattr(t, "mutual_information") for t in table.values()):
                for k, t in table.items():
                    rep.expect(t.id == k, "declared:id", f"{name}[{k}] is {t.id}", **d)
                    rep.expect("/" not in k, "declared:id", f"{k} cannot be part of a path", **d)
            elif name == "TASKS" and isinstance(table, (list, tuple)):
                ids = [t.id for t in table]
                rep.expect(len(set(ids)) == len(ids), "declared:id", f"{ids}", **d)
        tasks = env.get("TASKS_DICT", env.get("TASKS", {}))
        raw = env.get("UNSCALED_TASKS")
        if raw is not None:
            rep.expect(list(raw) == list(tasks), "declared:scaled", f"{list(raw)} {list(tasks)}", **d)
            for k, t in tasks.items():
                rep.expect((t.name, t.dim_x, t.dim_y, t.params) == (raw[k].name, raw[k].dim_x, raw[k].dim_y, raw[k].params), "declared:scaled", f"{k}", **d)
        made = env.get("ESTIMATORS", env.get("ESTIMATORS_DICT", {}))
        names = dict(env.get("ESTIMATOR_NAMES", {}))
        if "read_results" in env and "_common_figure_utils" in sys.modules:
            cfu = sys.modules["_common_figure_utils"]
            if any("benchmark_" in r or "plot_benchmark" in r for r in env):
                names = {**cfu.ESTIMATOR_NAMES, **names}
                rep.expect(set(made) <= set(names), "declared:names", f"{set(made) - set(names)} have no name", **d)
        for table in ("ESTIMATOR_NAMES", "ESTIMATOR_COLORS", "ESTIMATOR_MARKERS"):
            if table in env and table != "ESTIMATOR_NAMES" and env.get("ESTIMATORS") is not None:
                rep.expect(set(made) <= set(env[table]), "declared:tables", f"{table} lacks {set(made) - set(env[table])}", **d)
                values = [env[table][e] for e in made if e in env[table]]
                rep.expect(len(set(values)) == len(values) or "Beyond_Normal" in case["file"], "declared:tables", f"{table} repeats {values}", **d)
        if "NAMES" in env:
            rep.expect(set(tasks) <= set(env["NAMES"]), "declared:tables", f"NAMES lacks {set(tasks) - set(env['NAMES'])}", **d)
            rep.expect(len(set(env["NAMES"].values())) == len(env["NAMES"]), "declared:tables", "NAMES repeat", **d)
        # every run is there, on the sample of its own task, size and seed
        sizes, seeds = env.get("N_SAMPLES"), env.get("SEEDS")
        applied = [j for j, _ in dag.values() if "task_id" in j.wild and "estimator_id" in j.wild]
        if applied:
            sizes = [sizes] if isinstance(sizes, int) else list(sizes)
            want = set(itertools.product(made, tasks if isinstance(tasks, dict) else [t.id for t in tasks], map(str, sizes), map(str, seeds)))
            got = [(j.wild["estimator_id"], j.wild["task_id"], j.wild["n_samples"], j.wild["seed"]) for j in applied]
            rep.expect(set(got) == want and len(got) == len(want), "declared:runs", f"{sorted(set(got) ^ want)[:5]}", **d)
            rep.expect(len(want) == len(made) * len(tasks) * len(sizes) * len(seeds), "declared:runs", "sizes or seeds repeat", **d)
            for j in applied:
                (source,) = [dag[k][0] for k in dag[j.id][1]]
                same = all(source.wild[k] == j.wild[k] for k in ("task_id", "n_samples", "seed"))
                rep.expect(same, "declared:source", f"{j.id} reads {source.id}", **d)
        for path, writer in EXTERNAL.items():
            if writer == case["file"]:
                rep.expect(os.path.normpath(os.path.join(w.workdir or ".", "results.csv")) == path and "results.csv" in written, "declared:external", f"{w.workdir}", **d)
        if case["file"].endswith("gmm_benchmark.smk"):
            other = {t for t in importlib.import_module("bmi.benchmark").BENCHMARK_TASKS}
            rep.expect(len(other) > 0, "harness")
        rep.outcome((case["file"], len(dag)))


def results_for(w, value):
    """Invented results for every run of the workflow, then its table; returns what the table must say."""
    import bmi
    from bmi.benchmark.result import RunResult

    dag = w.dag(["results.csv"])
    rows = []
    for j, _ in dag.values():
        if j.rule.name == "apply_estimator":
            t = w.env["TASKS"][j.wild["task_id"]]
            e, n, s = j.wild["estimator_id"], int(j.wild["n_samples"]), int(j.wild["seed"])
            v = value(e, t, n, s)
            r = RunResult(task_id=t.id, seed=s, estimator_id=e, mi_estimate=v, time_in_seconds=0.5, n_samples=n, success=True)
            os.makedirs(os.path.dirname(j.output[0]), exist_ok=True)
            r.dump(str(j.output[0]))
            rows.append(dict(task=t, estimator=e, n=n, seed=s, value=v))
    job(w, "results.csv").run()
    return rows


def invented(e, t, n, s):
    h = sum(ord(c) * (i + 1) for i, c in enumerate(e + t.id)) % 97
    return 0.3 + h / 100 + 0.07 * s * (1 + h % 3)


def lines(ax):
    """Label -> (x, y) of the curves of an axis."""
    import numpy as np

    return {ln.get_label(): (np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)) for ln in ax.get_lines()}


def curves(rep, ax, rows, x_of, names, what, top=math.inf):
    """The axis shows, for each estimator, the mean over seeds of the rows below `top` that have the parameter."""
    rows = [r for r in rows if x_of(r["task"]) is not None and r["value"] < top]
    points = sorted({float(x_of(r["task"])) for r in rows})
    got = lines(ax)
    ests = sorted({r["estimator"] for r in rows})
    rep.expect(set(got) == {names[e] for e in ests} | {"True MI"}, f"{what}:labels", f"{sorted(got)} instead of {[names[e] for e in ests]}")

    def mean(sel):
        by = [[r for r in sel if float(x_of(r["task"])) == p] for p in points]
        return [(p, g) for p, g in zip(points, by) if g]

    for e in ests:
        if names[e] in got:
            want = mean([r for r in rows if r["estimator"] == e])
            x, y = got[names[e]]
            rep.expect(len(x) == len(want), f"{what}:points", f"{len(x)} points instead of {len(want)}", estimator=e)
            if len(x) == len(want):
                rep.close(f"{what}:x", x, [p for p, _ in want], rtol=1e-6, atol=1e-9, estimator=e)
                rep.close(f"{what}:y", y, [sum(r["value"] for r in g) / len(g) for _, g in want], rtol=1e-6, atol=1e-9, estimator=e)
    if "True MI" in got:
        x, y = got["True MI"]
        want = mean(rows)
        rep.expect(len(x) == len(want), f"{what}:truth-points", f"{len(x)}")
        if len(x) == len(want):
            rep.close(f"{what}:truth", y, [sum(float(r["task"].mutual_information) for r in g) / len(g) for _, g in want], rtol=1e-5, atol=1e-7)
    rep.state(len(points))


def part_figure(case, rep):
    import numpy as np
    import pandas as pd
    import yaml

    with study(f"projects/Beyond_Normal/{case['file']}.smk") as w:
        rows = results_for(w, invented)
        env = w.env
        names = sys.modules["_common_figure_utils"].ESTIMATOR_NAMES
        table = pd.read_csv("results.csv")
        rep.expect(len(table) == len(rows), "results:rows", f"{len(table)}")
        for r in rows:
            t = r["task"]
            sel = table[(table.task_id == t.id) & (table.estimator_id == r["estimator"]) & (table.n_samples == r["n"]) & (table.seed == r["seed"])]
            if not rep.expect(len(sel) == 1, "results:row", f"{len(sel)}", task=t.id):
                continue
            rep.trans()
            rep.close("results:value", sel.iloc[0].mi_estimate, r["value"], rtol=1e-9)
            rep.close("results:truth", sel.iloc[0].mi_true, float(t.mutual_information), rtol=1e-6, atol=1e-9)
            back = yaml.safe_load(sel.iloc[0].task_params)
            rep.expect(set(back) == set(t.params) and all(same(back[k], v) for k, v in t.params.items()), "results:params", f"{back} instead of {t.params}", task=t.id)
        for target in w.first().job({}).input:
            j = job(w, target)
            if j.rule.parts.get("script") or "interpolating" in target:
                continue
            j.run()
            fig = w.figures[-1]
            axs = fig.axes
            p = lambda k: lambda t: t.params.get(k)  # noqa: E731
            if case["file"] == "figure_tails":
                curves(rep, axs[0], rows, p("alpha"), names, "figure:tails:exponent", 3.0)
                curves(rep, axs[1], rows, p("dof"), names, "figure:tails:dof", 3.0)
            elif case["file"] == "figure_sparsity":
                top = env["DIM"]
                curves(rep, axs[0], [r for r in rows if r["task"].params["n_interacting"] == top], p("alpha"), names, "figure:sparsity:alpha", 3.0)
                curves(rep, axs[1], [r for r in rows if r["task"].params["alpha"] == 0], p("n_interacting"), names, "figure:sparsity:interacting", 3.0)
            elif case["file"] == "figure_spiral":
                curves(rep, axs[0], rows, p("speed"), names, "figure:spiral", 3.0)
            else:
                families = sorted({r["task"].params["family_name"] for r in rows})
                rep.expect(len(axs) == len(families), "figure:families", f"{len(axs)} axes for {families}")
                for ax, f in zip(axs, families):
                    rep.expect(ax.get_title() == f, "figure:title", f"{ax.get_title()}")
                    curves(rep, ax, [r for r in rows if r["task"].params["family_name"] == f], p("desired_mi"), names, "figure:high-mi")
            rep.outcome((case["file"], target))
        if case["file"] == "figure_spiral":
            spiral(w, rep)
        if case["file"] == "figure_sparsity":
            for t in env["TASK_LIST"]:
                c = np.asarray(env["params_to_lvm"](t.params).correlation)
                d = env["DIM"]
                # -1/2 log det of the squared canonical correlations
                mi = 0.5 * (np.linalg.slogdet(c[:d, :d])[1] + np.linalg.slogdet(c[d:, d:])[1] - np.linalg.slogdet(c)[1])
                rep.close("sparsity:matrix", mi, t.mutual_information, rtol=1e-3, atol=1e-4, task=t.id)


def same(a, b):
    import numpy as np

    if isinstance(b, (str, bool)) or b is None:
        return a == b
    try:
        return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-6)
    except (TypeError, ValueError):
        return False


def spiral(w, rep):
    """The plane of X turns with the distance from the origin."""
    import numpy as np

    for t in w.env["TASK_LIST"]:
        speed, rho = t.params["speed"], t.params["correlation"]
        x, y = (np.asarray(v, dtype=float) for v in t.sample(4000, 3))
        a = -speed * (x**2).sum(1)
        for sign in (1, -1):
            back = np.stack([np.cos(a) * x[:, 0] - sign * np.sin(a) * x[:, 1], sign * np.sin(a) * x[:, 0] + np.cos(a) * x[:, 1]], 1)
            c = np.corrcoef(np.hstack([back, y]).T)
            if abs(c[0, 2] - rho) < 0.06 and abs(c[0, 1]) < 0.07 and abs(c[1, 2]) < 0.07:
                break
        else:
            rep.fail("spiral:law", f"{c}", speed=speed)
        rep.close("spiral:mi", t.mutual_information, -0.5 * math.log(1 - rho**2), rtol=1e-5)
        rep.state()


# --- densities ---


def normal(x, mean, cov):
    import numpy as np

    x, mean, cov = np.asarray(x, dtype=float), np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
    d = x - mean
    return -0.5 * (np.einsum("ni,ij,nj->n", d, np.linalg.inv(cov), d) + np.linalg.slogdet(cov)[1] + len(mean) * math.log(2 * math.pi))


def student(x, mean, disp, df):
    import numpy as np
    from scipy.special import gammaln

    x, disp = np.asarray(x, dtype=float), np.asarray(disp, dtype=float)
    d, k = x - np.asarray(mean, dtype=float), len(mean)
    q = np.einsum("ni,ij,nj->n", d, np.linalg.inv(disp), d)
    return gammaln((df + k) / 2) - gammaln(df / 2) - k / 2 * math.log(df * math.pi) - 0.5 * np.linalg.slogdet(disp)[1] - (df + k) / 2 * np.log1p(q / df)


class Mixture:
    """Parts: (weight, joint density, density of X, density of Y), logarithms."""

    def __init__(self, parts):
        self.parts = parts

    def __call__(self, x, y):
        """Joint log density, pointwise mutual information."""
        import numpy as np
        from scipy.special import logsumexp

        lw = np.log([[p[0]] for p in self.parts])
        j, a, b = (logsumexp(lw + np.stack(v), axis=0) for v in ([p[1](x, y) for p in self.parts], [p[2](x) for p in self.parts], [p[3](y) for p in self.parts]))
        return j, j - a - b


def gauss(weight, mean, cov, dx):
    import numpy as np

    mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
    return (
        weight, lambda x, y: normal(np.hstack([x, y]), mean, cov), lambda x: normal(x, mean[:dx], cov[:dx, :dx]), lambda y: normal(y, mean[dx:], cov[dx:, dx:]),
    )


def independent(weight, lx, ly):
    return weight, lambda x, y: lx(x) + ly(y), lx, ly


def judge(rep, dist, ref, dx, dy, what, xy=None, rtol=2e-4, atol=2e-3):
    """Density and pointwise mutual information of a distribution on its own sample and on a grid."""
    import jax
    import numpy as np

    if xy is None:
        x, y = dist.sample(60, jax.random.PRNGKey(5))
        rep.expect(np.shape(x) == (60, dx) and np.shape(y) == (60, dy), f"{what}:shape", f"{np.shape(x)} {np.shape(y)}")
        rep.expect((dist.dim_x, dist.dim_y) == (dx, dy), f"{what}:dims", f"{dist.dim_x} {dist.dim_y}")
        g = np.linspace(-1.5, 1.5, 7)
        x = np.vstack([np.asarray(x), np.stack([g * (1 + 0.3 * i) for i in range(dx)], 1)])
        y = np.vstack([np.asarray(y), np.stack([g[::-1] * (1 - 0.2 * i) for i in range(dy)], 1)])
    else:
        x, y = xy
    x, y = np.asarray(x, dtype=np.float32), np.asarray(y, dtype=np.float32)
    j, p = ref(x, y)
    rep.close(f"{what}:density", np.asarray(dist.dist_joint.log_prob(np.hstack([x, y])), dtype=float), j, rtol=rtol, atol=atol)
    rep.close(f"{what}:pmi", np.asarray(dist.pmi(x, y), dtype=float), p, rtol=rtol, atol=atol)
    rep.state(len(x))
    rep.trans(2)


def example(name, n_components=12):
    """dimensions, parts, transformation of X"""
    import numpy as np

    if name == "x":
        return 1, Mixture([gauss(0.5, [0, 0], 0.3 * np.array([[1, r], [r, 1]]), 1) for r in (-0.9, 0.9)]), lambda x: x
    if name == "galaxy":

        def turn(x):
            a = 0.5 * (x**2).sum(1)
            return 0.3 * np.stack([np.cos(a) * x[:, 0] - np.sin(a) * x[:, 1], np.sin(a) * x[:, 0] + np.cos(a) * x[:, 1]], 1)

        return 2, Mixture([gauss(0.5, [1.5 * s] * 3, np.eye(3), 2) for s in (-1, 1)]), turn
    if name == "waves":
        n = n_components

        def wave(x):
            return np.stack([0.1 * (x[:, 0] + 5 * np.sin(3 * x[:, 1])) - 0.8, 0.5 * x[:, 1]], 1)

        return 2, Mixture([gauss(1 / n, [1.5 * i, 0, 1.5 * (i % 4)], np.diag([0.1, 1, 0.1]), 2) for i in range(n)]), wave
    off = math.sqrt(0.04 * 0.2) * 0.95
    parts = [
        ([1, 0], np.diag([0.01, 0.2])), ([1, 1], np.diag([0.05, 0.001])), ([1, -1], np.diag([0.05, 0.001])), ([-0.8, -0.2], np.diag([0.03, 0.001])),
        ([-1.2, 0], [[0.04, off], [off, 0.2]]), ([-0.4, 0], [[0.04, -off], [-off, 0.2]]),
    ]
    return 1, Mixture([gauss(1 / 6, m, c, 1) for m, c in parts]), lambda x: x


def part_examples(case, rep):
    import jax
    import numpy as np

    from mc.core import REPO

    name = case["name"]
    sys.path.insert(0, str(REPO / "workflows/projects/Mixtures"))
    sys.modules.pop("example_distributions", None)
    try:
        ed = importlib.import_module("example_distributions")
    finally:
        sys.path.pop(0)
    create = getattr(ed, f"create_{name}_distribution")
    for kwargs in [{}] + ([{"n_components": n} for n in (1, 2, 5, 13)] if name == "waves" else []):
        dx, ref, move = example(name, **kwargs)
        made = create(_sample=500, **kwargs)
        judge(rep, made.dist, ref, dx, 1, f"example:{name}")
        rep.expect((made.sampler.dim_x, made.sampler.dim_y) == (dx, 1), "example:dims", f"{made.sampler.dim_x}")
        for n, seed in ((1, 0), (2, 7), (50, 3)):
            for rng in (seed, jax.random.PRNGKey(seed)):
                x, y = (np.asarray(v, dtype=float) for v in made.sampler.sample(n, rng))
                bx, by = (np.asarray(v, dtype=float) for v in made.dist.sample(n, jax.random.PRNGKey(seed)))
                rep.expect(x.shape == (n, dx) and y.shape == (n, 1), "example:shape", f"{x.shape} {y.shape}")
                rep.close(f"example:{name}:transformation", x, move(bx), rtol=2e-3, atol=2e-3, n=n)
                rep.close(f"example:{name}:same", y, by, rtol=1e-6)
                rep.trans()
        from bmi.samplers import bmm

        base = bmm.BMMSampler(made.dist, mi_estimate_sample=500).mutual_information()
        rep.close(f"example:{name}:mi", float(made.sampler.mutual_information()), float(base), rtol=1e-4, atol=1e-5)
        # against the stated density
        x, y = (np.asarray(v) for v in made.dist.sample(500, jax.random.PRNGKey(0)))
        rep.close(f"example:{name}:mi-value", float(base), max(0.0, float(ref(x, y)[1].mean())), rtol=2e-3, atol=2e-3)
        rep.outcome((name, tuple(kwargs.items())))


@contextlib.contextmanager
def small(module, n=300):
    """Monte Carlo estimates with few points; the sizes asked for are recorded."""
    import inspect

    asked, real = [], {}

    def wrap(f):
        sig = inspect.signature(f)

        def g(*args, **kwargs):
            b = sig.bind(*args, **kwargs)
            asked.append(b.arguments["n"])
            b.arguments["n"] = n
            return f(*b.args, **b.kwargs)

        return g

    for k in ("monte_carlo_mi_estimate", "pmi_profile"):
        if hasattr(module, k):
            real[k] = getattr(module, k)
            setattr(module, k, wrap(real[k]))
    try:
        yield asked
    finally:
        for k, v in real.items():
            setattr(module, k, v)


def part_outliers(case, rep):
    import jax
    import numpy as np
    import pandas as pd

    with study("projects/Mixtures/outliers.smk", edit=lambda t, p: t.replace("mi_estimate_sample=100_000", "mi_estimate_sample=400")) as w:
        env = w.env
        # X = Z-loadings + noise: 2 shared factors with weight 2, common ones with weight 0.1
        c = signal_correlation()
        rep.close("outliers:signal", np.asarray(env["signal_cov_matrix"], dtype=float), c, rtol=1e-4, atol=1e-5)

        def mixed(alpha, variance):
            return Mixture([
                gauss(1 - alpha, np.zeros(4), c, 2),
                independent(alpha, lambda x: normal(x, np.zeros(2), c[:2, :2]), lambda y: normal(y, np.zeros(2), variance * np.eye(2))),
            ])

        noise = {"Gauss-Inlier": 1.0, "Gauss-Outlier": 25.0}
        rep.expect(set(env["CHANGE_MIXING_SETUPS"]) == set(noise), "outliers:setups", f"{set(env['CHANGE_MIXING_SETUPS'])}")
        seen = []
        for name, setup in env["CHANGE_MIXING_SETUPS"].items():
            for alpha in env["ALPHAS"] + [0.0 + 1e-6, 0.77]:
                judge(rep, setup.mixture(alpha=alpha), mixed(alpha, noise[name]), 2, 2, "outliers:mixture")
            for alpha in env["ALPHAS"]:
                t = env["MIXING_TASKS"][f"mixing-{name}-{alpha}"]
                rep.expect(t.params == {"mixing": alpha} and t.name == t.id, "outliers:params", f"{t.params}")
                x, y = (np.asarray(v) for v in env["CHANGE_MIXING_SETUPS"][name].mixture(alpha).sample(400, jax.random.PRNGKey(0)))
                rep.close("outliers:truth", float(t.mutual_information), max(0.0, mixed(alpha, noise[name])(x, y)[1].mean()), rtol=2e-3, atol=2e-3, task=t.id)
                seen.append(t.id)
        for v in env["VARIANCES"]:
            t = env["VARIANCE_TASKS"][f"variance-{v}"]
            ref = mixed(env["VARIANCE_MIXING"], v)
            rep.expect(t.params == {"variance": v}, "outliers:params", f"{t.params}")
            d = t.sampler._dist if hasattr(t.sampler, "_dist") else None
            if d is not None:
                judge(rep, d, ref, 2, 2, "outliers:variance")
            x, y = (np.asarray(a) for a in t.sample(400, 0))
            rep.close("outliers:truth", float(t.mutual_information), max(0.0, ref(x, y)[1].mean()), rtol=2e-3, atol=2e-3, task=t.id)
            seen.append(t.id)
        rep.expect(sorted(seen) == sorted(env["UNSCALED_TASKS"]), "outliers:tasks", f"{set(env['UNSCALED_TASKS']) ^ set(seen)}")
        # estimates of the truth
        with small(env["bmm"]) as asked:
            for name, seed in itertools.product(noise, (0, 3)):
                for alpha in (env["ALPHAS"][0], env["ALPHAS"][-1]):
                    p = f"{name}/_mixed_ground_truth/seeds/{alpha}-{seed}.json"
                    job(w, p).run()
                    got = json.loads(pathlib.Path(p).read_text())
                    x, y = (np.asarray(v) for v in env["CHANGE_MIXING_SETUPS"][name].mixture(alpha).sample(300, jax.random.PRNGKey(seed)))
                    pmi = mixed(alpha, noise[name])(x, y)[1]
                    rep.close("outliers:estimate", got["mi"], pmi.mean(), rtol=2e-3, atol=1e-3, file=p)
                    rep.close("outliers:stderr", got["mi_stderr"], pmi.std() / math.sqrt(300), rtol=5e-3, atol=1e-4, file=p)
                    rep.expect(got["mixing"] == alpha, "outliers:mixing", f"{got['mixing']}", file=p)
                p = f"{name}/_signal_seeds/{seed}.json"
                job(w, p).run()
                got = json.loads(pathlib.Path(p).read_text())
                x, y = (np.asarray(v) for v in env["dist_signal_gauss"].sample(300, jax.random.PRNGKey(seed)))
                rep.close("outliers:signal-estimate", got["mi"], mixed(0.0 + 1e-12, 1.0)(x, y)[1].mean(), rtol=2e-3, atol=1e-3, file=p)
                rep.state(3)
            rep.expect(all(n >= 10_000 for n in asked), "outliers:points", f"{asked}")
        # parameters and figure
        job(w, "parameters.json").run()
        got = json.loads(pathlib.Path("parameters.json").read_text())
        rep.close("outliers:parameters", got["signal_covariance"], c, rtol=1e-4, atol=1e-5)
        mi = 0.5 * (np.linalg.slogdet(c[:2, :2])[1] + np.linalg.slogdet(c[2:, 2:])[1] - np.linalg.slogdet(c)[1])
        rep.close("outliers:analytic", got["signal_mutual_information"], mi, rtol=1e-4)
        rows = results_for(w, invented)
        for name, alpha in itertools.product(noise, env["ALPHAS"]):
            write(f"{name}/_mixed_ground_truth/summaries/{alpha}.json", json.dumps({"mixing": alpha, "mi_mean": 0.7 - alpha + (name == "Gauss-Outlier"), "mi_std": alpha / 10}))
        job(w, "outliers_plot.pdf").run()
        axs = w.figures[-1].axes
        picks = [
            (axs[0], [r for r in rows if r["task"].id.startswith("mixing-Gauss-Inlier")], "mixing"),
            (axs[1], [r for r in rows if r["task"].id.startswith("mixing-Gauss-Outlier")], "mixing"),
            (axs[2], [r for r in rows if r["task"].id.startswith("variance-")], "variance"),
        ]
        for i, (ax, sel, key) in enumerate(picks):
            points = sorted({r["task"].params[key] for r in sel})
            by_color = {ln.get_color(): (np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)) for ln in ax.get_lines()}
            for e, color in env["ESTIMATOR_COLORS"].items():
                if not rep.expect(color in by_color, "outliers:figure", f"no curve for {e}"):
                    continue
                x, y = by_color[color]
                rep.close("outliers:figure:x", x, points, rtol=1e-9)
                want = [[r["value"] for r in sel if r["estimator"] == e and r["task"].params[key] == p] for p in points]
                rep.close("outliers:figure:y", y, [sum(v) / len(v) for v in want], rtol=1e-9)
            x, y = by_color["black"]
            if i < 2:
                rep.close("outliers:figure:truth", y, [0.7 - a + i for a in points], rtol=1e-9)
                rep.close("outliers:figure:truth-x", x, points, rtol=1e-9)
            else:
                rep.close("outliers:figure:truth", y, [float(env["VARIANCE_TASKS"][f"variance-{p}"].mutual_information) for p in x], rtol=1e-6)
        rep.outcome("outliers")


def signal_correlation():
    """Two pairs joined by factors of weight 2, all four by common ones of weight 0.1, unit noise; normalised."""
    import numpy as np

    from mc.samplers_ref import lvm

    c = np.asarray(lvm(2, 2, 2, alpha=0.0, lambd=2.0, beta=0.1, eta=2.0), dtype=float)
    s = np.sqrt(np.diag(c))
    return c / s[:, None] / s[None, :]


VALUES = (-0.25, 0.0, 0.5, 1.75)


def part_aggregate(case, rep):
    import numpy as np

    name = case["file"]
    with study(f"projects/Mixtures/{name}.smk") as w:
        if name == "outliers":
            targets = ["Gauss-Inlier/_mixed_ground_truth/summaries/0.2.json", "Gauss-Outlier/_mixed_ground_truth/summaries/0.001.json", "Gauss-Outlier/signal.json"]
        else:
            targets = ["Four_Balls/ground_truth.json", "Normal-25Dim/ground_truth.json"]
        for target in targets:
            j = job(w, target)
            k = len(j.input)
            for values in itertools.product(VALUES, repeat=min(case["seeds"], k)):
                # the other seeds follow
                mi = [values[i] if i < len(values) else 0.1 * i for i in range(k)]
                err = [0.01 * (i + 1) + 0.5 * (mi[i] > 1) for i in range(k)]
                for p, m, e in zip(j.input, mi, err):
                    write(p, json.dumps({"mi": m, "mi_stderr": e, "mixing": 0.5}))
                j.run()
                got = json.loads(pathlib.Path(target).read_text())
                d = dict(target=target, mi=mi)
                mean = sum(mi) / k
                rep.close("aggregate:mean", got["mi_mean"], mean, rtol=1e-9, atol=1e-12, **d)
                rep.close("aggregate:std", got["mi_std"], math.sqrt(sum((v - mean) ** 2 for v in mi) / (k - 1)), rtol=1e-9, atol=1e-12, **d)
                rep.close("aggregate:stderr", got["mi_stderr_mean"], sum(err) / k, rtol=1e-9, **d)
                rep.expect([s["mi"] for s in got["samples"]] == mi, "aggregate:samples", f"{got['samples']}", **d)
                if "summaries" in target:
                    rep.expect(got["mixing"] == float(target.split("/")[-1][:-5]), "aggregate:mixing", f"{got['mixing']}", **d)
                if target.endswith("signal.json"):
                    c = signal_correlation()
                    want = 0.5 * (np.linalg.slogdet(c[:2, :2])[1] + np.linalg.slogdet(c[2:, 2:])[1] - np.linalg.slogdet(c)[1])
                    rep.close("aggregate:analytic", got["mi_analytic"], want, rtol=1e-4, **d)
                rep.state()
                rep.trans()
            rep.outcome(target)


def part_integration(case, rep):
    import jax
    import numpy as np
    import pandas as pd
    from scipy.special import logsumexp

    with study("projects/Mixtures/how_good_integration_is.smk") as w:
        env = w.env
        balls = Mixture([
            gauss(0.3, [-1.25, -1.25], np.eye(2), 1), gauss(0.3, [1.25, 1.25], np.eye(2), 1),
            gauss(0.2, [-2.5, 2.5], 0.2 * np.eye(2), 1), gauss(0.2, [2.5, -2.5], 0.2 * np.eye(2), 1),
        ])
        big = np.eye(50) + 0.8 * np.block([[np.zeros((25, 25)), np.eye(25)], [np.eye(25), np.zeros((25, 25))]])
        high = Mixture([gauss(1.0, np.zeros(50), big, 25)])
        setups = {
            "Four_Balls": (balls, lambda x: 0.0, 1), "Four_Balls_Biased": (balls, lambda x: 0.5, 1),
            "Four_Balls_SinSquare": (balls, lambda x: np.sin(x[:, 0] ** 2), 1), "Normal-25Dim": (high, lambda x: 0.0, 25),
        }
        rep.expect(set(setups) == set(env["DISTRIBUTION_AND_PMIS"]), "integration:setups", f"{set(env['DISTRIBUTION_AND_PMIS'])}")
        for name, (ref, bias, dx) in setups.items():
            if name != case["setup"]:
                continue
            made = env["DISTRIBUTION_AND_PMIS"][name]
            judge(rep, made.dist, ref, dx, dx, "integration:distribution", rtol=1e-3, atol=5e-3)
            for n, seed in itertools.product((8, 16), (0, 19)):
                p = f"{name}/samples/{n}-{seed}.npz"
                job(w, p).run()
                s = np.load(p)
                x, y = made.dist.sample(n, jax.random.PRNGKey(seed))
                rep.expect(np.array_equal(s["xs"], x) and np.array_equal(s["ys"], y), "integration:sample", file=p)
                xs, ys = s["xs"].astype(float), s["ys"].astype(float)
                i, k = np.meshgrid(range(n), range(n), indexing="ij")
                m = ref(xs[i.ravel()], ys[k.ravel()])[1].reshape(n, n) + np.broadcast_to(np.atleast_1d(bias(xs))[:, None], (n, n))
                diag = m.diagonal()
                off = m[~np.eye(n, dtype=bool)]
                want = {
                    "MC": diag.mean(),
                    "NWJ": diag.mean() + 1 - np.exp(off).mean(),
                    "DV": diag.mean() - (logsumexp(off) - math.log(n * (n - 1))),
                    "InfoNCE": None,
                }
                rep.expect(set(want) == set(env["ESTIMATORS"]), "integration:estimators", f"{set(env['ESTIMATORS'])}")
                for e in want:
                    q = f"{name}/estimates/{e}/{n}-{seed}.json"
                    job(w, q).run()
                    got = json.loads(pathlib.Path(q).read_text())
                    rep.expect((got["estimator"], got["setup"], got["n_points"]) == (e, name, n), "integration:labels", f"{got}", file=q)
                    if e == "InfoNCE":
                        # either argument may be the one that varies
                        both = [np.mean(diag - logsumexp(m, axis=a) + math.log(n)) for a in (0, 1)]
                        rep.expect(min(abs(got["estimate"] - b) for b in both) < 5e-3 * (1 + abs(both[0])), "integration:estimate:InfoNCE", f"{got['estimate']} not in {both}", file=q)
                    else:
                        rep.close(f"integration:estimate:{e}", got["estimate"], want[e], rtol=2e-3, atol=5e-3, file=q)
                    rep.trans()
                rep.state()
        rep.outcome(case["setup"])
        if case["setup"] != "Four_Balls":
            return
        # gathering and drawing: invented estimates
        j = job(w, "Four_Balls/estimates.csv")
        want = {}
        for p in j.input:
            e, f = p.split("/")[2:]
            n, s = f[:-5].split("-")
            v = math.sin(len(e) * 3 + int(n) * 0.37 + int(s) * 1.3)
            want.setdefault((e, int(n)), []).append(v)
            write(p, json.dumps({"estimator": e, "setup": "Four_Balls", "estimate": v, "n_points": int(n)}))
        rep.expect(set(want) == set(itertools.product(env["ESTIMATORS"], env["N_POINTS"])) and all(len(v) == len(env["SEEDS"]) for v in want.values()), "integration:gathered", f"{sorted(want)}")
        j.run()
        table = pd.read_csv("Four_Balls/estimates.csv")
        for (e, n), v in want.items():
            got = table[(table.estimator == e) & (table.n_points == n)].estimate
            rep.close("integration:table", sorted(got), sorted(v), rtol=1e-12, atol=1e-14)
        write("Four_Balls/ground_truth.json", json.dumps({"mi_mean": 0.61, "mi_std": 0.1}))
        job(w, "Four_Balls/performance.pdf").run()
        ax = w.figures[-1].axes[0]
        by = {ln.get_color(): ln for ln in ax.get_lines()}
        for e, color in env["ESTIMATOR_COLORS"].items():
            x, y = (np.asarray(v, dtype=float) for v in by[color].get_data())
            rep.close("integration:figure:x", x, env["N_POINTS"], rtol=1e-9)
            rep.close("integration:figure:y", y, [np.mean(want[e, n]) for n in env["N_POINTS"]], rtol=1e-9, atol=1e-12)
        rep.close("integration:figure:truth", by["k"].get_ydata(), [0.61, 0.61])
        rep.outcome("integration figure")


def part_posterior(case, rep):
    import joblib
    import numpy as np
    import pandas as pd

    with study("projects/Mixtures/gmm_benchmark.smk") as w:
        env = w.env
        tasks = env["TASKS_DICT"]
        j = job(w, "results.csv")
        kinds = {
            "plain": [0.1 * i for i in range(11)], "skewed": [0.0, 0.0, 0.1, 5.0], "one": [0.7], "holes": [0.5, math.nan, 0.25, math.inf, -math.inf, 0.75], "nothing": [math.nan, math.inf],
        }
        for picked in itertools.product(kinds, repeat=3):
            want = {}
            for i, p in enumerate(j.input):
                tid, f = p.split("/")[2:]
                seed = int(f.split("-")[-1].split(".")[0])
                kind = picked[(seed + i // 3) % 3]
                draws = np.array(kinds[kind]) + 0.01 * seed
                want[tid, seed] = draws
                os.makedirs(os.path.dirname(p), exist_ok=True)
                joblib.dump({"posterior_mi": draws, "mcmc_samples": {}, "mi": draws.mean(), "task_id": tid, "estimator_id": "GMM", "seed": seed}, p)
            rep.expect(set(want) == set(itertools.product(tasks, env["SEEDS"])), "posterior:runs", f"{len(want)}")
            j.run()
            table = pd.read_csv("results.csv")
            rep.expect(len(table) == len(want), "posterior:rows", f"{len(table)}")
            for _, r in table.iterrows():
                draws = want[r.task_id, r.seed]
                ok = draws[np.isfinite(draws)]
                d = dict(draws=list(draws))
                rep.expect(r.used_length == len(ok) and r.entries_filtered_out == len(draws) - len(ok), "posterior:lengths", f"{r.used_length} {r.entries_filtered_out}", **d)
                exp = [-1, -1, -1] if not len(ok) else [quantile(ok, 0.1), ok.mean(), quantile(ok, 0.9)]
                rep.close("posterior:values", [r.mi_q_low, r.mi_mean, r.mi_q_high], exp, rtol=1e-7, atol=1e-9, **d)
                rep.close("posterior:truth", r.mi_true, float(tasks[r.task_id].mutual_information), rtol=1e-6)
                rep.expect(r.task_name == tasks[r.task_id].name and r.estimator_id == "GMM", "posterior:names", f"{r.task_name}", **d)
            with contextlib.redirect_stdout(io.StringIO()):
                job(w, "bmm_table.txt").run()
            text = pathlib.Path("bmm_table.txt").read_text()
            cells = latex(text)
            rep.expect(set(cells) == {env["NAMES"][t] for t in tasks}, "posterior:table-rows", f"{set(cells)}")
            for t in tasks:
                entry = []
                for s in env["SEEDS"]:
                    ok = want[t, s][np.isfinite(want[t, s])]
                    a, b, c = (-1, -1, -1) if not len(ok) else (quantile(ok, 0.1), ok.mean(), quantile(ok, 0.9))
                    entry.append([b, a, c])
                got = cells.get(env["NAMES"][t])
                if rep.expect(got is not None and len(got) == 1 + len(entry), "posterior:table", f"{got}"):
                    rep.close("posterior:table-truth", float(got[0]), float(tasks[t].mutual_information), rtol=0, atol=0.0051, task=t)
                    for g, e in zip(got[1:], entry):
                        nums = [float(v) for v in re.findall(r"-?\d+\.\d+", g)]
                        rep.close("posterior:table-entry", nums, e, rtol=0, atol=0.0051, task=t)
            rep.state()
            rep.trans(2)
            rep.outcome(picked)
        posterior_run(w, rep)


def posterior_run(w, rep):
    """One run of the estimator, replaced by a recorder."""
    import joblib
    import numpy as np

    seen = []

    class Fake:
        def get_posterior_mi(self, x, y):
            seen.append((np.asarray(x), np.asarray(y)))
            self._mcmc = types.SimpleNamespace(get_samples=lambda *a, **k: {"pi": np.array([len(seen)])})
            return np.array([0.25, 0.75, float(len(seen))])

    w.env["ESTIMATORS_DICT"]["GMM"] = Fake()
    for i, tid in enumerate(list(w.env["TASKS_DICT"])[:3]):
        s, r = f"tasks/{tid}/40-{i}.csv", f"results/GMM/{tid}/40-{i}.joblib"
        job(w, s).run()
        job(w, r).run()
        got = joblib.load(r)
        x, y = w.env["TASKS_DICT"][tid].sample(40, i)
        rep.close("posterior:points", seen[-1][0], np.asarray(x, dtype=float), rtol=1e-6, atol=1e-7)
        rep.close("posterior:points", seen[-1][1], np.asarray(y, dtype=float), rtol=1e-6, atol=1e-7)
        rep.expect((got["task_id"], got["estimator_id"], got["seed"]) == (tid, "GMM", i), "posterior:labels", f"{got}")
        rep.expect(list(got["posterior_mi"]) == [0.25, 0.75, len(seen)] and got["mcmc_samples"]["pi"] == [len(seen)], "posterior:stored", f"{got}")
        rep.close("posterior:mi", got["mi"], (1 + len(seen)) / 3)


def quantile(v, q):
    """Linear interpolation between order statistics."""
    v = sorted(float(a) for a in v)
    p = q * (len(v) - 1)
    i = min(int(p), len(v) - 2) if len(v) > 1 else 0
    return v[0] if len(v) == 1 else v[i] + (p - i) * (v[i + 1] - v[i])


def latex(text):
    """First cell of each row -> the other cells."""
    out = {}
    for line in text.splitlines():
        if "&" in line and line.rstrip().endswith("\\\\"):
            cells = [c.strip() for c in line.rstrip()[:-2].split("&")]
            if cells[0] not in ("", "Task name", "{}", "task_id", "estimator_id") and not cells[0].startswith(("\\", "estimator")):
                out[cells[0]] = cells[1:]
    return out


def part_table(case, rep):
    import numpy as np
    import pandas as pd

    from mc.core import REPO

    sys.path.insert(0, str(REPO / "workflows/benchmark/v2"))
    sys.modules.pop("config", None)
    try:
        config = importlib.import_module("config")
    finally:
        sys.path.pop(0)
        sys.modules.pop("config", None)
    ids = [t.id for t in config.TASKS]
    with study("projects/Mixtures/v2_results_table.smk") as w:
        j = job(w, w.first().job({}).input[0])
        (source,) = j.input
        spreads = {"none": 0.0, "tiny": 1e-4, "edge": 0.01, "wide": 0.234}
        for (name, spread), order, extra in itertools.product(spreads.items(), (1, -1), ([], [100], [100, 10000], [10000])):
            rows = []
            for k, t in enumerate(ids):
                for e, n, s in itertools.product(("KSG-10", "MINE"), [5000] + extra, range(3)):
                    v = 0.4 + 0.03 * k + (e == "MINE") + (n != 5000) * 10 + spread * (s - 1) * (1 + 0.3 * k)
                    rows.append({
                        "estimator_id": e, "task_id": t, "n_samples": n, "seed": s, "mi_estimate": v, "mi_true": 0.111 * k, "task_params": "{}", "additional_information": "{}",
                        "time_in_seconds": 1.0, "success": True,
                    })
            os.makedirs(os.path.dirname(source), exist_ok=True)
            pd.DataFrame(rows[::order]).to_csv(source, index=False)
            j.run()
            text = pathlib.Path(str(j.output[0])).read_text()
            lead = next(line for line in text.splitlines() if "True MI" in line)
            columns = [c.strip() for c in lead.rstrip().rstrip("\\").split("&")][1:]
            cells = latex(text)
            rep.expect(columns == ["KSG-10", "MINE", "True MI"], "table:columns", f"{columns}")
            rep.expect(len(cells) == len(ids), "table:rows", f"{len(cells)} rows for {len(ids)} tasks: {sorted(cells)}")
            shown = []
            for k, t in enumerate(ids):
                exp = []
                for e in ("KSG-10", "MINE"):
                    v = [r["mi_estimate"] for r in rows if (r["task_id"], r["estimator_id"], r["n_samples"]) == (t, e, 5000)]
                    m = sum(v) / 3
                    exp.append((m, math.sqrt(sum((a - m) ** 2 for a in v) / 2)))
                shown.append((exp, 0.111 * k))
            left = dict(cells)
            for k, (exp, true) in enumerate(shown):
                # the row is known by its values
                hit = [n for n, c in left.items() if fits(c, exp, true)]
                rep.expect(len(hit) == 1, "table:values", f"{ids[k]}: {exp}, {true}: {len(hit)} rows; {list(left.values())[:2]}", spread=name, extra=extra)
                for n in hit[:1]:
                    left.pop(n)
                    rep.expect(family(n) == family(ids[k]), "table:names", f"{n} for {ids[k]}")
            rep.state()
            rep.trans()
            rep.outcome((name, order, tuple(extra)))


def fits(cells, exp, true):
    if abs(float(re.search(r"-?\d+\.\d+", cells[-1]).group()) - true) > 0.00501:
        return False
    for c, (mean, std) in zip(cells, exp):
        m, s = (float(v) for v in re.findall(r"-?\d+\.\d+", c))
        # the spread is rounded up, to at least 0.01
        if abs(m - mean) > 0.00501 or not max(std, 0.01) - 1e-6 <= s <= max(std, 0.0) + 0.0100001:
            return False
    return True


def family(name):
    """Kind of task and its numbers of dimensions, from a display name or an identifier."""
    s = name.lower()
    kinds = ["student", "additive", "swiss", "galaxy", "waves", "concentric", "inliers", "spiral"]
    kind = next((k for k in kinds if k in s), None)
    if kind is None:
        kind = "normal-dense" if "dense" in s else "normal-sparse" if "sparse" in s else re.sub(r"1v1-|-0\.9", "", s)
    dim = None
    if kind in ("student", "concentric", "inliers", "spiral", "normal-dense", "normal-sparse"):
        m = re.search(r"(\d+)-dim", s) or re.search(r"(?:identity|dense|sparse(?:-w-inliers)?)-(\d+)-", s) or re.search(r"^(\d+)v", s)
        dim = m.group(1)
    tail = None
    if kind == "concentric":
        tail = re.search(r"(\d+)\)?$", s).group(1)
    if kind == "inliers":
        tail = re.search(r"(0\.\d+)\)?$", s).group(1)
    return kind, dim, tail


def part_compare(case, rep):
    """Posterior intervals next to point estimates."""
    import numpy as np
    import pandas as pd

    with study("projects/Mixtures/figure_bmm_vs_other.smk") as w:
        env = w.env
        j = job(w, w.first().job({}).input[0])
        rows, post = [], []
        for k, t in enumerate(env["TASKS"]):
            for e, n, s in itertools.product(["KSG-10", "InfoNCE", "CCA"], (1000, 5000), range(4)):
                rows.append({"task_id": t, "estimator_id": e, "n_samples": n, "seed": s, "mi_true": 0.5 + 0.1 * k, "mi_estimate": 0.3 + 0.1 * k + 0.02 * s + (n == 1000) + 0.05 * len(e)})
            for s in range(3):
                post.append({"task_id": t, "seed": s, "mi_q_low": 0.4 + 0.1 * k - 0.03 * s, "mi_mean": 0.5 + 0.1 * k, "mi_q_high": 0.6 + 0.1 * k + 0.05 * s})
        for order in (1, -1):
            for p, data in ((j.input.v2, rows), (j.input.bmm, post)):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                pd.DataFrame(data[::order]).to_csv(p, index=False)
            j.run()
            axs = w.figures[-1].axes
            rep.expect(len(axs) == len(env["TASKS"]), "compare:axes", f"{len(axs)}")
            for k, (ax, (t, cfg)) in enumerate(zip(axs, env["TASKS"].items())):
                rep.expect(ax.get_title() == cfg.name, "compare:title", f"{ax.get_title()}")
                rep.expect(family(cfg.name) == family(t), "compare:name", f"{cfg.name} for {t}")
                truth = [ln for ln in ax.get_lines() if ln.get_color() == "black"]
                rep.close("compare:truth", truth[0].get_xdata(), [0.5 + 0.1 * k] * 2, rtol=1e-9)
                segs = sorted((a for c in ax.collections if hasattr(c, "get_segments") for a in np.asarray(c.get_segments()).tolist()), key=lambda v: v[0][0])
                rep.close("compare:intervals", [[a[0][0], a[1][0]] for a in segs], sorted([r["mi_q_low"], r["mi_q_high"]] for r in post if r["task_id"] == t), rtol=1e-9)
                dots = [np.asarray(c.get_offsets()) for c in ax.collections if not hasattr(c, "get_segments")]
                want = [[r["mi_mean"] for r in post if r["task_id"] == t]] + [
                    [r["mi_estimate"] for r in rows if (r["task_id"], r["estimator_id"], r["n_samples"]) == (t, e.id, env["N_SAMPLES"])] for e in env["POINT_ESTIMATORS"]
                ]
                rep.expect(len(dots) == len(want), "compare:series", f"{len(dots)}")
                for i, (d, v) in enumerate(zip(dots, want)):
                    rep.close("compare:values", sorted(d[:, 0]), sorted(v), rtol=1e-9)
                    lo, hi = i / len(want), (i + 1) / len(want)
                    rep.expect(((d[:, 1] > lo) & (d[:, 1] < hi)).all(), "compare:strip", f"{d[:, 1]} outside {lo}..{hi}")
                    rep.expect(len(set(d[:, 1])) == len(d), "compare:overlap", f"{d[:, 1]}")
                rep.state()
            ticks = axs[0].get_yticks()
            labels = [x.get_text() for x in axs[0].get_yticklabels()]
            rep.expect(labels == ["BMM"] + [e.name for e in env["POINT_ESTIMATORS"]], "compare:labels", f"{labels}")
            rep.close("compare:ticks", ticks, [(i + 0.5) / len(labels) for i in range(len(labels))], rtol=1e-9)
            rep.trans()
        rep.outcome("compare")


def part_fit(case, rep):
    """From posterior draws to profiles."""
    import jax
    import numpy as np

    with study("projects/Mixtures/fitting_gmm.smk") as w:
        env = w.env
        env["N_MC_PROFILE_SAMPLES"] = 150
        draws = env["N_MCMC_SAMPLES"]
        for name, dist in env["DISTRIBUTIONS"].items():
            dx, ref, move = example({"X": "x", "AI": "ai"}.get(name, name.lower()))
            job(w, f"data/{name}-60.npz").run()
            d = np.load(f"data/{name}-60.npz")
            bx, by = (np.asarray(v, dtype=float) for v in dist.dist.sample(60, jax.random.PRNGKey(0)))
            rep.close("fit:data", d["xs"], move(bx), rtol=2e-3, atol=2e-3, name=name)
            rep.close("fit:data", d["ys"], by, rtol=1e-5, name=name)
            job(w, f"pmi_true/{name}-60.npz").run()
            got = np.load(f"pmi_true/{name}-60.npz")["pmi"]
            x, y = (np.asarray(v) for v in dist.dist.sample(150, jax.random.PRNGKey(2048)))
            rep.close("fit:true-profile", got, ref(x, y)[1], rtol=2e-3, atol=2e-3, name=name)
            # invented draws
            k, dim = 3, dx + 1
            rng = np.random.default_rng(4)
            mu = rng.normal(size=(draws, k, dim))
            a = rng.normal(size=(draws, k, dim, dim))
            cov = np.einsum("skij,sklj->skil", a, a) + 0.5 * np.eye(dim)
            pi = rng.dirichlet(np.ones(k), size=draws)
            os.makedirs("gmm_fit", exist_ok=True)
            np.savez(f"gmm_fit/{name}-60-{k}.npz", mu=mu, cov=cov, pi=pi)
            for i in (0, 1, draws - 1):
                model = Mixture([gauss(p, m, c, dx) for p, m, c in zip(pi[i], mu[i], cov[i])])
                job(w, f"pmi_individual/{name}-60-{k}-{i}.npz").run()
                got = np.load(f"pmi_individual/{name}-60-{k}-{i}.npz")["pmi"]
                made = env["sample_into_bmm_distribution"](means=mu[i], covariances=cov[i], proportions=pi[i], dim_x=dx, dim_y=1)
                judge(rep, made, model, dx, 1, "fit:model")
                x, y = (np.asarray(v) for v in made.sample(150, jax.random.PRNGKey(2048)))
                rep.close("fit:profile", got, model(x, y)[1], rtol=2e-3, atol=2e-3, name=name, draw=i)
                job(w, f"approx_samples/{name}-60-{k}-{i}.npz").run()
                s = np.load(f"approx_samples/{name}-60-{k}-{i}.npz")
                x, y = (np.asarray(v) for v in made.sample(60, jax.random.PRNGKey(2048)))
                rep.expect(np.array_equal(s["xs"], x) and np.array_equal(s["ys"], y), "fit:simulated", name=name)
                rep.trans(2)
            j = job(w, f"pmi_collected/{name}-60-{k}.npz")
            rep.expect(len(j.input) == draws and len(set(j.input)) == draws, "fit:draws", f"{len(j.input)}")
            for i, p in enumerate(j.input):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                np.savez(p, pmi=np.array([i, -i, 0.5 * i]))
            j.run()
            got = np.load(f"pmi_collected/{name}-60-{k}.npz")["pmi"]
            index = [int(p.split("-")[-1][:-4]) for p in j.input]
            rep.expect(sorted(index) == list(range(draws)), "fit:indices", f"{index[:5]}")
            rep.close("fit:collected", got, [[i, -i, 0.5 * i] for i in range(draws)], rtol=1e-12)
            rep.expect(name in env["POSTERIOR_RANGES"], "fit:ranges", name)
            rep.outcome(name)
            rep.state()


def part_discrete(case, rep):
    import jax
    import numpy as np

    with study("projects/Mixtures/figure_discrete_continuous.smk") as w:
        env = w.env
        dist = env["define_distribution"]()
        bern = lambda p: lambda y: np.log(np.where(np.asarray(y)[:, 0] > 0.5, p, 1 - p))  # noqa: E731
        ref = Mixture([
            independent(0.25, lambda x: student(x, -np.ones(2), 0.2 * np.eye(2), 8), bern(0.95)),
            independent(0.5, lambda x: normal(x, np.zeros(2), 0.1 * np.array([[1, 0.95], [0.95, 1]])), bern(0.5)),
            independent(0.25, lambda x: student(x, np.ones(2), 0.2 * np.eye(2), 5), bern(0.05)),
        ])
        g = np.linspace(-2, 2, 9)
        x = np.array([[a, b] for a in g for b in g])
        for v in (0.0, 1.0):
            y = np.full((len(x), 1), v)
            j, p = ref(x, y)
            rep.close("discrete:pmi", np.asarray(dist.pmi(x, y)), p, rtol=1e-6, atol=1e-8)
            rep.state(len(x))
        with small(env["bmm"]) as asked:
            job(w, "estimate.json").run()
            got = json.loads(pathlib.Path("estimate.json").read_text())
            x, y = (np.asarray(v) for v in dist.sample(300, jax.random.PRNGKey(121)))
            rep.expect(set(np.unique(y)) <= {0.0, 1.0}, "discrete:values", f"{np.unique(y)}")
            p = ref(x, y)[1]
            rep.close("discrete:estimate", got["estimate"], p.mean(), rtol=1e-6)
            rep.close("discrete:stderr", got["std_err"], p.std() / math.sqrt(300), rtol=1e-6)
            job(w, "pmi_samples.npz").run()
            x, y = (np.asarray(v) for v in dist.sample(300, jax.random.PRNGKey(101)))
            rep.close("discrete:profile", np.load("pmi_samples.npz")["samples"], ref(x, y)[1], rtol=1e-6, atol=1e-8)
        job(w, "joint_samples.npz").run()
        s = np.load("joint_samples.npz")
        x, y = dist.sample(len(s["x"]), jax.random.PRNGKey(1000))
        rep.expect(np.array_equal(s["x"], x) and np.array_equal(s["y"], y), "discrete:sample")
        job(w, "figure_discrete_continuous_example.pdf").run()
        ax = w.figures[-1].axes[0]
        rep.close("discrete:figure", np.asarray(ax.collections[0].get_offsets()), s["x"], rtol=1e-9)
        rep.trans(4)
        rep.outcome("discrete")


def part_profiles(case, rep):
    import jax
    import numpy as np

    name = case["file"]
    shrink = {
        "pmi_plot_1v1": lambda t, p: t.replace("-10, 10, 3000", "-10, 10, 41").replace("10_000", "300"),
        "pmi_profiles": lambda t, p: t.replace("10_000", "300"),
        "distinct_profiles": None,
    }[name]
    with study(f"projects/Mixtures/{name}.smk", edit=shrink) as w:
        env = w.env
        if name == "distinct_profiles":
            distinct(w, rep)
            return
        for k, dist in env["DISTRIBUTIONS"].items():
            dx, dy, ref = stated(name, k)
            if name == "pmi_profiles":
                # the density of a transformed distribution includes the derivative, its profile does not
                raw, back = ref
                x, y = (np.asarray(v, dtype=np.float64) for v in dist.sample(300, jax.random.PRNGKey(0)))
                bx, by = back(x, y)
                good = np.isfinite(bx).all(1) & np.isfinite(by).all(1) & (np.abs(np.hstack([bx, by])) < 8).all(1)
                want = raw(bx, by)[1]
                got = np.asarray(dist.pmi(np.asarray(x, dtype=np.float32), np.asarray(y, dtype=np.float32)), dtype=float)
                rep.close(f"profiles:{k}", got[good], want[good], rtol=2e-2, atol=2e-2)
                rep.expect(good.sum() > 250, "harness:profiles", f"{good.sum()}")
                p = f"pmi-profile-{k}.pdf"
                job(w, p).run()
                bars = w.figures[-1].axes[0].patches
                edges = [b.get_x() for b in bars] + [bars[-1].get_x() + bars[-1].get_width()]
                h, _ = np.histogram(got, bins=100, density=True)
                rep.close("profiles:figure:edges", [edges[0], edges[-1]], [np.nanmin(got), np.nanmax(got)], rtol=1e-3, atol=1e-3, name=k)
                rep.close("profiles:figure:mass", sum(b.get_height() * b.get_width() for b in bars), 1.0, rtol=1e-6)
                mean = float(re.search(r"\(MI\): (-?[\d.]+|nan)\.", w.figures[-1]._suptitle.get_text()).group(1))
                rep.close("profiles:figure:mean", mean, got.mean(), rtol=0, atol=0.0051, name=k)
            else:
                p = f"pmi-plot-{k}.pdf"
                job(w, p).run()
                axs = w.figures[-1].axes
                z = np.asarray(axs[0].images[0].get_array(), dtype=float)
                g = np.linspace(-10, 10, z.shape[0])
                xs, ys = np.meshgrid(g, g)
                want = ref(xs.reshape(-1, 1), ys.reshape(-1, 1))[1].reshape(z.shape)
                rep.close(f"profiles:plane:{k}", z, want, rtol=2e-3, atol=2e-2)
                rep.expect(axs[0].images[0].origin == "lower" and list(axs[0].images[0].get_extent()) == [-10, 10, -10, 10], "profiles:extent", f"{axs[0].images[0].get_extent()}")
                dots = np.asarray(axs[1].collections[0].get_offsets(), dtype=float)
                x, y = dist.sample(len(dots), jax.random.PRNGKey(0))
                rep.close("profiles:joint", dots, np.hstack([np.asarray(x), np.asarray(y)]), rtol=1e-6, name=k)
                for ax, v in ((axs[2], x), (axs[3], y)):
                    left, right = ax.patches[0].get_x(), ax.patches[-1].get_x() + ax.patches[-1].get_width()
                    rep.close("profiles:marginal", [left, right], [float(np.min(v)), float(np.max(v))], rtol=1e-4, atol=1e-4, name=k)
            rep.state()
            rep.trans()
            rep.outcome((name, k))


def stated(name, k):
    """What the distribution is called is what it is."""
    import numpy as np

    if name == "pmi_plot_1v1":
        c = lambda r: np.array([[1, r], [r, 1]])  # noqa: E731
        t = lambda df: (1.0, lambda x, y: student(np.hstack([x, y]), np.zeros(2), c(0.5), df), lambda x: student(x, [0], [[1]], df), lambda y: student(y, [0], [[1]], df))  # noqa: E731
        ref = {
            "Normal-0.5": lambda: Mixture([gauss(1.0, [0, 0], c(0.5), 1)]), "Normal-0.9": lambda: Mixture([gauss(1.0, [0, 0], c(0.9), 1)]),
            "Student-0.5-3": lambda: Mixture([t(3)]), "Student-0.5-5": lambda: Mixture([t(5)]), "Transformed-Normal-0.5": lambda: Mixture([gauss(1.0, [3, 0], c(0.5), 1)]),
            "Mixture": lambda: Mixture([gauss(0.25, [a, b], 0.5 * np.eye(2), 1) for a in (-1, 1) for b in (-1, 1)]),
        }[k]()
        return 1, 1, ref
    from mc.samplers_ref import lvm

    c = np.asarray(lvm(2, 3, 1, alpha=0.0, lambd=3.0, beta=0.0, eta=3.0), dtype=float)
    import bmi.samplers as s

    c = np.asarray(s.SparseLVMParametrization(dim_x=2, dim_y=3, n_interacting=1).covariance, dtype=float)
    t = Mixture([(1.0, lambda x, y: student(np.hstack([x, y]), np.zeros(5), c, 5), lambda x: student(x, np.zeros(2), c[:2, :2], 5), lambda y: student(y, np.zeros(3), c[2:, 2:], 5))])
    same = lambda x, y: (x, y)  # noqa: E731
    logit = lambda v: np.log(v) - np.log1p(-v)  # noqa: E731
    return 2, 3, {
        "Normal-2-3": (Mixture([gauss(1.0, np.zeros(5), c, 2)]), same), "Student-2-3": (t, same),
        "Transformed-Normal-2-3": (Mixture([gauss(1.0, np.zeros(5), c, 2)]), lambda x, y: (logit(x), logit(y))), "Transformed-Student2-3": (t, lambda x, y: (logit(x), y)),
        "Mixture": (Mixture([gauss(0.1, np.zeros(5), np.eye(5), 2), gauss(0.4, np.ones(5), np.eye(5), 2), gauss(0.5, -np.ones(5), 2 * np.eye(5), 2)]), same),
    }[k]


def distinct(w, rep):
    """Three samples, two profiles with the same mean."""
    import jax
    import numpy as np
    from scipy.stats import norm

    env = w.env
    rho = env["correlation"]
    env["n_samples"] = n = 4000
    for p in ("normal.npz", "transformed_normal.npz", "u_shape.npz"):
        job(w, p).run()
    a, b, c = (np.load(p) for p in ("normal.npz", "transformed_normal.npz", "u_shape.npz"))
    flat = lambda s: np.asarray(s, dtype=float).reshape(n, 2)  # noqa: E731
    x, y = env["bivariate_normal"].sample(n, jax.random.PRNGKey(0))
    s = flat(a["samples"])
    rep.close("distinct:sample", s, np.hstack([np.asarray(x), np.asarray(y)]), rtol=1e-6)
    ref = Mixture([gauss(1.0, [0, 0], [[1, rho], [rho, 1]], 1)])
    rep.close("distinct:profile", np.ravel(a["pmi_profile"]), ref(s[:, :1], s[:, 1:])[1], rtol=2e-3, atol=2e-3)
    rep.expect(np.array_equal(a["pmi_profile"], b["pmi_profile"]), "distinct:transformed-profile")
    tr = flat(b["samples"])
    u = 0.3 * norm.cdf(tr[:, 0]) + 0.7 * norm.cdf(tr[:, 0] - 5)
    v = 0.5 * norm.cdf(tr[:, 1] + 1) + 0.5 * norm.cdf(tr[:, 1] - 3)
    rep.close("distinct:transformed", np.stack([u, v], 1), norm.cdf(s), rtol=0, atol=2e-3)
    shape = Mixture([gauss(1 / 3, m, np.diag(d), 1) for m, d in (([-3, 0], [0.2, 1]), ([0, -3], [1, 0.2]), ([3, 0], [0.2, 1]))])
    s = flat(c["samples"])
    rep.close("distinct:u-profile", np.ravel(c["pmi_profile"]), shape(s[:, :1], s[:, 1:])[1], rtol=2e-3, atol=5e-3)
    # the U shape: three groups of equal weight
    near = np.array([[-3, 0], [0, -3], [3, 0]])
    which = ((s[:, None, :] - near[None]) ** 2).sum(2).argmin(1)
    rep.expect(all(abs((which == i).mean() - 1 / 3) < 0.06 for i in range(3)), "distinct:u-weights", f"{np.bincount(which)}")
    # the figure is refused unless the two profiles have the same mean
    for shift, refuse in ((0.0, False), (0.005, False), (0.05, True), (-0.05, True)):
        prof = np.linspace(-1, 1, 101)
        np.savez("normal.npz", samples=a["samples"], pmi_profile=prof + 0.5)
        np.savez("u_shape.npz", samples=c["samples"], pmi_profile=prof**3 + 0.5 + shift)
        try:
            job(w, "figure_distinct_profiles.pdf").run()
            refused = False
        except ValueError:
            refused = True
        rep.expect(refused == refuse, "distinct:refusal", f"shift {shift}: refused={refused}")
        rep.trans()
        if not refused:
            axs = w.figures[-1].axes
            for ax, q in zip(axs, (a, b, c)):
                dots = np.asarray(ax.collections[0].get_offsets(), dtype=float)
                rep.close("distinct:figure", dots, flat(q["samples"])[: len(dots)], rtol=1e-6)
            rep.close("distinct:figure-mean", axs[3].get_lines()[0].get_xdata(), [0.5, 0.5], rtol=1e-4)
    rep.state(3)
    rep.outcome("distinct")


def part_pointwise(case, rep):
    """Learned and exact pointwise mutual information on the same grid."""
    import numpy as np

    import bmi

    real, seen = bmi.estimators.InfoNCEEstimator, []

    class Fake:
        def estimate(self, x, y):
            seen.append((np.asarray(x), np.asarray(y)))
            return 0.5

        @property
        def trained_critic(self):
            return lambda x, y: 2.0 * x[0] - 0.5 * y[0]

    with study("projects/Beyond_Normal/figure_visualise_pointwise_mi.smk") as w:
        bmi.estimators.InfoNCEEstimator = Fake
        try:
            for p in w.first().job({}).input:
                inputs = job(w, p).input
            r = w.env["RADIUS"]
            for q in inputs:
                with contextlib.redirect_stdout(io.StringIO()):
                    job(w, q).run()
                d = np.load(q)
                g = np.linspace(-r, r, d["pmi_true"].shape[0])
                xs, ys = np.meshgrid(g, g)
                rep.close("pointwise:critic", d["pmi_critic"], 2 * xs - 0.5 * ys, rtol=1e-4, atol=1e-4, file=q)
                flat = xs.reshape(-1, 1), ys.reshape(-1, 1)
                c = np.array([[1, 0.5], [0.5, 1]])
                if "Gauss" in q:
                    ref = Mixture([gauss(1.0, [0, 0], c, 1)])
                else:
                    df = int(re.search(r"-(\d+)\.npz", q).group(1))
                    rep.expect(f"={df}$" in str(d["name"][0]), "pointwise:name", f"{d['name']}")
                    ref = Mixture([(1.0, lambda x, y: student(np.hstack([x, y]), np.zeros(2), c, df), lambda x: student(x, [0], [[1]], df), lambda y: student(y, [0], [[1]], df))])
                rep.close("pointwise:exact", d["pmi_true"].ravel(), ref(*flat)[1], rtol=1e-5, atol=1e-5, file=q)
                x, y = seen[-1]
                rep.close("pointwise:points", d["samples_x"], x[: len(d["samples_x"])], rtol=1e-7)
                rep.close("pointwise:points", d["samples_y"], y[: len(d["samples_y"])], rtol=1e-7)
                rep.expect(np.shape(x) == np.shape(y) and len(x) >= 1000, "pointwise:shape", f"{np.shape(x)}")
                if "Gauss" in q:
                    rep.close("pointwise:law", np.corrcoef(x[:, 0], y[:, 0])[0, 1], 0.5, rtol=0, atol=0.05)
                rep.state()
                rep.trans()
            for p in w.first().job({}).input:
                job(w, p).run()
            axs = w.figures[-1].axes
            rep.expect(len(axs) == 2 * len(inputs), "pointwise:axes", f"{len(axs)}")
            for i, q in enumerate(inputs):
                d = np.load(q)
                for row, k in ((0, "pmi_true"), (1, "pmi_critic")):
                    image = axs[row * len(inputs) + i].images[0]
                    rep.close(f"pointwise:figure:{k}", np.asarray(image.get_array(), dtype=float), d[k], rtol=1e-6, atol=1e-6)
            rep.outcome("pointwise")
        finally:
            bmi.estimators.InfoNCEEstimator = real


def part_cool(case, rep):
    """The demonstration: named tasks are the example distributions."""
    import jax
    import numpy as np

    with study("projects/Mixtures/cool_tasks.smk", edit=lambda t, p: t.replace("200_000", "500")) as w:
        env = w.env
        names = {"X": "x", "AI": "ai", "Fence": "waves", "Balls": "galaxy"}
        rep.expect(set(env["UNSCALED_TASKS"]) == set(names), "cool:tasks", f"{set(env['UNSCALED_TASKS'])}")
        for k, e in names.items():
            dx, ref, move = example(e)
            t = env["UNSCALED_TASKS"][k]
            base = getattr(sys.modules["example_distributions"], f"create_{e}_distribution")(_sample=500)
            x, y = (np.asarray(v, dtype=float) for v in t.sample(50, 4))
            bx, by = (np.asarray(v, dtype=float) for v in base.dist.sample(50, jax.random.PRNGKey(4)))
            rep.close("cool:sample", x, move(bx), rtol=2e-3, atol=2e-3, task=k)
            rep.close("cool:sample", y, by, rtol=1e-6, task=k)
            rep.close("cool:mi", float(t.mutual_information), float(base.sampler.mutual_information()), rtol=1e-5, task=k)
            scaled = env["TASKS"][k]
            sx, sy = (np.asarray(v, dtype=float) for v in scaled.sample(50, 4))
            rep.close("cool:scaled", sx, (x - x.mean(0)) / x.std(0), rtol=1e-3, atol=1e-3, task=k)
            rep.close("cool:scaled", sy, (y - y.mean(0)) / y.std(0), rtol=1e-3, atol=1e-3, task=k)
            rep.state()
        job(w, "cool_tasks.pdf").run()
        for ax, k in zip(w.figures[-1].axes, ("X", "AI", "Fence", "Balls")):
            dots = np.asarray(ax.collections[0].get_offsets(), dtype=float)
            x, y = (np.asarray(v, dtype=float) for v in env["UNSCALED_TASKS"][k].sample(len(dots), 0))
            rep.close("cool:figure", dots, np.hstack([x, y]) if x.shape[1] == 1 else x, rtol=1e-5, atol=1e-6, task=k)
        rows = results_for(w, invented)
        job(w, "cool_tasks-results.pdf").run()
        ax = w.figures[-1].axes[0]
        order = ["X", "AI", "Fence", "Balls"]
        rep.expect([v.get_text() for v in ax.get_xticklabels()] == ["X", "AI", "Waves", "Galaxy"], "cool:ticks", f"{[v.get_text() for v in ax.get_xticklabels()]}")
        for c in ax.collections:
            e = next((i for i, n in env["ESTIMATOR_NAMES"].items() if n == c.get_label()), None)
            pts = np.asarray(c.get_offsets(), dtype=float)
            for i, k in enumerate(order):
                got = sorted(pts[np.abs(pts[:, 0] - i) < 0.45][:, 1])
                want = sorted(r["value"] for r in rows if r["estimator"] == e and r["task"].id == k and r["n"] == 5000)
                if rep.expect(len(got) == len(want), "cool:points", f"{len(got)} instead of {len(want)}", estimator=e, task=k):
                    rep.close("cool:values", got, want, rtol=1e-9)
        truth = {round(float(np.mean(ln.get_xdata()))): float(ln.get_ydata()[0]) for ln in ax.get_lines()}
        for i, k in enumerate(order):
            rep.close("cool:truth", truth.get(i, math.nan), float(env["TASKS"][k].mutual_information), rtol=1e-6, task=k)
        rep.outcome("cool")
