"""P31: the result of a benchmark run does not depend on the order of its jobs, on interruptions, or on what ran before in the process."""

import itertools
import json
import math
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

PROPERTY = "P31"
BOUNDS = {
    "quick": "three rule files; every order of the 6 jobs of 1 task x 2 estimators x 2 seeds that respects the files (80 orders, with the final table), for 4 pairs "
    "of estimators, 8 of them for 2 pairs with a neural one; every job interrupted at 6 places of its output, in 8 orders; 2 or 3 tasks x 4 or 5 estimators x 2 sizes x 2 seeds in 5 orders and over "
    "separate processes; a finished run extended by a seed, a task or an estimator; 6 sizes up to 12345 x 4 seeds in 5 orders",
    "thorough": "all 15 pairs of estimators (27 of the 80 orders for pairs with a neural one); interruptions in 27 orders; 3 tasks x 6 estimators in 10 orders; each estimator in a process of its own",
}
ASSUMPTIONS = ["jobs run one at a time; an interrupted job leaves a part of its file behind and is run again, as Snakemake does"]
RULES = {
    "benchmark": ("workflows/benchmark/_common_benchmark_rules.smk", "TASKS", "ESTIMATORS_DICT", False),
    "core": ("workflows/projects/Beyond_Normal/_core_rules.smk", "TASKS", "ESTIMATORS", True),
    "mixtures": ("workflows/projects/Mixtures/_benchmark_rules.smk", "UNSCALED_TASKS", "ESTIMATORS", True),
}
ESTIMATORS = ["KSG", "CCA", "histogram", "KDE", "InfoNCE", "MINE"]
TASKS = ["normal", "student", "uniform", "mixture"]


def estimator(name):
    import bmi.estimators as e

    return {
        "KSG": lambda: e.KSGEnsembleFirstEstimator(neighborhoods=(3, 5)),
        "CCA": lambda: e.CCAMutualInformationEstimator(),
        "histogram": lambda: e.HistogramEstimator(n_bins_x=3, n_bins_y=4),
        "KDE": lambda: e.KDEMutualInformationEstimator(),
        "InfoNCE": lambda: e.InfoNCEEstimator(verbose=False, max_n_steps=12, test_every_n_steps=4, batch_size=16, hidden_layers=(4,)),
        "MINE": lambda: e.MINEEstimator(verbose=False, max_n_steps=10, batch_size=8, hidden_layers=(3,)),
    }[name]()


def task(name):
    import bmi
    from bmi.benchmark import tasks as t
    from bmi.benchmark.tasks import student
    from bmi.benchmark.tasks.normal_cdf import transform_normal_cdf_task
    from bmi.samplers import bmm
    import jax.numpy as jnp

    if name == "mixture":
        dist = bmm.mixture(
            jnp.array([0.4, 0.6]),
            [bmm.MultivariateNormalDistribution(dim_x=1, dim_y=1, covariance=jnp.eye(2), mean=jnp.array([m, m])) for m in (-1.0, 1.0)],
        )
        return bmi.Task(bmm.BMMSampler(dist, mi_estimate_sample=50), task_id="mixture-2", task_name="Mixture", task_params={"m": 1.0, "parts": [0.4, 0.6]})
    return {
        "normal": lambda: t.task_multinormal_dense(2, 1, 0.5),
        "student": lambda: student.task_student_identity(dim_x=1, dim_y=2, df=3),
        "uniform": lambda: transform_normal_cdf_task(t.task_bivariate_normal(0.75)),
    }[name]()


def cases(tier):
    deep = tier == "thorough"
    out = []
    for rules in RULES:
        out.append({"part": "mixed", "rules": rules})
        out.append({"part": "processes", "rules": rules})
        out.append({"part": "extended", "rules": rules})
        out += [{"part": "sizes", "rules": rules, "task": t} for t in (("normal", "uniform", "student") if deep else ("normal",))]
    pairs = list(itertools.combinations(ESTIMATORS, 2))
    picked = pairs if deep else [("KSG", "CCA"), ("KSG", "histogram"), ("CCA", "KDE"), ("histogram", "KDE"), ("KSG", "InfoNCE"), ("CCA", "MINE")]
    for i, pair in enumerate(picked):
        for rules in RULES:
            if deep or (i + list(RULES).index(rules)) % 3 == 0 or i < 1:
                out.append({"part": "orders", "rules": rules, "pair": pair, "task": TASKS[i % 4]})
    for rules in RULES:
        for t in ("normal", "mixture") if deep else ("normal",):
            for start, step in ((0, 9), (3, 9), (6, 9)) if deep else ((0, 11),):
                out.append({"part": "interrupt", "rules": rules, "pair": ("KSG", "CCA"), "task": t, "orders": (start, step)})
    return out


def build(rules, tasks, estimators, sizes, seeds):
    """A run of the given rule file."""
    from mc import smk
    from mc.core import REPO

    path, tname, ename, by_id = RULES[rules]
    for d in ("workflows/benchmark", "workflows/projects/Mixtures", "workflows/projects/Beyond_Normal"):
        if str(REPO / d) not in sys.path:
            sys.path.append(str(REPO / d))
    made = [task(t) for t in tasks]
    if rules == "core":
        from mc.checks.p29_search import modules

        given = modules()[2].scale_tasks({t.id: t for t in made})
    else:
        given = {t.id: t for t in made} if by_id else tuple(made)
    return smk.Workflow(REPO / path, {tname: given, ename: {e: estimator(e) for e in estimators}, "N_SAMPLES": sizes, "SEEDS": seeds})


def fresh(rules, tname, ename, n, seed, known={}):
    """What one run says, computed without the workflow, on the points as they are stored."""
    key = rules, tname, ename, n, seed
    if key not in known:
        from bmi.utils import read_sample, save_sample

        t = task(tname)
        x, y = t.sample(n, seed)
        if rules != "benchmark":
            # the projects whiten every task
            from bmi.benchmark.tasks import transform_rescale

            x, y = transform_rescale(base_task=t, task_name=t.name, task_id=t.id).sample(n, seed)
        with tempfile.TemporaryDirectory(prefix="mc-p31-") as tmp:
            save_sample(f"{tmp}/sample.csv", x, y)
            x, y = read_sample(f"{tmp}/sample.csv")
        known[key] = float(estimator(ename).estimate(x, y)), t
    return known[key]


class Here:
    """A scratch directory, entered."""

    def __enter__(self):
        import resource

        self.old, self.tmp = os.getcwd(), tempfile.mkdtemp(prefix="mc-p31-")
        os.chdir(self.tmp)
        self.limit, resource.setrlimit = resource.setrlimit, lambda *a: None
        return self.tmp

    def __exit__(self, *exc):
        import resource

        resource.setrlimit = self.limit
        os.chdir(self.old)
        shutil.rmtree(self.tmp)


def record(path):
    """What a stored result says, without its running time."""
    import yaml

    r = yaml.safe_load(pathlib.Path(path).read_text())
    r.pop("time_in_seconds")
    return r


def outcome():
    """Everything the run left behind, running times aside."""
    import pandas as pd

    out = {}
    for p in sorted(pathlib.Path(".").rglob("*")):
        if p.suffix == ".yaml":
            out[str(p)] = repr(record(p))
        elif p.name == "results.csv":
            table = pd.read_csv(p)
            out[str(p)] = table.drop(columns=["time_in_seconds"]).to_csv(index=False)
        elif p.is_file():
            out[str(p)] = p.read_text()
    return out


def jobs(w):
    """Job -> the jobs it waits for, for the table of results."""
    return w.dag(["results.csv"])


def orders(dag):
    """Every order in which each job comes after those it waits for."""

    def rec(done, left):
        if not left:
            yield tuple(done)
            return
        for j in sorted(left):
            if dag[j][1] <= set(done):
                yield from rec(done + [j], left - {j})

    yield from rec([], set(dag))


def compare(rep, got, want, what, **detail):
    rep.expect(sorted(got) == sorted(want), f"{what}:files", f"{sorted(set(got) ^ set(want))}", **detail)
    for k in want:
        if got.get(k) != want[k]:
            kind = "sample" if k.startswith("tasks") else "result" if k.endswith("yaml") else "table"
            rep.fail(f"{what}:{kind}", f"{k}: {got.get(k, '')[:300]!r} instead of {want[k][:300]!r}", **detail)


def judge(rep, rules, got, tasks, estimators, sizes, seeds, what):
    """The outcome of a finished run against what each estimator says about each sample on its own."""
    import io

    import pandas as pd
    import yaml

    table = pd.read_csv(io.StringIO(got["results.csv"]))
    made = {t: task(t) for t in tasks}
    rep.expect(len(table) == len(tasks) * len(estimators) * len(sizes) * len(seeds), f"{what}:rows", f"{len(table)}")
    for t, e, n, s in itertools.product(tasks, estimators, sizes, seeds):
        value, ref = fresh(rules, t, e, n, s)
        d = dict(task=t, estimator=e, n=n, seed=s)
        rows = table[(table.task_id == ref.id) & (table.estimator_id == e) & (table.n_samples == n) & (table.seed == s)]
        if not rep.expect(len(rows) == 1, f"{what}:row", f"{len(rows)} rows", **d):
            continue
        row = rows.iloc[0]
        rep.close(f"{what}:value", row.mi_estimate, value, rtol=1e-4, atol=1e-5, **d)
        rep.expect(bool(row.success), f"{what}:success", f"{row}", **d)
        rep.close(f"{what}:truth", row.mi_true, float(ref.mutual_information), rtol=1e-6, **d)
        rep.expect(yaml.safe_load(row.task_params) == {k: v for k, v in ref.params.items()}, f"{what}:params", f"{row.task_params} instead of {ref.params}", **d)
        if rules == "benchmark":
            rep.expect(row.task_name == ref.name, f"{what}:name", f"{row.task_name}", **d)


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
    rep.trace()


def part_orders(case, rep):
    rules, pair = case["rules"], case["pair"]
    setup = ([case["task"]], pair, [40], [0, 7])
    w = build(rules, *setup)
    dag = jobs(w)
    want = None
    found = list(orders(dag))
    rep.expect(len(found) == 80 and len(dag) == 7, "harness:orders", f"{len(found)} orders of {len(dag)} jobs")
    neural = {"InfoNCE", "MINE"} & set(pair)
    for order in found[:: (3 if rep.tier == "thorough" else 11) if neural else 1]:
        with Here():
            for j in order:
                dag[j][0].run()
                rep.trans()
            got = outcome()
        rep.state()
        rep.trace()
        if want is None:
            want = got
            judge(rep, rules, got, *setup, "order")
        compare(rep, got, want, "order", order=[j[0] + str(dict(j[1:]).get("seed", "")) for j in order])
        rep.outcome(order)
    # another run with new objects says the same
    with Here():
        for j in found[17]:
            jobs(build(rules, *setup))[j][0].run()
        compare(rep, outcome(), want, "again")


CUTS = ["nothing", "start", "half", "all but one", "everything", "old and longer"]


def leave(path, cut):
    """What an interrupted job leaves in place of its file."""
    text = pathlib.Path(path).read_bytes()
    left = {
        "nothing": b"", "start": text[:1], "half": text[: len(text) // 2], "all but one": text[:-1], "everything": text, "old and longer": text + text,
    }[cut]
    pathlib.Path(path).write_bytes(left)


def part_interrupt(case, rep):
    rules, pair = case["rules"], case["pair"]
    setup = ([case["task"]], pair, [30], [1, 2])
    w = build(rules, *setup)
    dag = jobs(w)
    found = list(orders(dag))
    with Here():
        for j in found[0]:
            dag[j][0].run()
        want = outcome()
    judge(rep, rules, want, *setup, "interrupt")
    for order in found[case["orders"][0] :: case["orders"][1]]:
        for j, cut in itertools.product(order, CUTS):
            with Here():
                for k in order:
                    dag[k][0].run()
                    rep.trans()
                    if k == j:
                        for o in dag[k][0].output:
                            leave(o, cut)
                        dag[k][0].run()
                        rep.trans()
                got = outcome()
            rep.state()
            compare(rep, got, want, f"interrupted:{cut}", job=j, order=order)
            rep.outcome((order, j, cut))


def some_orders(dag):
    """A few very different orders of many jobs: by kind, seed, size, estimator, task; backwards; depth first."""
    keys = {
        "kind": lambda j: (j[0],), "seed": lambda j: (dict(j[1:]).get("seed", ""),), "size": lambda j: (dict(j[1:]).get("n_samples", ""),),
        "estimator": lambda j: (dict(j[1:]).get("estimator_id", ""),), "task": lambda j: (dict(j[1:]).get("task_id", ""),),
    }
    for name, key in keys.items():
        for back in (False, True):
            ranked = sorted((j for j in dag), key=lambda j: (key(j), j), reverse=back)
            done, order = set(), []

            def visit(j):
                if j in done:
                    return
                for k in sorted(dag[j][1], reverse=back):
                    visit(k)
                done.add(j)
                order.append(j)

            for j in ranked:
                if j[0] != "results":
                    visit(j)
            order += [j for j in dag if j[0] == "results"]
            yield (name, back), order


def part_mixed(case, rep):
    neural = {"benchmark": ["InfoNCE"], "core": ["MINE"], "mixtures": []}[case["rules"]]
    FULL = (["normal", "student"] if neural else ["normal", "student", "uniform"], ESTIMATORS[:4] + neural, [30, 45], [3, 11])
    if rep.tier == "thorough":
        FULL = (["normal", "student", "uniform"], ESTIMATORS, [30, 45], [3, 11])
    w = build(case["rules"], *FULL)
    dag = jobs(w)
    rep.expect(len(dag) == len(FULL[0]) * 2 * 2 * (len(FULL[1]) + 1) + 1, "harness:jobs", f"{len(dag)}")
    want = None
    for i, (name, order) in enumerate(some_orders(dag)):
        if rep.tier != "thorough" and i not in (0, 1, 3, 6, 9):
            continue
        with Here():
            for j in order:
                dag[j][0].run()
                rep.trans()
            got = outcome()
        rep.state()
        if want is None:
            want = got
            judge(rep, case["rules"], got, *FULL, "mixed")
        compare(rep, got, want, "mixed", order=name)
        rep.outcome((case["rules"], name))


def part_sizes(case, rep):
    """Samples of very different sizes, and what is computed from them, for several seeds in one process."""
    setup = ([case["task"]], ["CCA"], [10, 128, 1000, 4999, 10000, 12345], [0, 1, 2, 42])
    w = build(case["rules"], *setup)
    dag = jobs(w)
    want = None
    for i, (name, order) in enumerate(some_orders(dag)):
        if i not in (0, 2, 3, 4, 5):
            continue
        with Here():
            for j in order:
                dag[j][0].run()
                rep.trans()
            got = outcome()
        rep.state()
        if want is None:
            want = got
            judge(rep, case["rules"], got, *setup, "sizes")
            rep.expect(len(set(v for k, v in got.items() if k.startswith("tasks"))) == 24, "sizes:same-sample", "two of the 24 samples are the same")
        compare(rep, got, want, "sizes", order=name)
        rep.outcome((case["rules"], name))


def part_extended(case, rep):
    """A finished run to which something is added: what was there stays, the rest is as if it had been there from the start."""
    base = [["normal"], ["KSG", "CCA"], [30], [5]]
    for where, new in ((0, "student"), (0, "mixture"), (1, "KDE"), (2, 41), (3, 6)):
        for front in (False, True):
            full = [list(v) for v in base]
            full[where] = [new] + full[where] if front else full[where] + [new]
            w0, w1 = build(case["rules"], *base), build(case["rules"], *full)
            d0, d1 = jobs(w0), jobs(w1)
            o0, o1 = next(iter(orders(d0))), next(iter(orders(d1))) if len(d1) < 9 else [o for _, o in some_orders(d1)][0]
            with Here():
                for j in o0:
                    d0[j][0].run()
                kept = {p: b for p, b in outcome().items() if p != "results.csv"}
                for j in o1:
                    if j not in d0 or j[0] == "results":
                        d1[j][0].run()
                        rep.trans()
                got = outcome()
            with Here():
                for j in o1:
                    d1[j][0].run()
                want = outcome()
            rep.state()
            compare(rep, got, want, "extended", added=new, front=front)
            compare(rep, {p: got[p] for p in kept if p in got}, kept, "extended:kept", added=new)
            judge(rep, case["rules"], got, *full, "extended")
            rep.outcome((where, new, front))


def part_processes(case, rep):
    """Each kind of job, and each estimator, in a process of its own."""
    setup = (["student", "mixture"], ["KSG", "CCA", "MINE"], [30], [0, 4])
    w = build(case["rules"], *setup)
    dag = jobs(w)
    order = next(o for _, o in some_orders(dag))
    with Here():
        for j in order:
            dag[j][0].run()
        want = outcome()
    judge(rep, case["rules"], want, *setup, "processes")
    rest = [j for j in order[::-1] if j[0] == "apply_estimator"]
    groups = [[j for j in order if j[0] == "sample_task"]]
    if rep.tier == "thorough":
        groups += [[j for j in rest if dict(j[1:])["estimator_id"] == e] for e in setup[1]] + [[("results",)]]
    else:
        groups = [groups[0] + rest[::2], rest[1::2] + [("results",)]]
    with Here() as tmp:
        for g in groups:
            done = subprocess.run(
                [sys.executable, "-m", "mc.checks.p31_schedules", json.dumps([tmp, case["rules"], setup, g])], capture_output=True, text=True,
                cwd=str(pathlib.Path(__file__).resolve().parents[2]))
            rep.trans(len(g))
            if not rep.expect(done.returncode == 0, "processes:failed", done.stderr[-600:]):
                return
        got = outcome()
    rep.state()
    compare(rep, got, want, "processes")
    rep.outcome(case["rules"])


def main():
    from mc.core import prepare_environment

    prepare_environment()
    where, rules, setup, group = json.loads(sys.argv[1])
    w = build(rules, *setup)
    dag = jobs(w)
    os.chdir(where)
    for j in group:
        dag[(j[0],) + tuple(tuple(p) for p in j[1:])][0].run()


if __name__ == "__main__":
    main()
