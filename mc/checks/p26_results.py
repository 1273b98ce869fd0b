"""P26: results of a benchmark survive the way from the estimator to the tables: YAML, CSV, reader, mean and convergence tables."""

import itertools
import math

PROPERTY = "P26"
NAN = float("nan")
MI = (0.0, 0.5, NAN, 5.0, 0.04, -0.2)
BOUNDS = {
    "quick": "every assignment of 6 estimates to 2 sample sizes x 2 seeds and to 3 seeds of one cell; every subset of 2 estimators x 2 tasks x 2 seeds; "
    "every requested sample size, with and without filtering; every pair of 14 dictionary values through writing and reading; the whole pipeline for 4 tasks x "
    "3 estimators x 2 sizes x 2 seeds (files, then tables) in 3 gathering orders",
    "thorough": "4 seeds of one cell; triples of dictionary values",
}
ASSUMPTIONS = ["the HTML renderer (jinja2, not installed) is replaced by a recorder of the table, the colours and the number format"]
VALUES = {
    "int": 3, "float": 0.5, "small-float": 1e-05, "large-float": 1e16, "none": None, "nan": NAN, "inf": math.inf, "true": True, "text": "plain", "apostrophe": "it's",
    "both-quotes": "it's \"odd\"", "newline": "two\nlines", "list": [1, 0.25], "nested": {"a": {"b": [0.5]}},
}


def cases(tier):
    out = [{"part": "cell", "a": a, "b": b, "seeds": 4 if tier == "thorough" else 3} for a in range(len(MI)) for b in range(len(MI))]
    out += [{"part": "subset", "low": i} for i in range(8)]
    out += [{"part": "dict", "first": v} for v in VALUES]
    out += [{"part": "pipeline", "i": i} for i in range(4)]
    return out


# -- the code under test, with a recording renderer ---------------------------


class Recorder:
    def __init__(self, frame):
        self.frame, self.calls = frame, []
        self.index, self.columns, self.data = frame.index, frame.columns, frame

    def pipe(self, fn, *a, **k):
        out = fn(self, *a, **k)
        return self if out is None else out

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*a, **k):
            self.calls.append((name, a, k))
            return self

        return call


def load():
    import pandas as pd

    pd.DataFrame.style = property(Recorder)
    import _utils

    return _utils


# -- reference ----------------------------------------------------------------


def converged(values):
    top = max((v for v in values if v == v), default=NAN)
    return [v == v and v > 0.1 * top for v in values]


def mean(values):
    values = [v for v in values if v == v]
    return sum(values) / len(values) if values else NAN


def log_error(v, true):
    r = v / true if true else (math.copysign(math.inf, v) if v else NAN)
    return NAN if r != r or r < 0 else -math.inf if r == 0 else math.log2(r) if r != math.inf else math.inf


def groups(rows, n, mixed):
    """{(task, estimator): [(value, converged)]}; convergence is judged per sample size."""
    per = {}
    for r in rows:
        if mixed or r["n_samples"] == n:
            per.setdefault((r["task_id"], r["estimator_id"], r["n_samples"]), []).append(r["mi_estimate"])
    out = {}
    for (t, e, _), v in per.items():
        out.setdefault((t, e), []).extend(zip(v, converged(v)))
    return out


def benchmark_reference(rows, n, only, mixed):
    cells, colours = {}, {}
    true = {}
    for r in rows:
        true.setdefault(r["task_id"], r["mi_true"])
    for (t, e), v in groups(rows, n, mixed).items():
        kept = [a for a, c in v if c or not only]
        if kept:
            cells[t, e] = mean(kept)
            colours[t, e] = mean([log_error(a, true[t]) for a in kept])
    for t, v in true.items():
        cells[t, "True MI"], colours[t, "True MI"] = v, 0.0
    return cells, colours


def convergence_reference(rows, n, mixed):
    return {k: sum(c for _, c in v) / len(v) for k, v in groups(rows, n, mixed).items()}, None


def agree_colours(got, want):
    # the colour of an infinite error (an estimate of exactly 0) is not judged
    return agree(*({k: v for k, v in cells.items() if math.isfinite(want.get(k, 0.0))} for cells in (got, want)))


def as_cells(frame):
    return {(t, e): float(frame.loc[t, e]) for t in frame.index for e in frame.columns}


def agree(got, want):
    for k in set(got) | set(want):
        a, b = got.get(k, NAN), want.get(k, NAN)
        if not (a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(b))):
            return False
    return True


def check_tables(rep, rows, sizes=(None,)):
    import pandas as pd

    u = load()
    for n in sizes:
        real = max(r["n_samples"] for r in rows) if n is None else n
        several = len({r["n_samples"] for r in rows}) > 1
        for kind in ("all", "converged-only", "convergence"):
            frame = pd.DataFrame(rows)
            before = frame.copy(deep=True)
            if kind == "convergence":
                table = u.create_convergence_table(frame, n_samples=n)
                refs = [convergence_reference(rows, real, m) for m in (False, True)]
            else:
                table = u.create_benchmark_table(frame, n_samples=n, converged_only=kind != "all")
                refs = [benchmark_reference(rows, real, kind != "all", m) for m in (False, True)]
            rep.state()
            rep.trans()
            rep.trace()
            d = dict(rows=[(r["estimator_id"], r["task_id"], r["n_samples"], r["seed"], r["mi_estimate"]) for r in rows], n=n, kind=kind)
            got = as_cells(table.frame)
            gmap = next((k["gmap"] for name, a, k in table.calls if name == "background_gradient" and k.get("gmap") is not None), None)
            right, mixed = ((agree(got, cells) and (colours is None or gmap is None or agree_colours(as_cells(gmap), colours))) for cells, colours in refs)
            if not right:
                if several and mixed:
                    rep.fail("tables:all-sample-sizes-mixed", f"{got} instead of {refs[0][0]}", **d)
                else:
                    rep.fail(f"table:{kind}", f"{got} instead of {refs[0]}", **d)
            rep.expect(frame.equals(before), "input-changed", kind)
            for name, a, k in table.calls:
                if name == "format" and a and callable(a[0]):
                    want = {"convergence": ("45.6%", "?")}.get(kind, ("0.46", None))
                    rep.expect(a[0](0.456) == want[0], "format", a[0](0.456))
                    if want[1]:
                        rep.expect(a[0](NAN) == want[1], "format", a[0](NAN))
            rep.outcome((kind, n, sorted((k, repr(v)) for k, v in got.items())))


def row(e, t, n, seed, mi, true):
    return {"mi_estimate": mi, "time_in_seconds": 1.0, "success": mi == mi, "estimator_id": e, "task_id": t, "n_samples": n, "seed": seed, "mi_true": true}


def part_cell(case, rep):
    a, b = MI[case["a"]], MI[case["b"]]
    for rest in itertools.product(MI, repeat=case["seeds"] - 2):
        check_tables(rep, [row("A", "t", 10, i, v, 0.5) for i, v in enumerate((a, b, *rest))])
    for c, d in itertools.product(MI, repeat=2):
        rows = [row("A", "t", 10, 0, a, 0.5), row("A", "t", 10, 1, b, 0.5), row("A", "t", 20, 0, c, 0.5), row("A", "t", 20, 1, d, 0.5)]
        check_tables(rep, rows, sizes=(None, 10))


def part_subset(case, rep):
    keys = list(itertools.product("AB", ("t1", "t2"), (0, 1)))
    values = dict(zip(keys, (0.3, 0.5, 1.0, 0.02, 0.4, 0.6, NAN, 2.0)))
    for high in range(32):
        mask = case["low"] + 8 * high
        rows = [row(e, t, 10, s, values[e, t, s], {"t1": 0.5, "t2": 0.0}[t]) for i, (e, t, s) in enumerate(keys) if mask >> i & 1]
        if not rows:
            continue
        check_tables(rep, rows, sizes=(None, 10) if high % 8 == 0 else (None,))
        check_tables(rep, rows[::-1])


# -- reading ------------------------------------------------------------------


def equal(a, b):
    if isinstance(b, float) and b != b:
        return isinstance(a, float) and a != a
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(map(equal, a, b))
    if b is None:
        return a is None
    return type(a) == type(b) and a == b if isinstance(b, (bool, str)) else not isinstance(a, (bool, str)) and a == b


def part_dict(case, rep):
    import tempfile

    import pandas as pd

    u = load()
    first = case["first"]
    repeat = 2 if rep.tier == "thorough" else 1
    with tempfile.TemporaryDirectory(prefix="mc-p26-") as tmp:
        path = f"{tmp}/results.csv"
        for rest in itertools.product(VALUES, repeat=repeat):
            names = (first, *rest)
            info = {f"k{i}": VALUES[v] for i, v in enumerate(names)}
            params = {"p": VALUES[names[-1]]}
            # a value that this reader is known to lose must not hide the others: each is judged by itself
            for column, content in (("additional_information", info), ("task_params", params)):
                rows = [{**row("A", "t", 10, 0, 0.5, 0.5), "task_params": {}, "additional_information": {}}, {**row("B", "u", 20, 1, 0.25, 0.5), "task_params": {}, "additional_information": {}}]
                rows[1][column] = content
                pd.DataFrame(rows).to_csv(path, index=False)
                rep.state()
                rep.trans()
                kinds = [v for v in (names if column == "additional_information" else names[-1:])]
                try:
                    got = u.read_results(path, unpack_task_params=False)
                except Exception as e:
                    bad = [v for v in kinds if v == "both-quotes"]
                    rep.fail(f"read:crash:{bad[0] if bad else '+'.join(kinds)}", f"{type(e).__name__}: {e}"[:200], content=content)
                    continue
                if not rep.expect(len(got) == 2 and column in got.columns, "read:rows", f"{len(got)}"):
                    continue
                rep.expect(equal(got[column][0], {}), "read:empty", f"{got[column][0]}")
                back = got[column][1]
                if not rep.expect(isinstance(back, dict) and set(back) == set(content), f"read:keys:{'+'.join(kinds)}", f"{back} instead of {content}"):
                    continue
                for k, v in content.items():
                    kind = kinds[list(content).index(k)]
                    rep.expect(equal(back[k], v), f"read:value:{kind}", f"{back[k]!r} instead of {v!r}", content=content)
                for k in ("mi_estimate", "estimator_id", "task_id", "n_samples", "seed", "mi_true"):
                    rep.expect(list(got[k]) == [r[k] for r in rows], "read:column", k)
                if "both-quotes" not in names:
                    for up, ua in itertools.product((True, False), repeat=2):
                        wide = u.read_results(path, unpack_task_params=up, unpack_additional_information=ua)
                        rep.trans()
                        unpacked = up if column == "task_params" else ua
                        rep.expect((column in wide.columns) == (not unpacked), "unpack:column", f"{column}: {list(wide.columns)}")
                        rep.expect(all((k in wide.columns) == unpacked for k in content), "unpack:keys", f"{list(wide.columns)}")
                        if unpacked:
                            for k in content:
                                rep.expect(equal(wide[k][1], back[k]) or wide[k][1] == back[k] or (back[k] is None and wide[k][1] != wide[k][1]), "unpack:value", f"{wide[k][1]!r} instead of {back[k]!r}")
                                rep.expect(wide[k][0] is None or wide[k][0] != wide[k][0], "unpack:leak", f"{wide[k][0]!r}")
                rep.outcome((names, column))
            rep.trace()
        # the default unpacks the parameters only
        pd.DataFrame([{**row("A", "t", 10, 0, 0.5, 0.5), "task_params": {"p": 1}, "additional_information": {"q": 2}}]).to_csv(path, index=False)
        got = u.read_results(path)
        rep.expect("p" in got.columns and "task_params" not in got.columns and "q" not in got.columns, "unpack:default", f"{list(got.columns)}")


# -- the whole pipeline -------------------------------------------------------


def part_pipeline(case, rep):
    """The workflow rules (sample, estimate, gather, read, tabulate), jobs executed in several orders."""
    import tempfile

    import numpy as np
    import pandas as pd
    import yaml

    import bmi.estimators as est
    from bmi.benchmark import run_estimator
    from bmi.benchmark.tasks import bivariate_normal, multinormal, scaling, student
    from bmi.estimators.function_wrapper import FunctionalEstimator

    u = load()

    def broken(x, y):
        if len(x) == 15:
            raise ValueError("too few: 'points' needed")
        return -0.1

    estimators = {"CCA": est.CCAMutualInformationEstimator(), "KSG": est.KSGEnsembleFirstEstimator(neighborhoods=(3, 4)), "own": FunctionalEstimator(broken)}
    task = [
        lambda: bivariate_normal.task_bivariate_normal(0.75), lambda: multinormal.task_multinormal_sparse(2, 3, 2), lambda: student.task_student_identity(2, 1, 4),
        lambda: scaling.transform_rescale(bivariate_normal.task_bivariate_normal(0.5)),
    ][case["i"]]()
    other = bivariate_normal.task_bivariate_normal(0.1)
    tasks = {t.id: t for t in (task, other)}
    jobs = list(itertools.product(estimators, tasks, (15, 30), (0, 1)))
    reference = None
    for order in ("given", "reversed", "by-seed"):
        todo = {"given": jobs, "reversed": jobs[::-1], "by-seed": sorted(jobs, key=lambda j: (j[3], j[2]))}[order]
        with tempfile.TemporaryDirectory(prefix="mc-p26-") as tmp:
            made = set()
            for e, t, n, seed in todo:
                sample = f"{tmp}/{t}-{n}-{seed}.csv"
                if sample not in made:
                    tasks[t].save_sample(sample, n, seed)
                    made.add(sample)
                result = run_estimator(estimator=estimators[e], estimator_id=e, sample_path=sample, task_id=t, seed=seed)
                result.dump(f"{tmp}/{e}-{t}-{n}-{seed}.yaml")
                rep.trans(3)
            rows = []
            for e, t, n, seed in jobs:
                with open(f"{tmp}/{e}-{t}-{n}-{seed}.yaml") as fh:
                    r = yaml.safe_load(fh)
                r["mi_true"], r["task_name"], r["task_params"] = tasks[r["task_id"]].mutual_information, tasks[r["task_id"]].name, tasks[r["task_id"]].params
                rows.append(r)
            pd.DataFrame(rows).to_csv(f"{tmp}/results.csv", index=False)
            back = u.read_results(f"{tmp}/results.csv", unpack_task_params=False)
        rep.state()
        rep.expect(len(back) == len(jobs), "pipeline:rows", f"{len(back)}")
        plain = []
        for (e, t, n, seed), (_, got) in zip(jobs, back.iterrows()):
            d = dict(job=(e, t, n, seed))
            rep.expect((got["estimator_id"], got["task_id"], got["n_samples"], got["seed"]) == (e, t, n, seed), "pipeline:identity", str(dict(got))[:200], **d)
            x, y = (np.asarray(v, dtype=float) for v in tasks[t].sample(n, seed))
            fails = e == "own" and n == 15
            rep.expect(bool(got["success"]) == (not fails), "pipeline:success", str(got["success"]), **d)
            if fails:
                rep.expect(math.isnan(got["mi_estimate"]) and got["additional_information"] == {"error": "too few: 'points' needed"}, "pipeline:failure", str(dict(got))[:300], **d)
            else:
                want = estimators[e].estimate(x, y)
                rep.close("pipeline:estimate", got["mi_estimate"], want, rtol=1e-5, atol=1e-6, **d)
            rep.expect(abs(got["mi_true"] - tasks[t].mutual_information) < 1e-12, "pipeline:truth", str(got["mi_true"]), **d)
            rep.expect(equal(got["task_params"], yaml.safe_load(str(tasks[t].params))), "pipeline:params", str(got["task_params"]), **d)
            plain.append(row(e, t, n, seed, got["mi_estimate"], got["mi_true"]))
        if reference is None:
            reference = plain
        rep.expect(repr(plain) == repr(reference), "pipeline:order", order)
        check_tables(rep, plain, sizes=(None, 15))
        rep.trace()


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
