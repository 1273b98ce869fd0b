"""P13: results and metadata survive being written to YAML and read back, whatever they contain."""

import enum
import itertools
import math
import pathlib

PROPERTY = "P13"
BOUNDS = {
    "quick": "39 leaf values of every supported kind; every container of depth <=2 with up to 2 leaves; written by "
    "the result writer, the task-metadata writer and the dumper itself",
    "thorough": "as quick with depth-3 containers",
}
ASSUMPTIONS = ["PyYAML's safe loader is the reader"]


class Colour(enum.Enum):
    RED = "red"
    TWO = 2
    HALF = 0.5


def leaves():
    """(value, value expected after reading back)."""
    import numpy as np

    nan, inf = math.nan, math.inf
    plain = [None, True, False, 0, -1, 7, 10**20, 0.0, -2.5, 0.1 + 0.2, 1e16, 1e-300, 5e-324, 1.7976931348623157e308,
             nan, inf, -inf, "", "text", "a: b", "yes", "null", "1e5", "0x10", "12:30", "line\nbreak", "  pad ", "é—☃", "# c",
             "- d", "{e}", "2020-01-01", "'q\"", "~"]
    out = [(v, v) for v in plain]
    out += [
        (pathlib.Path("/tmp/a b/c.csv"), "/tmp/a b/c.csv"), (pathlib.PurePosixPath("rel/x"), None),
        (np.float64(0.1), 0.1), (np.float32(0.5), 0.5), (np.float16(2.0), 2.0), (np.float64(nan), nan), (np.float32(inf), inf),
        (np.int64(-3), -3), (np.int32(4), 4), (np.uint8(250), 250), (np.bool_(True), True), (np.bool_(False), False),
        (np.str_("np"), "np"), (Colour.RED, "red"), (Colour.TWO, 2), (Colour.HALF, 0.5),
        (np.array([1.5, -2.0]), [1.5, -2.0]), (np.array([[1, 2], [3, 4]]), [[1, 2], [3, 4]]), (np.array([]), []),
        (np.array([True, False]), [True, False]), (np.array(3.25), 3.25), (np.array([nan, inf]), [nan, inf]),
        (np.arange(6).reshape(3, 2)[::2], [[0, 1], [4, 5]]), (np.array(["u", "v"]), ["u", "v"]),
        ((1, 2.5), [1, 2.5]), ([], []), ({}, {}),
    ]
    return [(a, b) for a, b in out if not isinstance(a, pathlib.PurePosixPath) or isinstance(a, pathlib.Path)]


def eq(a, b):
    if isinstance(b, float) and isinstance(a, float) and math.isnan(b):
        return math.isnan(a)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in b)
    return type(a) is type(b) and a == b


def cases(tier):
    n = 70  # at least the number of leaves; unused indices are empty
    out = [{"part": "value", "lo": i, "hi": i + 6, "deep": tier == "thorough"} for i in range(0, n, 6)]
    out += [{"part": "result"}, {"part": "shared"}, {"part": "metadata"}]
    return out


def dump_load(value):
    import yaml
    from bmi.benchmark.utils.dict_dumper import DictDumper

    text = yaml.dump(value, Dumper=DictDumper)
    return text, yaml.safe_load(text)


def check(rep, key, value, want):
    rep.trans()
    try:
        text, back = dump_load(value)
    except Exception as e:
        rep.fail(f"{key}:exception", f"{type(e).__name__}: {e}"[:300], value=repr(value))
        return
    rep.state()
    if not eq(back, want):
        rep.fail(f"{key}:value", f"{value!r} came back as {back!r}, expected {want!r}"[:400])
    if "!!python" in text or "!!binary" in text:
        rep.fail(f"{key}:tag", f"{value!r} was written as {text!r}"[:400])


def run(case, rep):
    part = case["part"]
    if part == "value":
        all_ = leaves()
        for v, w in all_[case["lo"] : case["hi"]]:
            check(rep, "leaf", v, w)
            rep.outcome(repr(w))
            check(rep, "dict1", {"k": v}, {"k": w})
            check(rep, "list1", [v], [w])
            check(rep, "tuple1", (v,), [w])
            for u, z in all_:
                check(rep, "dict2", {"a": v, "b": u}, {"a": w, "b": z})
                check(rep, "list2", [v, u], [w, z])
                check(rep, "nest-dd", {"a": {"b": v, "c": [u]}}, {"a": {"b": w, "c": [z]}})
                check(rep, "nest-ld", [{"x": v}, (u, v)], [{"x": w}, [z, w]])
                if case["deep"]:
                    check(rep, "nest3", {"p": [{"q": (v, [u])}, {}], "r": {"s": {"t": u}}},
                          {"p": [{"q": [w, [z]]}, {}], "r": {"s": {"t": z}}})
            rep.trace()
    elif part == "shared":
        import numpy as np

        # the same object used twice is written out twice, not as a reference the reader must resolve
        for v, w in leaves():
            text, back = dump_load({"a": v, "b": v, "c": [v, {"d": v}]})
            rep.state()
            rep.trans()
            rep.expect(eq(back, {"a": w, "b": w, "c": [w, {"d": w}]}), "shared:value", f"{v!r}: {back!r}"[:300])
            if isinstance(v, (np.ndarray, np.generic, pathlib.Path, enum.Enum)):
                rep.expect("&id" not in text and "*id" not in text, "shared:anchor", f"{v!r}: {text!r}"[:300])
        rep.trace()
    elif part == "result":
        result(rep)
    else:
        metadata(rep)


def result(rep):
    import tempfile

    import yaml
    from bmi.benchmark import RunResult

    with tempfile.TemporaryDirectory(prefix="mc-yaml-") as d:
        d = pathlib.Path(d)
        p = d / "r.yaml"
        for v, w in leaves():
            for mi, secs, ok, seed in ((0.5, 1.25, True, 3), (math.nan, math.nan, False, None), (-1e-12, 0.0, True, 0),
                                       (math.inf, 1e-9, True, 2**40), (0.1 + 0.2, 12345.678901234567, True, 1)):
                r = RunResult(mi_estimate=mi, time_in_seconds=secs, success=ok, estimator_id="e: 1", task_id="t\"2\"",
                              n_samples=10, seed=seed, additional_information={"v": v, "n": {"m": [v]}})
                keep = r.additional_information.copy()
                rep.state()
                rep.trans()
                r.dump(p)
                back = yaml.safe_load(p.read_text())
                want = dict(mi_estimate=mi, time_in_seconds=secs, success=ok, estimator_id="e: 1", task_id="t\"2\"",
                            n_samples=10, seed=seed, additional_information={"v": w, "n": {"m": [w]}})
                rep.expect(eq(back, want), "result:value", f"{back!r} != {want!r}"[:500])
                again = RunResult(**back)
                rep.expect(eq(again.dict(), want), "result:reload", f"{again!r}"[:300])
                rep.expect(r.additional_information.keys() == keep.keys(), "result:mutated")
                # a shorter record written over a longer one leaves nothing of it behind
                short = RunResult(mi_estimate=1.0, time_in_seconds=1.0, success=True, estimator_id="e", task_id="t", n_samples=1)
                short.dump(str(p))
                b2 = yaml.safe_load(p.read_text())
                rep.expect(b2["estimator_id"] == "e" and b2["additional_information"] == {} and b2["seed"] is None,
                           "result:overwrite", f"{b2!r}"[:300])
            rep.outcome(repr(w))
            rep.trace()


def metadata(rep):
    import tempfile

    import yaml
    from bmi.benchmark.task import TaskMetadata
    from bmi.benchmark.utils.dict_dumper import DictDumper

    for v, w in leaves():
        for mi in (0.0, 0.25, 1e-17, 12.5):
            m = TaskMetadata(task_id="id", task_name="N: x", dim_x=2, dim_y=13, mi_true=mi, task_params={"p": v, "q": {"r": v}})
            back = yaml.safe_load(yaml.dump(m.dict(), Dumper=DictDumper))
            want = dict(task_id="id", task_name="N: x", dim_x=2, dim_y=13, mi_true=mi, task_params={"p": w, "q": {"r": w}})
            rep.state()
            rep.trans()
            rep.expect(eq(back, want), "metadata:value", f"{back!r} != {want!r}"[:400])
            rep.expect(eq(TaskMetadata(**back).dict(), want), "metadata:reload")
        rep.trace()
    for bad in (-1.0, -1e-9):
        rep.raises("metadata:negative-mi", lambda: TaskMetadata(task_id="i", task_name="n", dim_x=1, dim_y=1, mi_true=bad, task_params={}), (ValueError,))
