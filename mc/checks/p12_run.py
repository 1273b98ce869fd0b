"""P12: running an estimator on a stored sample: every outcome (success, failure, child failure) is
recorded faithfully and runs do not influence each other."""

import itertools
import math
import os

PROPERTY = "P12"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "14 estimator behaviours x 4 callers' info dictionaries x shapes; every sequence of 3 runs over 6 behaviours "
    "sharing one info dictionary and one estimator; every timer history of length <=5 under a controlled clock",
    "thorough": "sequences of 4 runs over 8 behaviours; timer histories of length <=7",
}
ASSUMPTIONS = ["the wall clock is read through the time module"]

BEHAVIOURS = ["plain", "info", "timed", "timed0", "nan", "inf", "raise_value", "raise_runtime", "raise_empty",
              "raise_output", "raise_called", "raise_custom", "slow", "int"]


def cases(tier):
    deep = tier == "thorough"
    out = [{"part": "single", "behaviour": b} for b in BEHAVIOURS]
    menu = BEHAVIOURS[:12:2] + (["info", "raise_output"] if deep else [])
    for a in range(len(menu)):
        out.append({"part": "sequence", "menu": menu, "first": a, "len": 4 if deep else 3})
    out.append({"part": "external"})
    out.append({"part": "abort"})
    for op in range(5):
        out.append({"part": "timer", "first": op, "depth": 7 if deep else 5})
    return out


class Boom(Exception):
    pass


def make_estimator():
    """An environment-controlled estimator: .behaviour decides how the next call ends."""
    import subprocess

    from bmi.interface import BaseModel, EstimateResult, IMutualInformationPointEstimator

    class Env(IMutualInformationPointEstimator):
        def __init__(self):
            self.behaviour, self.calls = "plain", []

        def parameters(self):
            return BaseModel()

        def estimate(self, x, y):
            return self.estimate_with_info(x, y).mi_estimate

        def estimate_with_info(self, x, y):
            import time

            self.calls.append((x.shape, y.shape, float(x.sum()), float(y.sum())))
            v = float(x[0, 0] + 2 * y[0, -1])
            b = self.behaviour
            if b == "plain":
                return EstimateResult(mi_estimate=v)
            if b == "info":
                return EstimateResult(mi_estimate=v, additional_information={"history": [1, 2], "note": "n"})
            if b == "timed":
                return EstimateResult(mi_estimate=v, time_in_seconds=123.25)
            if b == "timed0":
                return EstimateResult(mi_estimate=v, time_in_seconds=0.0)
            if b == "nan":
                return EstimateResult(mi_estimate=math.nan, additional_information={"bad": True})
            if b == "inf":
                return EstimateResult(mi_estimate=math.inf)
            if b == "int":
                return EstimateResult(mi_estimate=3)
            if b == "slow":
                time.sleep(0.03)
                return EstimateResult(mi_estimate=v)
            if b == "raise_value":
                raise ValueError("wrong value")
            if b == "raise_runtime":
                raise RuntimeError("jit failed: %d" % 7)
            if b == "raise_empty":
                raise Exception()
            if b == "raise_custom":
                raise Boom("custom", 3)
            if b == "raise_output":
                e = RuntimeError("child died")
                e.output = "text printed by the child"
                raise e
            if b == "raise_called":
                raise subprocess.CalledProcessError(3, ["prog"], output=b"out\xc3\xa9")
            raise AssertionError(b)

    return Env()


def expected(b, x, y, given):
    """Reference record: (mi, success, time or None (measured), extra info)."""
    v = float(x[0, 0] + 2 * y[0, -1])
    info = dict(given or {})
    ok = {"plain": (v, None, {}), "info": (v, None, {"history": [1, 2], "note": "n"}), "timed": (v, 123.25, {}),
          "timed0": (v, 0.0, {}), "nan": (math.nan, None, {"bad": True}), "inf": (math.inf, None, {}),
          "int": (3.0, None, {}), "slow": (v, None, {})}
    if b in ok:
        mi, t, extra = ok[b]
        info.update(extra)
        return mi, True, t, info
    err = {"raise_value": "wrong value", "raise_runtime": "jit failed: 7", "raise_empty": "",
           "raise_output": "child died", "raise_custom": str(Boom("custom", 3)),
           "raise_called": "Command '['prog']' returned non-zero exit status 3."}[b]
    info["error"] = err
    if b == "raise_output":
        info["subprocess_output"] = "text printed by the child"
    if b == "raise_called":
        info["subprocess_output"] = str(b"out\xc3\xa9")
    return math.nan, False, math.nan, info


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def verify(rep, key, r, b, x, y, given, ids, **d):
    mi, success, t, info = expected(b, x, y, given)
    rep.expect(same(r.mi_estimate, mi), f"{key}:mi", f"{r.mi_estimate} != {mi}", behaviour=b, **d)
    rep.expect(r.success is success, f"{key}:success", f"{r.success}", behaviour=b, **d)
    if t is None:
        rep.expect(0 <= r.time_in_seconds < 60, f"{key}:time", f"{r.time_in_seconds}", behaviour=b, **d)
        if b == "slow":
            rep.expect(r.time_in_seconds >= 0.029, f"{key}:time", f"{r.time_in_seconds} < the 30 ms spent", **d)
    else:
        rep.expect(same(r.time_in_seconds, t), f"{key}:time", f"{r.time_in_seconds} != {t}", behaviour=b, **d)
    rep.expect(r.additional_information == info, f"{key}:info", f"{r.additional_information} != {info}", behaviour=b, **d)
    rep.expect((r.estimator_id, r.task_id, r.seed, r.n_samples) == ids, f"{key}:ids",
               f"{(r.estimator_id, r.task_id, r.seed, r.n_samples)} != {ids}", behaviour=b, **d)


def sample(n, dx, dy):
    import numpy as np

    x = np.array([[0.5 * i + c for c in range(dx)] for i in range(n)])
    y = np.array([[-0.25 * i + 3 * c for c in range(dy)] for i in range(n)])
    return x, y


def run(case, rep):
    import copy
    import pathlib
    import tempfile

    from bmi.benchmark import run_estimator
    from bmi.utils import save_sample

    part = case["part"]
    if part == "timer":
        timer(rep, case)
        return
    if part == "external":
        external(rep)
        return
    with tempfile.TemporaryDirectory(prefix="mc-run-") as d:
        d = pathlib.Path(d)
        if part == "single":
            b = case["behaviour"]
            for n, dx, dy in itertools.product((1, 4), (1, 2, 11), (1, 3)):
                x, y = sample(n, dx, dy)
                p = d / f"s-{n}-{dx}-{dy}.csv"
                save_sample(p, x, y)
                for given in (None, {}, {"a": 1}, {"a": [1], "error": "old", "note": "mine", "subprocess_output": "old"}):
                    for seed in (None, 0, 17):
                        est = make_estimator()
                        est.behaviour = b
                        keep = copy.deepcopy(given)
                        rep.state()
                        rep.trans()
                        kw = {} if given is None else {"additional_information": given}
                        r = run_estimator(est, "est-id", p if seed else str(p), "task-id", seed=seed, **kw)
                        verify(rep, "single", r, b, x, y, keep, ("est-id", "task-id", seed, n), shape=(n, dx, dy), caller=keep)
                        if given != keep:
                            # exactly the record's own information was added to the dictionary passed: a recorded finding
                            key = "caller-info-extended-by-own-record" if given == expected(b, x, y, keep)[3] else "single:caller-info-changed"
                            rep.fail(key, f"{keep} became {given}", behaviour=b)
                        rep.expect(est.calls == [((n, dx), (n, dy), float(x.sum()), float(y.sum()))], "single:call",
                                   f"{est.calls}", shape=(n, dx, dy))
                        rep.expect(p.exists(), "single:sample-deleted")
                        rep.outcome((b, r.success, sorted(r.additional_information)))
                        if b == "slow" and (given or n > 1):
                            break
                rep.trace()
        elif part == "sequence":
            paths = []
            for i, (n, dx, dy) in enumerate(((3, 1, 1), (2, 2, 1))):
                x, y = sample(n, dx, dy)
                save_sample(d / f"{i}.csv", x, y)
                paths.append((d / f"{i}.csv", x, y))
            for tail in itertools.product(case["menu"], repeat=case["len"] - 1):
                seq = (case["menu"][case["first"]],) + tail
                for shared, one_dict in (({"run": "shared", "list": [1]}, True), ({"run": "shared", "list": [1]}, False), (None, False)):
                    est = make_estimator()
                    info = copy.deepcopy(shared)
                    results = []
                    rep.state()
                    for i, b in enumerate(seq):
                        p, x, y = paths[i % 2]
                        est.behaviour = b
                        rep.trans()
                        kw = {} if info is None else {"additional_information": info if one_dict else copy.deepcopy(shared)}
                        results.append(run_estimator(est, f"e{i}", p, f"t{i}", seed=i, **kw))
                    # every record is judged after the whole history has happened
                    if one_dict and info != shared:
                        # the recorded finding, exactly: the passed dictionary (and with it every record) accumulates
                        total = dict(shared)
                        for i, b in enumerate(seq):
                            total = expected(b, *paths[i % 2][1:], total)[3]
                        exact = info == total and all(r.additional_information == total for r in results)
                        rep.fail("caller-info-extended-by-own-record" if exact else "sequence:caller-info-changed",
                                 f"{shared} became {info}", seq=seq)
                        for r in results:
                            r.additional_information = None
                    for i, (b, r) in enumerate(zip(seq, results)):
                        p, x, y = paths[i % 2]
                        if r.additional_information is None:
                            r.additional_information = expected(b, x, y, shared)[3]
                        verify(rep, "sequence", r, b, x, y, shared, (f"e{i}", f"t{i}", i, len(x)), seq=seq, position=i)
                    rep.trace()
        else:
            # a sample that cannot be read is the caller's error, and interrupts are not swallowed
            est = make_estimator()
            rep.raises("abort:missing-sample", lambda: run_estimator(est, "e", d / "absent.csv", "t"))
            x, y = sample(2, 1, 1)
            save_sample(d / "s.csv", x, y)

            def interrupt(x, y):
                raise KeyboardInterrupt

            est.estimate_with_info = interrupt
            rep.raises("abort:interrupt", lambda: run_estimator(est, "e", d / "s.csv", "t"), (KeyboardInterrupt,))
            rep.state(2)
            rep.trans(2)
            rep.trace()


def external(rep):
    """External estimators are handed the stored file itself; their failures are recorded with the child's output."""
    import pathlib
    import tempfile

    from mc.checks import p11_external as ext
    from bmi.benchmark import run_estimator
    from bmi.utils import save_sample

    stub = ext.stub_module()
    import numpy as np

    x, y = ext.arrays(3, 2, 1)
    for name, kw, tool, method, hyper in ext.configs()[::2]:
        for mode in ("ok", "exit1", "print:abc\\n", "print:nan\\n", "exit3-number"):
            with ext.sandbox() as d:
                p = d / "stored.csv"
                save_sample(p, x, y)
                before = p.read_bytes()
                os.environ["STUB_MODE"] = mode
                rep.state()
                rep.trans()
                r = run_estimator(ext.estimator_class(name)(**kw), "E", p, "T", seed=4)
                log = ext.read_log(d)
                rep.expect(len(log) == 1 and log[0]["pos"][0] == str(p), "external:path",
                           f"child was given {log}", est=name)
                rep.expect(p.read_bytes() == before, "external:sample-changed")
                ids = (r.estimator_id, r.task_id, r.seed, r.n_samples)
                rep.expect(ids == ("E", "T", 4, 3), "external:ids", f"{ids}")
                if mode == "ok":
                    want = stub.value(tool, method, hyper, np.hstack([x, y]).tolist(), 2, 1)
                    rep.expect(r.success and abs(r.mi_estimate - want) < 1e-9, "external:value", f"{r} != {want}", est=name)
                elif mode == "print:nan\\n":
                    rep.expect(r.success and math.isnan(r.mi_estimate), "external:nan", f"{r}", est=name)
                else:
                    rep.expect(not r.success and math.isnan(r.mi_estimate) and math.isnan(r.time_in_seconds)
                               and "error" in r.additional_information, "external:failure", f"{r}", est=name, mode=mode)
                    out = r.additional_information.get("subprocess_output", "")
                    if mode == "exit1":
                        rep.expect("partial output" in out and "crashed" in out, "external:output-lost", f"{out!r}")
                    if mode == "exit3-number":
                        rep.expect("0.25" in out, "external:output-lost", f"{out!r}")
                rep.outcome((name, mode, r.success))
                rep.trace()


def timer(rep, case):
    """Timer against a reference clock, for every history of operations."""
    import contextlib
    import sys
    import time
    from unittest import mock

    from bmi.benchmark.utils.timer import Timer

    ops = ["+1.5", "+0.25", "check", "reset", "check_and_reset"]
    now = [100.0]
    module = sys.modules[Timer.__module__]
    with contextlib.ExitStack() as stack:
        for clock in ("perf_counter", "monotonic", "time", "process_time"):
            # whichever clock is used, and however it was imported, the enumerated clock answers
            for owner in (time, module):
                if callable(getattr(owner, clock, None)):
                    stack.enter_context(mock.patch.object(owner, clock, lambda: now[0]))
                if callable(getattr(owner, clock + "_ns", None)):
                    stack.enter_context(mock.patch.object(owner, clock + "_ns", lambda: int(now[0] * 10**9)))
        for depth in range(1, case["depth"] + 1):
            for tail in itertools.product(ops, repeat=depth - 1):
                seq = (ops[case["first"]],) + tail
                now[0] = 100.0
                t, start = Timer(), 100.0
                other = Timer()
                rep.state()
                for op in seq:
                    rep.trans()
                    if op[0] == "+":
                        now[0] += float(op[1:])
                        continue
                    got = getattr(t, op)()
                    if "check" in op:
                        rep.expect(abs(got - (now[0] - start)) < 1e-9, "timer:value", f"{op} gave {got} not {now[0] - start}", seq=seq)
                    if "reset" in op:
                        start = now[0]
                rep.expect(abs(t.check() - (now[0] - start)) < 1e-9, "timer:end", f"{t.check()}", seq=seq)
                rep.expect(abs(other.check() - (now[0] - 100.0)) < 1e-9, "timer:shared", f"{other.check()}", seq=seq)
                rep.outcome((now[0] - start))
            rep.trace()
