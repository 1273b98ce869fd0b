"""P11: bridge to the R and Julia estimators: command line, hand-over file, and every way the child can answer."""

import contextlib
import importlib.util
import itertools
import json
import os
import pathlib
import shutil
import sys
import tempfile

PROPERTY = "P11"
BOUNDS = {
    "quick": "7 estimators x 3-4 settings x 9 shapes (up to 12+11 columns) by array and by file; 30 child answers "
    "(values, garbage, exit codes, signals, stderr, missing program) x 2 tools; all pairs of answers in sequence; "
    "every history of 2 estimates over 3 samples x (rewritten file, same time stamp, in memory) x 2 tools",
    "thorough": "as quick with all shapes 1..4 x 1..4 all triples of answers, histories of 3 estimates",
}
ASSUMPTIONS = ["the R and Julia programs are replaced by a stand-in implementing the command line of external/rmi.R and "
               "external/mi_estimator.jl; what those libraries compute is outside the check"]

STUB = pathlib.Path(__file__).resolve().parents[1] / "stubs" / "estimator_stub.py"


def stub_module():
    spec = importlib.util.spec_from_file_location("estimator_stub", STUB)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


@contextlib.contextmanager
def sandbox(tools=("Rscript", "julia")):
    """Scratch directory with the stand-ins first on PATH; everything in it is removed."""
    d = pathlib.Path(tempfile.mkdtemp(prefix="mc-ext-"))
    old = {k: os.environ.get(k) for k in ("PATH", "STUB_LOG", "STUB_MODE", "TMPDIR")}
    cwd = os.getcwd()
    old_tmp = tempfile.tempdir
    try:
        (d / "bin").mkdir()
        (d / "tmp").mkdir()
        for t in tools:
            shutil.copy(STUB, d / "bin" / t)
            (d / "bin" / t).chmod(0o755)
        os.environ["PATH"] = f"{d / 'bin'}:/usr/bin:/bin"
        os.environ["STUB_LOG"] = str(d / "log")
        os.environ["STUB_MODE"] = "ok"
        os.environ["TMPDIR"] = str(d / "tmp")
        tempfile.tempdir = None
        yield d
    finally:
        os.chdir(cwd)
        tempfile.tempdir = old_tmp
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(d, ignore_errors=True)


def read_log(d):
    p = d / "log"
    if not p.exists():
        return []
    return [json.loads(line) for line in p.read_text().splitlines()]


def configs():
    """(class, kwargs, tool, expected method, expected hyperparameters)."""
    out = []
    for v, k in itertools.product((1, 2), (1, 7)):
        out.append(("RKSGEstimator", dict(variant=v, neighbors=k), "Rscript", f"KSG{v}", dict(neighbors=k)))
        out.append(("JuliaKSGEstimator", dict(variant=v, neighbors=k), "julia", f"KSG{v}", dict(neighbors=k)))
    out.append(("RKSGEstimator", {}, "Rscript", "KSG1", dict(neighbors=10)))
    out.append(("JuliaKSGEstimator", {}, "julia", "KSG1", dict(neighbors=10)))
    for k, t in ((2, 3), (5, 11), (None, None)):
        kw = {} if k is None else dict(k=k, truncation=t)
        out.append(("RLNNEstimator", kw, "Rscript", "LNN", dict(neighbors=k or 5, truncation=t or 30)))
    for p in (0, 1, 2, 10, None):
        out.append(("RBNSLEstimator", {} if p is None else dict(proc=p), "Rscript", "BNSL", dict(proc=10 if p is None else p)))
    for cls, m in (("JuliaHistogramEstimator", "Histogram"), ("JuliaTransferEstimator", "Transfer")):
        for b in (2, 9, None):
            out.append((cls, {} if b is None else dict(bins=b), "julia", m, dict(bins=b or 10)))
    for b in (0.125, 3.0, 0.1234567890123456, 1e-7, 12345.678901, None):
        out.append(("JuliaKernelEstimator", {} if b is None else dict(bandwidth=b), "julia", "Kernel", dict(bandwidth=b or 1.0)))
    return out


ANSWERS = [
    ("print:0.0\\n", 0.0), ("print:1.5\\n", 1.5), ("print:-0.25", -0.25), ("print:  2e-3  \\n\\n", 2e-3),
    ("print:1.0000000000000002\\n", 1.0000000000000002), ("print:inf\\n", float("inf")), ("print:NaN\\n", float("nan")),
    ("print:", None), ("print:\\n", None), ("print:abc\\n", None), ("print:1.5 2.5\\n", None),
    ("print:1.5\\n2.5\\n", None), ("print:Warning: old\\n1.5\\n", None), ("print:[1] 0.5\\n", None),
    ("print:1,5\\n", None), ("print:MI=3\\n", None), ("print:0.5nats\\n", None), ("print:NA\\n", None),
    ("warn", None), ("exit1", None), ("exit3-number", None), ("signal", None), ("missing", None),
    ("print:1.5\\n\\xff\\n", None),
    # a number on the output of a child that then fails: an interrupted child, a status other than 1, a late crash
    ("number-signal:9", None), ("number-signal:11", None), ("number-signal:15", None),
    ("number-exit:2", None), ("number-exit:127", None), ("number-exit:255", None),
]


def cases(tier):
    deep = tier == "thorough"
    n = len(configs())
    out = [{"part": "commands", "config": i, "deep": deep} for i in range(n)]
    for tool in ("RKSGEstimator", "JuliaHistogramEstimator"):
        for a in range(len(ANSWERS)):
            out.append({"part": "answers", "est": tool, "first": a, "len": 3 if deep else 2})
    out += [{"part": "files", "est": e, "len": 3 if deep else 2} for e in ("RKSGEstimator", "JuliaHistogramEstimator")]
    out.append({"part": "reader"})
    out.append({"part": "config"})
    return out


def estimator_class(name):
    from bmi.estimators.external import julia_estimators, r_estimators

    return getattr(r_estimators if name.startswith("R") else julia_estimators, name)


def arrays(n, dx, dy):
    import numpy as np

    x = np.array([[0.1 * (7 * i + 3 * c + 1) + 1e-7 * i for c in range(dx)] for i in range(n)])
    y = np.array([[-1.0 / (2 * i + 5 * c + 1) for c in range(dy)] for i in range(n)])
    return x, y


def run(case, rep):
    part = case["part"]
    if part == "commands":
        commands(rep, configs()[case["config"]], case["deep"])
    elif part == "answers":
        answers(rep, case["est"], case["first"], case["len"])
    elif part == "files":
        files(rep, case["est"], case["len"])
    elif part == "reader":
        reader(rep)
    else:
        config(rep)


def commands(rep, cfg, deep):
    import numpy as np
    from bmi.utils import save_sample

    name, kw, tool, method, hyper = cfg
    stub = stub_module()
    shapes = [(1, 1, 1), (3, 1, 1), (2, 2, 1), (2, 1, 3), (4, 2, 2), (2, 3, 2), (2, 10, 1), (2, 1, 12), (3, 12, 11)]
    if deep:
        shapes += [(n, a, b) for n in (1, 5) for a in range(1, 5) for b in range(1, 5)]
    for n, dx, dy in shapes:
        x, y = arrays(n, dx, dy)
        want = stub.value(tool, method, hyper, np.hstack([x, y]).tolist(), dx, dy)
        for how in ("array", "list", "path", "relative", "info"):
            with sandbox() as d:
                est = estimator_class(name)(**kw)
                kx, ky = x.copy(), y.copy()
                rep.state()
                rep.trans()
                if how == "array":
                    got = est.estimate(x, y)
                elif how == "list":
                    if n > 3:
                        continue
                    got = est.estimate(x.tolist(), y.tolist())
                elif how == "info":
                    got = est.estimate_with_info(x, y).mi_estimate
                else:
                    (d / "work").mkdir()
                    p = d / "work" / "sample file.csv"
                    save_sample(p, x, y)
                    if how == "relative":
                        os.chdir(d / "work")
                        p = pathlib.Path("sample file.csv")
                        got = est.estimate_with_info_from_path(str(p)).mi_estimate
                    else:
                        got = est.estimate_with_info_from_path(p).mi_estimate
                    rep.expect((d / "work" / "sample file.csv").exists(), "commands:input-deleted")
                det = dict(est=name, kw=kw, shape=(n, dx, dy), how=how)
                rep.close("commands:value", got, want, rtol=1e-12, atol=1e-12, **det)
                log = read_log(d)
                rep.expect(len(log) == 1, "commands:calls", f"{len(log)} child processes", **det)
                if log:
                    c = log[0]
                    rep.expect(c["tool"] == tool and c["exists"] and c["script_exists"]
                               and os.path.isabs(c["pos"][0]) and os.path.isabs(c["script"]),
                               "commands:call", f"{c}", **det)
                    if how in ("array", "list", "info"):
                        rep.expect(not os.path.exists(c["pos"][0]), "commands:tempfile-left", f"{c['pos'][0]}", **det)
                rep.expect(os.listdir(d / "tmp") == [], "commands:leftover", f"{os.listdir(d / 'tmp')}", **det)
                rep.expect((x == kx).all() and (y == ky).all(), "commands:mutated", **det)
                rep.outcome(got)
        rep.trace()
    rep.sample(dict(est=name, kw=kw, method=method, expected=want))


def answers(rep, name, first, length):
    import math

    x, y = arrays(3, 2, 1)
    for tail in itertools.product(range(len(ANSWERS)) if length == 2 else range(0, len(ANSWERS), 3), repeat=length - 1):
        seq = (first,) + tail
        rep.state()
        with sandbox() as d:
            est = estimator_class(name)(**({"neighbors": 3} if "KSG" in name else {"bins": 3}))
            for a in seq:
                mode, want = ANSWERS[a]
                tool = d / "bin" / ("Rscript" if name.startswith("R") else "julia")
                hidden = d / "hidden"
                if mode == "missing":
                    tool.rename(hidden)
                os.environ["STUB_MODE"] = mode
                rep.trans()
                try:
                    got = est.estimate(x, y)
                    if want is None:
                        rep.fail("answers:accepted", f"child answer {mode!r} was read as {got!r}", est=name, seq=[ANSWERS[s][0] for s in seq])
                    else:
                        ok = got == want or (math.isnan(want) and math.isnan(got))
                        rep.expect(ok and isinstance(got, float), "answers:value", f"{got!r} != {want!r}", est=name, mode=mode)
                except Exception as e:
                    if want is not None:
                        rep.fail("answers:rejected", f"child answer {mode!r} raised {type(e).__name__}: {e}", est=name)
                    elif mode in ("exit1", "exit3-number") or mode.startswith("number-exit"):
                        out = getattr(e, "output", None)
                        needle = b"partial output" if mode == "exit1" else b"0.25"
                        rep.expect(out is not None and needle in (out if isinstance(out, bytes) else str(out).encode()),
                                   "answers:output-lost", f"{type(e).__name__} carries no child output", est=name)
                        if mode == "exit1":
                            rep.expect(b"crashed" in (out if isinstance(out, bytes) else str(out).encode()), "answers:stderr-lost", f"{out}")
                    rep.outcome((mode, type(e).__name__))
                if mode == "missing":
                    hidden.rename(tool)
                rep.expect(os.listdir(d / "tmp") == [], "answers:leftover",
                           f"temporary files left after {mode!r}: {os.listdir(d / 'tmp')}", est=name)
        rep.trace()


def files(rep, name, length):
    """Histories of estimates from files that are rewritten, moved or given again in memory between calls."""
    import numpy as np
    from bmi.utils import save_sample

    stub = stub_module()
    tool, kw, method = ("Rscript", {"neighbors": 3}, "KSG1") if name.startswith("R") else ("julia", {"bins": 3}, "Histogram")
    base = arrays(4, 2, 1)
    sets = {"base": base, "reversed": (base[0], base[1][::-1].copy()), "other": arrays(4, 1, 2)}
    want = {k: stub.value(tool, method, kw, np.hstack(v).tolist(), v[0].shape[1], v[1].shape[1]) for k, v in sets.items()}
    rep.expect(len(set(want.values())) == 3, "files:distinct", f"{want}")
    ops = [(k, how) for k in sets for how in ("same-path", "same-mtime", "array")]
    for seq in itertools.product(ops, repeat=length):
        rep.state()
        with sandbox() as d:
            est = estimator_class(name)(**kw)
            p = d / "s.csv"
            for key, how in seq:
                rep.trans()
                if how == "array":
                    got = est.estimate(*sets[key])
                else:
                    save_sample(p, *sets[key])
                    if how == "same-mtime":
                        os.utime(p, (1_000_000_000, 1_000_000_000))
                    got = est.estimate_with_info_from_path(p).mi_estimate
                rep.close("files:value", got, want[key], rtol=1e-12, atol=1e-12, est=name, seq=seq)
            rep.expect(len(read_log(d)) == len(seq), "files:calls", "an answer was not asked for", seq=seq)
            rep.expect(os.listdir(d / "tmp") == [], "files:leftover")
    rep.trace()


def reader(rep):
    """The output reader by itself, on ordinary commands."""
    import math

    from bmi.estimators.external import external_estimator as m

    if not hasattr(m, "_run_command_and_read_mi"):
        rep.count("seam_absent")  # a helper of the module: the estimators themselves decide
        return
    values = [0.0, -0.0, 1.0, 12.3, -0.1, 1e3, 1e-12, 123456.789, float("inf"), float("-inf"), float("nan"), 0.1 + 0.2, 5e-324]
    for v in values:
        for form in ("%r\n", "%r", "  %r", "\n%r\n", "\t%r \n\n"):
            rep.state()
            rep.trans()
            got = m._run_command_and_read_mi(["printf", "%s", form % v])
            rep.expect(isinstance(got, float) and (got == v or (math.isnan(v) and math.isnan(got))), "reader:value", f"{got} != {v}")
    for bad in ("", " ", "x", "1 2", "1\n2", "--", "1.2.3", "None", "nan nan"):
        rep.state()
        rep.trans()
        rep.raises("reader:garbage", lambda: m._run_command_and_read_mi(["printf", "%s", bad]), (ValueError,), "", text=bad)
    rep.raises("reader:status", lambda: m._run_command_and_read_mi(["false"]))
    rep.raises("reader:status", lambda: m._run_command_and_read_mi(["sh", "-c", "echo 1.0; exit 2"]))
    rep.raises("reader:missing", lambda: m._run_command_and_read_mi(["/nonexistent/program"]))
    rep.trace()


def config(rep):
    for name, kw, tool, method, hyper in configs():
        p = estimator_class(name)(**kw).parameters().dict()
        rep.state()
        rep.trans()
        for k, v in kw.items():
            rep.expect(p.get(k) == v, "config:params", f"{name} {kw}: {p}")
    bad = [("RKSGEstimator", dict(variant=3)), ("RKSGEstimator", dict(neighbors=0)), ("JuliaKSGEstimator", dict(variant=0)),
           ("JuliaKSGEstimator", dict(neighbors=-1)), ("RLNNEstimator", dict(k=0)), ("RLNNEstimator", dict(truncation=0)),
           ("RBNSLEstimator", dict(proc=-1)), ("JuliaHistogramEstimator", dict(bins=1)), ("JuliaHistogramEstimator", dict(bins=0)),
           ("JuliaTransferEstimator", dict(bins=1)), ("JuliaKernelEstimator", dict(bandwidth=0.0)),
           ("JuliaKernelEstimator", dict(bandwidth=-2.0))]
    for name, kw in bad:
        rep.state()
        rep.trans()
        rep.raises("config:bad", lambda: estimator_class(name)(**kw), (ValueError,), f"{name}({kw})")
    rep.trace()
