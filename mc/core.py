"""Bounded exhaustive explorer shared by every check.

A check module (mc/checks/<id>_*.py) provides

    PROPERTY      its id
    cases(tier)   -> list of JSON-serialisable case descriptions.  The list *is* the
                     bounded space: every case is executed, none is sampled.
    run(case, rep)   executes one case on the real code in /repo and compares it with
                     the reference model; every mismatch goes to rep.expect()/rep.fail().

The engine distributes the cases over worker processes, counts states / transitions /
traces while they run, turns mismatches into replay files, matches them against the
committed known findings, and writes the evidence file.
"""

from __future__ import annotations

import gc
import hashlib
import importlib
import json
import os
import pathlib
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("BMI_REPO", "/repo"))
SRC = REPO / "src"
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.txt"

MAX_REPLAYS = 3
CASE_TIMEOUT_S = int(os.environ.get("VERIF_CASE_TIMEOUT", "300"))  # three times as long in the thorough tier


class CaseTimeout(BaseException):
    """Not an Exception: code under test that turns exceptions into results must not swallow it."""


class Reporter:
    """Collects what one case did; merged by the parent."""

    def __init__(self, case=None, tier="quick"):
        self.case = case
        self.tier = tier
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes: set[str] = set()
        self.failures: list[dict] = []
        self._per_key: dict[str, int] = {}
        self.samples: list = []
        self.counters: dict[str, int] = {}

    # -- counting -----------------------------------------------------------
    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def outcome(self, value):
        """Records an observed outcome (only a digest is retained)."""
        if len(self.outcomes) < 5000:
            self.outcomes.add(hashlib.blake2b(repr(value).encode(), digest_size=8).hexdigest())

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(value)

    # -- verdicts -----------------------------------------------------------
    def fail(self, key, msg, /, **detail):
        """key identifies the kind of input or call site; used for known findings."""
        key = str(key)
        self._per_key[key] = self._per_key.get(key, 0) + 1
        # bounded per key, so that many failures of one kind do not hide another kind
        if self._per_key[key] <= 3 and len(self.failures) < 200:
            self.failures.append(
                {"key": str(key), "msg": str(msg), "detail": _jsonable(detail), "case": self.case}
            )

    def expect(self, cond, key, msg="", /, **detail):
        if not bool(cond):
            self.fail(key, msg or key, **detail)
            return False
        return True

    def close(self, key, got, want, /, rtol=1e-6, atol=1e-8, **detail):
        """Numeric agreement; NaN equals NaN, infinities must match."""
        import numpy as np

        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:  # not numeric at all
            self.fail(key, f"not numeric: {got!r} ({e})", **detail)
            return False
        if g.shape != w.shape:
            self.fail(key, f"shape {g.shape} != expected {w.shape}", got=g, want=w, **detail)
            return False
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            self.fail(key, f"got {g.tolist()!r:.300} expected {w.tolist()!r:.300}", **detail)
            return False
        return True

    def raises(self, key, fn, exc=(Exception,), msg="", /, **detail):
        """fn() must raise one of exc."""
        try:
            out = fn()
        except CaseTimeout:
            raise
        except exc:
            return True
        except BaseException as e:  # wrong exception type
            self.fail(key, f"{msg} raised {type(e).__name__}: {e} instead of {exc}", **detail)
            return False
        self.fail(key, f"{msg or key}: no exception, returned {out!r:.200}", **detail)
        return False


def _jsonable(obj, depth=0):
    import numbers

    if depth > 6:
        return repr(obj)[:200]
    if obj is None or isinstance(obj, (bool, str, int)):
        return obj
    if isinstance(obj, float):
        return obj if obj == obj and abs(obj) != float("inf") else repr(obj)
    if isinstance(obj, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(obj.items())[:50]}
    if isinstance(obj, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in list(obj)[:200]]
    if hasattr(obj, "tolist"):
        try:
            return _jsonable(obj.tolist(), depth + 1)
        except Exception:
            return repr(obj)[:300]
    if isinstance(obj, numbers.Number):
        return float(obj)
    return repr(obj)[:300]


# ---------------------------------------------------------------------------
# Environment of a worker
# ---------------------------------------------------------------------------


def prepare_environment():
    """Called in the parent before anything heavy is imported."""
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault(
        "XLA_FLAGS",
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    )
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    os.environ["PYTHONWARNINGS"] = "ignore"
    import warnings

    warnings.simplefilter("ignore")
    install_source_importer()
    for p in (str(SRC), str(REPO / "workflows" / "benchmark")):
        if p not in sys.path:
            sys.path.insert(0, p)


def install_source_importer():
    """Modules under /repo are compiled from source on every run: a cached .pyc whose
    recorded (mtime, size) happens to match an edited file must not hide the edit."""
    from importlib.machinery import FileFinder, SourceFileLoader

    class NoCacheLoader(SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return compile(self.get_data(path), path, "exec", dont_inherit=True)

    base_hook = FileFinder.path_hook((NoCacheLoader, [".py"]))
    root = str(REPO)

    def hook(path):
        if not str(path).startswith(root):
            raise ImportError
        return base_hook(path)

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()


def _alarm(signum, frame):
    raise CaseTimeout("the time limit of a case is over")


_MODULE = None


def _init_worker(module_name):
    global _MODULE
    _MODULE = importlib.import_module(module_name)
    signal.signal(signal.SIGALRM, _alarm)


def _touches_repo(tb):
    return any(str(REPO) in (f.filename or "") for f in traceback.extract_tb(tb))


def _save_memory(limit_mb=1500):
    """Compiled functions pile up in a worker: drop them when it holds much."""
    jax = sys.modules.get("jax")
    if jax is None:
        return
    try:
        with open("/proc/self/statm") as f:
            held = int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20
        if held > limit_mb:
            jax.clear_caches()
            gc.collect()
    except (OSError, ValueError):
        pass


def _run_case(index, case, tier):
    _save_memory()
    rep = Reporter(case, tier)
    t0 = time.time()
    signal.alarm(CASE_TIMEOUT_S * (3 if tier == "thorough" else 1))
    error = None
    try:
        _MODULE.run(case, rep)
    except CaseTimeout as e:
        rep.fail("no-termination", f"{e}", trace=traceback.format_exc()[-1500:])
    except (ImportError, MemoryError, SyntaxError) as e:
        error = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"
    except BaseException as e:
        where = "code under test" if _touches_repo(e.__traceback__) else "result handling"
        rep.fail(
            f"exception:{type(e).__name__}",
            f"unexpected {type(e).__name__} in {where}: {str(e)[:300]}",
            trace=traceback.format_exc()[-3000:],
        )
    finally:
        signal.alarm(0)
    return {
        "index": index,
        "states": rep.states,
        "transitions": rep.transitions,
        "traces": rep.traces,
        "outcomes": rep.outcomes,
        "failures": rep.failures,
        "samples": rep.samples,
        "counters": rep.counters,
        "error": error,
        "wall": time.time() - t0,
    }


# ---------------------------------------------------------------------------
# Known findings
# ---------------------------------------------------------------------------


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <what fails>` of known_findings.txt."""
    out = {}
    if not KNOWN.exists():
        return out
    for line in KNOWN.read_text().splitlines():
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        parts = line[len("finding:"):].split(None, 2)
        fields = dict(p.split("=", 1) for p in parts[:2])
        if fields.get("property") == prop:
            out[fields["key"]] = parts[2] if len(parts) > 2 else ""
    return out


# ---------------------------------------------------------------------------
# Driver
# ---------------------------------------------------------------------------


def main(module_name, argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--profile", action="store_true")
    args = ap.parse_args(argv)
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    prepare_environment()
    module = importlib.import_module(module_name)
    prop = module.PROPERTY
    level = getattr(module, "LEVEL", "model_checking")
    t0 = time.time()

    if args.replay:
        data = json.loads(pathlib.Path(args.replay).read_text())
        case_list = [data["case"]]
    else:
        case_list = list(module.cases(tier))
    if not case_list:
        print(f"ERROR property={prop}: no cases")
        return 2

    results, errors = [], []
    jobs = max(1, min(args.jobs, len(case_list)))
    ctx = multiprocessing.get_context("fork")
    left = dict(enumerate(case_list))
    for workers in (jobs, max(1, jobs // 4), 1):
        # A worker that dies (memory) takes the pool with it: what is left runs again, on fewer workers.
        with ProcessPoolExecutor(
            max_workers=workers, mp_context=ctx, initializer=_init_worker, initargs=(module_name,)
        ) as pool:
            futures = [pool.submit(_run_case, i, c, tier) for i, c in left.items()]
            died = None
            for fut in as_completed(futures):
                try:
                    r = fut.result()
                except BrokenProcessPool as e:
                    died = e
                    continue
                results.append(r)
                left.pop(r["index"])
        if not left:
            break
    if left:
        errors.append(f"worker process died: {died}")
    results.sort(key=lambda r: r["index"])
    if args.profile:
        for r in sorted(results, key=lambda r: -r["wall"])[:15]:
            print(f"{r['wall']:.2f}s case {case_list[r['index']]!r:.150}")

    known = known_findings(prop)
    fresh, seen_known = [], {}
    for r in results:
        if r["error"]:
            errors.append(f"case {case_list[r['index']]!r:.300}: {r['error']}")
        for f in r["failures"]:
            if f["key"] in known:
                seen_known[f["key"]] = f
            else:
                fresh.append(f)

    outcomes, samples, counters = set(), [], {}
    for r in results:
        outcomes |= r["outcomes"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for s in r["samples"]:
            if len(samples) < 6:
                samples.append(_jsonable(s))
    if not samples:
        samples = [_jsonable(c) for c in case_list[:3]]

    wall = time.time() - t0
    coverage = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["traces"] for r in results),
        "cases": len(results),
        "distinct_outcomes": len(outcomes),
        "samples": samples,
        "exhaustive": not errors and len(results) == len(case_list) and not args.replay,
        "bounds": getattr(module, "BOUNDS", {}).get(tier, "")
        if isinstance(getattr(module, "BOUNDS", None), dict)
        else "",
    }
    coverage.update({k: v for k, v in counters.items()})
    if level in ("exploration", "fault_enumeration"):
        coverage["evaluations"] = coverage.pop("transitions")
        coverage["distinct_nontrivial"] = coverage.pop("states")
        coverage["rule"] = getattr(module, "RULE", "every enumerated configuration differs")
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(fresh),
    }
    if not args.replay:
        EVIDENCE.mkdir(exist_ok=True)
        tmp = EVIDENCE / f".{prop}.json.tmp"
        tmp.write_text(json.dumps(evidence, indent=1, sort_keys=True, allow_nan=False) + "\n")
        tmp.replace(EVIDENCE / f"{prop}.json")

    for key, what in known.items():
        if key in seen_known:
            print(f"KNOWN-FINDING: property={prop} {what} [{key}]")

    print(
        f"property={prop} tier={tier} cases={len(results)} states={coverage.get('states', coverage.get('distinct_nontrivial'))} "
        f"transitions={coverage.get('transitions', coverage.get('evaluations'))} "
        f"traces={coverage['traces_validated_against_impl']} "
        f"distinct_outcomes={len(outcomes)} violations={len(fresh)} wall={wall:.1f}s"
    )

    if fresh:
        rdir = EVIDENCE / "replays"
        rdir.mkdir(parents=True, exist_ok=True)
        shown, keys = 0, set()
        for f in fresh:
            if f["key"] in keys and shown >= 1:
                continue
            keys.add(f["key"])
            path = rdir / f"{prop}-{shown}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": prop,
                        "replay": f"/opt/venv/bin/python -m mc {prop} --replay {path}",
                        "case": f["case"],
                        "key": f["key"],
                        "message": f["msg"],
                        "detail": f["detail"],
                    },
                    indent=1,
                )
            )
            print(f"  {f['key']}: {f['msg'][:400]}")
            print(f"VIOLATION property={prop} replay={path}")
            shown += 1
            if shown >= MAX_REPLAYS:
                break
        return 1
    if errors:
        for e in errors[:3]:
            print(f"ERROR property={prop}: {e}")
        return 2
    return 0
