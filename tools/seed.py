"""Plants the bugs described in a Python file and checks that each counts.

    /opt/venv/bin/python tools/seed.py BUGS.py [--only ID ...] [--no-tests] [--no-check]

BUGS.py defines BUGS, a list of dictionaries with keys id, property, edits (a list of (file, old, new)), demo, needs,
what_it_breaks.  Each bug is applied to a scratch copy of /repo; it is kept in seeded/<id> if its demonstration passes on the
unchanged tree, fails with the change, and all the stable tests pass with the change.  The check of its property is then run
against the scratch copy and the result is reported."""

import argparse
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python"
SCRATCH = pathlib.Path("/tmp/seed")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
           PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def run(command, cwd, extra=None, timeout=900):
    env = dict(ENV, **(extra or {}))
    try:
        out = subprocess.run(command, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return out.returncode, out.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def stable_failures(copy):
    junit, res = copy.parent / (copy.name + ".xml"), copy.parent / (copy.name + ".json")
    run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-n", "8", "--timeout=300",
         "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--basetemp={copy.parent / (copy.name + '.tmp')}",
         f"--junitxml={junit}", "tests"], copy, {"PYTHONPATH": str(copy / "src"), "PATH": "/opt/venv/bin:" + os.environ["PATH"]})
    if not junit.exists():
        return ["no report"]
    subprocess.run(["python3", "/opt/vp/results.py", str(res), f"junit:{junit}"], check=True)
    passed = set(json.loads(res.read_text())["passed"])
    return sorted(set(json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())["stable"]) - passed)


def plant(bug, args):
    copy = SCRATCH / bug["id"]
    shutil.rmtree(copy, ignore_errors=True)
    SCRATCH.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", str(REPO), str(copy)], check=True)
    home = SCRATCH / (bug["id"] + ".bug")
    shutil.rmtree(home, ignore_errors=True)
    home.mkdir()
    for name, old, new in bug["edits"]:
        text = (copy / name).read_text()
        if text.count(old) != 1:
            return {"error": f"{text.count(old)} matches in {name}: {old[:60]!r}"}
        (copy / name).write_text(text.replace(old, new))
    diff = subprocess.run(["git", "-C", str(copy), "diff"], stdout=subprocess.PIPE, check=True).stdout
    (home / "patch.diff").write_bytes(diff)
    (home / "demo.py").write_text(bug["demo"].lstrip("\n"))
    (home / "demo.sh").write_text('#!/bin/bash\nexport JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONWARNINGS=ignore\n'
                                  'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (home / "meta.json").write_text(json.dumps({k: bug[k] for k in ("property", "needs", "what_it_breaks")}, indent=2) + "\n")
    report = {}
    code, out = run(["bash", str(home / "demo.sh")], REPO)
    report["demo_clean"] = code
    if code:
        report["out_clean"] = out[-1500:]
    code, out = run(["bash", str(home / "demo.sh")], copy, {"PYTHONPATH": str(copy / "src")})
    report["demo_patched"] = code
    report["out_patched"] = out[-300:]
    if report["demo_clean"] != 0 or report["demo_patched"] == 0:
        return report
    if not args.no_tests:
        report["broken_tests"] = stable_failures(copy)[:10]
        if not report["broken_tests"]:
            target = VERIF / "seeded" / bug["id"]
            shutil.rmtree(target, ignore_errors=True)
            shutil.copytree(home, target)
    if not args.no_check and not report.get("broken_tests"):
        start = time.time()
        code, out = run([PY, "-m", "mc", bug["property"], "--tier", "quick"], VERIF, {"BMI_REPO": str(copy)})
        lines = [line for line in out.splitlines() if line.startswith("VIOLATION")]
        report["check"] = code
        report["violations"] = lines[:3] or out[-400:]
        report["check_seconds"] = round(time.time() - start)
    return report


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("bugs")
    parser.add_argument("--only", nargs="*")
    parser.add_argument("--no-tests", action="store_true")
    parser.add_argument("--no-check", action="store_true")
    args = parser.parse_args()
    for bug in runpy.run_path(args.bugs)["BUGS"]:
        if args.only and bug["id"] not in args.only:
            continue
        report = plant(bug, args)
        print(bug["id"], bug["property"], json.dumps(report, indent=1), flush=True)
        for path in SCRATCH.glob(bug["id"] + "*"):
            shutil.rmtree(path) if path.is_dir() else path.unlink()


if __name__ == "__main__":
    sys.exit(main())
