#!/usr/bin/python3 -SE
"""Stand-in for `Rscript external/rmi.R` and `julia external/mi_estimator.jl`.

It re-implements the documented command line of the two scripts (including their defaults and
validation) and prints a number that depends on the method, every hyperparameter and every entry
of the file at its position, so that any slip in the command or in the file shows in the value.
STUB_LOG: file to which the call is appended.  STUB_MODE: how to answer.
"""
import json
import os
import sys


def fail(msg, code=1):
    sys.stderr.write("Error: " + msg + "\n")
    sys.exit(code)


def main():
    tool = os.path.basename(sys.argv[0])
    args = sys.argv[1:]
    log = os.environ.get("STUB_LOG")
    mode = os.environ.get("STUB_MODE", "ok")
    script, pos, opt = args[0], [], {}
    i = 1
    while i < len(args):
        if args[i].startswith("--"):
            opt[args[i][2:]] = args[i + 1]
            i += 2
        else:
            pos.append(args[i])
            i += 1
    if log:
        with open(log, "a") as f:
            f.write(json.dumps({"tool": tool, "script": script, "pos": pos, "opt": opt,
                                "exists": os.path.isfile(pos[0]) if pos else False,
                                "script_exists": os.path.isfile(script)}) + "\n")
    if mode == "exit1":
        print("partial output")
        fail("estimator crashed")
    if mode == "exit3-number":
        print("0.25")
        sys.exit(3)
    if mode.startswith("number-"):
        how, code = mode.split(":")
        print("0.25", flush=True)
        if how == "number-exit":
            sys.exit(int(code))
        os.kill(os.getpid(), int(code))
    if mode == "signal":
        os.kill(os.getpid(), 9)
    if mode.startswith("print:"):
        sys.stdout.write(mode[6:].encode().decode("unicode_escape"))
        return
    if mode == "warn":
        sys.stderr.write("Warning: 17\n")
        print("0.5")
        return
    if len(pos) != 3:
        fail("expected 3 positional arguments, got %r" % (pos,))
    path, dx, dy = pos[0], int(pos[1]), int(pos[2])
    known = {"Rscript": ("rmi.R", {"method": "KSG1", "neighbors": "10", "truncation": "30", "proc": "0"}),
             "julia": ("mi_estimator.jl", {"estimator": "KSG1", "neighbors": "10", "bins": "10", "bandwidth": "1.0"})}
    name, defaults = known[tool]
    if os.path.basename(script) != name:
        fail("wrong script " + script)
    if set(opt) - set(defaults):
        fail("unknown options %r" % sorted(set(opt) - set(defaults)))
    cfg = dict(defaults, **opt)
    ints = [k for k in ("neighbors", "truncation", "proc", "bins") if k in cfg]
    vals = {k: (int(cfg[k]) if k in ints else cfg[k]) for k in cfg}
    if tool == "Rscript" and (vals["proc"] < 0 or (vals["proc"] > 2 and vals["proc"] != 10)):
        fail("--proc must be 0, 1, 2 or 10")
    if min(dx, dy) < 1 or vals["neighbors"] < 1:
        fail("dimensions and neighbors must be at least 1")
    method = vals["method"] if tool == "Rscript" else vals["estimator"]
    allowed = ["KSG1", "KSG2", "LNN", "BNSL"] if tool == "Rscript" else ["KSG1", "KSG2", "Histogram", "Transfer", "Kernel"]
    if method not in allowed:
        fail("Method not recognized " + method)
    with open(path) as f:
        rows = [line.rstrip("\n").split(",") for line in f]
    data = [[float(v) for v in r] for r in rows[1:]]
    if any(len(r) != dx + dy for r in data):
        fail("wrong number of columns")
    print(repr(value(tool, method, vals, data, dx, dy)))


def value(tool, method, vals, data, dx, dy):
    base = {"Rscript": 1000.0, "julia": 5000.0}[tool]
    base += {"KSG1": 1, "KSG2": 2, "LNN": 3, "BNSL": 4, "Histogram": 5, "Transfer": 6, "Kernel": 7}[method]
    use = {"KSG1": ["neighbors"], "KSG2": ["neighbors"], "LNN": ["neighbors", "truncation"], "BNSL": ["proc"],
           "Histogram": ["bins"], "Transfer": ["bins"], "Kernel": ["bandwidth"]}[method]
    for k in use:
        base = base * 1.25 + 3.0 * float(vals[k])
    total = 0.0
    for i, r in enumerate(data):
        for c in range(dx):
            total += (i + 1) * (2 * c + 1) * r[c]
        for c in range(dy):
            total -= (3 * i + 2) * (5 * c + 4) * r[dx + c]
    return base + total + 0.01 * dx + 0.001 * dy


if __name__ == "__main__":
    main()
