"""P34: calls made at the same time do not disturb each other.

Two calls run in two threads under a controlled scheduler (mc/sched.py): exactly one runs at any time
and the switches happen at prescribed source lines of the package.  Every placement of the switches up
to a bound is executed on the real code; each caller must get exactly what it gets alone, and the object
shared by them must afterwards answer as a new one does.
"""

import itertools
import os
import random

PROPERTY = "P34"
BOUNDS = {
    "quick": "40 subjects (samplers, fine distributions, transforms, matrix builders, views, files, tasks shared by two threads; estimators, one per "
    "thread) x every ordered pair of their operations x every point of the first call at which the second one is let in and runs to its end; "
    "every pair of switch points for calls of few lines; and a bystander reading and changing process-wide state at every point",
    "thorough": "every pair of switch points (first call suspended, second suspended, first resumed) up to 4000 schedules per pair of operations",
}
ASSUMPTIONS = [
    "switches happen between source lines of the package, not inside the libraries it calls; their thread safety is theirs",
    "an estimator object remembers the data of its last fit: each thread uses its own",
]
TRAINED = ("InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator", "MINEEstimator")
HEAVY = (*TRAINED, "fine-student", "fine-mixture", "fine-bent", "BMMSampler")
FORKS = ("RKSGEstimator", "JuliaKSGEstimator", "RBNSLEstimator")  # run child processes
SLICES = {"fine-normal": 2, "fine-student": 4, "fine-mixture": 8, "fine-product": 2, "fine-bent": 8, "BMMSampler": 6}
NAMES = [
    "SplitMultinormal", "SplitStudentT", "SplitStudentT-inf", "Bivariate", "AdditiveUniform", "Discrete", "Poissonization", "Concatenation",
    "Transformed", "Transformed-nested", "fine-normal", "fine-student", "fine-mixture", "fine-product", "fine-bent", "BMMSampler",
    "BMMSampler-known", "transforms", "builders", "utils", "KSG", "KSG-slow", "KDE", "Histogram", "CCA", "RKSGEstimator", "JuliaKSGEstimator",
    "RBNSLEstimator", *TRAINED, "task",
]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in sorted(NAMES, key=lambda n: -(n in HEAVY)):  # the long ones first
        of = SLICES.get(n, 1)
        for part in range(of):
            out.append({"part": "pairs", "subject": n, "slice": part, "of": of, "two": 4000 if deep else 150})
        out.append({"part": "bystander", "subject": n, "thin": not deep})
    return out


def run(case, rep):
    from mc.checks.p11_external import sandbox

    with sandbox():
        {"pairs": run_pairs, "bystander": run_bystander}[case["part"]](case, rep)


def points_of(build, f, variant=0):
    """Indices of the points of a call; for calls with loops, the first and last visit of every line."""
    from mc import sched

    f(build(), variant)  # imports, caches of compiled functions
    sched.install()
    o = build()
    _, pts = sched.trace_points(lambda: f(o, variant))
    if len(pts) <= 120:
        return list(range(1, len(pts) + 1))
    first, last = {}, {}
    for i, p in enumerate(pts, 1):
        first.setdefault(p, i)
        last[p] = i
    return sorted({*first.values(), *last.values()})


def run_pairs(case, rep):
    from mc import calls, sched
    from mc.checks.p33_fixed import snapshot

    name = case["subject"]
    build, ops, kind = calls.subjects()[name]
    heavy, deep = name in HEAVY, case["two"] > 1000
    alone, where = {}, {}
    for op, f in ops.items():
        for v in (0, 1):
            alone[op, v] = snapshot(f(build(), v))
        where[op] = points_of(build, f)
        if not deep and (heavy or name in FORKS or name.startswith(("fine", "BMM"))):
            where[op] = where[op][:: 1 + len(where[op]) // 9]
    names = list(ops)
    pairs = list(itertools.product(ops, repeat=2))
    if name in TRAINED:
        pairs = pairs[:2] if deep else [("estimate", "result")]
    elif not deep and (heavy or name in FORKS or name.startswith(("fine", "BMM"))):  # every operation against itself and its successor
        pairs = [(a, b) for i, a in enumerate(names) for b in (a, names[(i + 1) % len(names)])]
    for a, b in pairs[case["slice"] :: case["of"]]:
        plans = [[(0, k), (1, 10**9)] for k in where[a]]
        if not heavy:
            two = [[(0, k), (1, j), (0, 10**9)] for k in where[a] for j in where[b]]
            if len(two) <= (case["two"] if not name.startswith(("fine", "BMM")) and name not in FORKS or deep else 20):
                plans += two
            elif deep:
                plans += two[:: -(-len(two) // case["two"])]
                rep.count("two_switch_thinned")
        for plan in plans:
            one = build()
            other = one if kind == "shared" else build()
            calls.spoilt_inputs()
            (ra, rb), ok = sched.interleave([lambda: ops[a](one, 0), lambda: ops[b](other, 1)], plan)
            rep.expect(not calls.spoilt_inputs(), f"inputs:{name}:{a}:{b}", f"{a} and {b} of {name} changed the arrays they were given", schedule=plan)
            rep.state()
            rep.trans(sum(1 for _ in plan))
            if not ok:
                rep.count("uncontrolled")
            for who, r, op, v in (("first", ra, a, 0), ("second", rb, b, 1)):
                if r[0] != "done":
                    rep.fail(f"raised:{name}:{op}", f"{op} of {name} raised {r[1]!r:.200} because {b if who == 'first' else a} ran at the same time",
                             pair=(a, b), schedule=plan)
                else:
                    rep.expect(snapshot(r[1]) == alone[op, v], f"disturbed:{name}:{op}",
                               f"{op} of {name} gives something else when {b if who == 'first' else a} runs at the same time", pair=(a, b), schedule=plan)
            if not heavy:
                for o, op, v in ((one, a, 0), (other, b, 1)):
                    rep.expect(snapshot(ops[op](o, v)) == alone[op, v], f"damaged:{name}:{op}",
                               f"after {a} and {b} at the same time, {op} of {name} gives something else", pair=(a, b), schedule=plan)
            rep.outcome((name, a, b, tuple(plan[0])))
        rep.trace()


_BUILT = []


def run_bystander(case, rep):
    """The other thread is not the package's: it looks at, and uses, what belongs to the process."""
    import jax
    import numpy as np
    from mc import calls, sched
    from mc.checks.p33_fixed import snapshot

    name = case["subject"]
    build, ops, _ = calls.subjects()[name]
    for f in ops.values():
        f(build(), 0)  # libraries are loaded, and leave their marks in the environment, on first use
    cwd, env = os.getcwd(), dict(os.environ)
    heavy = name in HEAVY + FORKS

    def settings():
        return jax.config.jax_enable_x64, jax.config.jax_debug_nans, jax.config.jax_disable_jit, str(jax.config.jax_default_matmul_precision), os.umask(os.umask(0o22))

    usual = settings()

    def bystander():
        return (os.getcwd() == cwd, dict(os.environ) == env, np.random.random(), random.random(), settings() == usual, calls.spoilt_inputs(keep=True))

    for op, f in ops.items():
        want = snapshot(f(build(), 0))
        pts = points_of(build, f)
        if case["thin"] and (heavy or len(pts) > 60):
            pts = pts[:: 1 + len(pts) // (8 if heavy else 20)]
        for k in pts:
            o = build()
            np.random.seed(1234)
            random.seed(1234)
            expected = (True, True, np.random.random(), random.random(), True, 0)
            calls.spoilt_inputs()
            np.random.seed(1234)
            random.seed(1234)
            (ra, rb), ok = sched.interleave([lambda: f(o, 0), bystander], [(0, k), (1, 10**9)])
            rep.state()
            rep.trans(2)
            if not ok:
                rep.count("uncontrolled")
            rep.expect(ra[0] == "done" and snapshot(ra[1]) == want, f"bystander:{name}:{op}",
                       f"{op} of {name} depends on generators of the process that others use too: {str(ra[1])[:200]}", point=k)
            rep.expect(rb == ("done", expected), f"process:{name}:{op}",
                       f"while {op} of {name} runs, another thread finds working directory/environment/generators/settings/its own arrays changed: {rb[1]}", point=k)
        rep.trace()
    rep.outcome((name, "bystander"))
