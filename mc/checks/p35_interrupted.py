"""P35: a call that is cut short leaves no trace.

A KeyboardInterrupt is raised at every source line the package executes during a call (mc/sched.py), on
the real code; afterwards the caller's data, the process (working directory, environment, generators,
temporary files, open files) and everything the object answers must be as if the call had never begun.
"""

import gc
import os
import random
import signal
import threading

PROPERTY = "P35"
BOUNDS = {
    "quick": "40 subjects (samplers, fine distributions, transforms, builders, views, files, tasks, estimators incl. external and neural) x every "
    "operation, on a new and on a used object, x an interrupt at every source line reached (loops: first and last visit), then every operation again; "
    "neural estimators and constructors of fine distributions: every 4th such line",
    "thorough": "every such line of the neural estimators, and every pair of interrupts (two calls of the operation cut short one after the other) "
    "up to 1500 per operation",
}
ASSUMPTIONS = [
    "interrupts arrive between source lines of the package; not inside cleanup code (finally, handlers, leaving a with block) nor between acquiring "
    "something and entering the try that protects it",
    "the file a call was writing when it was cut short may be incomplete",
]


def cases(tier):
    from mc.checks.p34_simultaneous import HEAVY, NAMES, TRAINED

    deep = tier == "thorough"
    out = [{"subject": "GMM", "op": op, "used": used, "two": 1500 if deep else 0} for op in ("fit", "posterior", "estimate") for used in (True, False)]
    for n in sorted(NAMES, key=lambda n: -(n in HEAVY)):
        of = 4 if n in TRAINED else 3 if n in HEAVY else 1
        for part in range(of):
            out.append({"subject": n, "slice": part, "of": of, "two": 1500 if deep else 0})
    return out


def process_state():
    """What a call must not leave behind in the process."""
    import jax
    import numpy as np

    gc.collect()
    tmp = os.environ.get("TMPDIR", "/tmp")
    return {
        "working directory": os.getcwd(),
        "environment": {k: v for k, v in os.environ.items()},
        "numpy generator": tuple(str(v) for v in np.random.get_state()),
        "numpy error handling": str(np.geterr()),
        "random": hash(random.getstate()),
        "temporary files": sorted(os.listdir(tmp)),
        "open files": len(os.listdir("/proc/self/fd")),
        "threads": threading.active_count(),
        "interrupt handler": str(signal.getsignal(signal.SIGINT)),
        "recursion limit": __import__("sys").getrecursionlimit(),
        "jax": (jax.config.jax_enable_x64, jax.config.jax_debug_nans, jax.config.jax_disable_jit, jax.config.jax_platforms),
    }


def run(case, rep):
    from mc.checks.p11_external import sandbox

    with sandbox():
        (gmm if case["subject"] == "GMM" else explore)(case, rep)


def gmm(case, rep):
    """The Bayesian mixture estimator over a scripted chain: it remembers the posterior of its last fit, and the dimensions that belong to it."""
    import jax.numpy as jnp
    import numpy as np
    from mc import sched
    from mc.checks.p27_gmm import patched

    class Kernel:
        def __init__(self, model, *a, **kw):
            pass

    class Chain:
        def __init__(self, *a, num_samples, **kw):
            self.n = num_samples

        def run(self, rng_key, *a, data=None, **kw):
            data = np.asarray(a[0] if data is None else data)
            self.mean, self.cov = data.mean(0), np.cov(data.T) + 0.5 * np.eye(data.shape[1])

        def get_samples(self, *a, **kw):
            s = 1 + np.arange(self.n)
            return {"pi": jnp.ones((self.n, 1)), "mu": jnp.asarray(s[:, None, None] * self.mean), "cov": jnp.asarray(s[:, None, None, None] * self.cov)}

    wave = lambda dx, dy: (np.sin(np.arange(9 * dx)).reshape(9, dx), np.cos(2.0 + np.arange(9 * dy)).reshape(9, dy))  # noqa: E731
    old, new = wave(2, 1), wave(1, 2)
    point = jnp.array([[0.5, -1.0, 2.0]])
    op = {"fit": lambda e: e.run_mcmc(*new), "posterior": lambda e: e.get_posterior_mi(*new), "estimate": lambda e: e.estimate(*new)}[case["op"]]

    def memory(e):
        try:
            d = e.get_bmm_distribution(1)
        except Exception as ex:
            return type(ex).__name__
        return d.dim_x, d.dim_y, [np.asarray(p.log_prob(v)).tobytes() for p, v in (
            (d.dist_joint, point), (d.dist_x, point[:, : d.dim_x]), (d.dist_y, point[:, d.dim_x :]))]

    with patched(Kernel, Chain) as mod:
        def prepared():
            e = mod.GMMEstimator(n_components=1, mcmc_num_warmup=1, mcmc_num_samples=2, mi_estimate_num_samples=5, standardize=False)
            if case["used"]:
                e.run_mcmc(*old)
            return e

        done = prepared()
        op(done)
        wanted = memory(prepared()), memory(done)
        rep.expect(wanted[0] != wanted[1], "harness:gmm")
        sched.install()
        e = prepared()
        _, pts = sched.trace_points(lambda: op(e))
        places = select(pts)
        if not case["two"] and case["op"] != "fit":
            places = [k for k in places if pts[k][0].endswith("gmm.py")]
        plans = [(k,) for k in places] + ([(j, k) for j in places for k in places] if case["two"] and case["op"] == "fit" else [])
        for plan in plans:
            e = prepared()
            before = process_state()
            where = [f"{os.path.basename(pts[k][0])}:{pts[k][1]}" for k in plan]
            d = dict(at=where, used=case["used"])
            for k in plan:
                how, value = sched.interrupt(lambda: op(e), k)
                rep.trans()
                rep.expect(how != "raised", "turned:GMM", f"the interrupt came out as {value!r:.200}", **d)
            after = process_state()
            for what, was in before.items():
                rep.expect(after[what] == was, f"left:GMM:{what}", f"an interrupted fit left the {what} changed: {after[what]!r:.200}", **d)
            rep.expect(memory(e) in wanted, "mixed:GMM", f"{case['op']}, interrupted, left an estimator that remembers neither its last posterior nor the new one", **d)
            try:
                e.run_mcmc(*new)
                rep.expect(memory(e) == wanted[1], "spoilt:GMM", f"after an interrupted {case['op']}, the next one leaves something else behind", **d)
            except Exception as ex:
                rep.fail("broken:GMM", f"after an interrupted {case['op']}, the next one raises {ex!r:.200}", **d)
            rep.state()
            rep.outcome((case["op"], case["used"], tuple(where)))
    rep.trace()


def explore(case, rep):
    from mc import calls, sched
    from mc.checks.p33_fixed import snapshot
    from mc.checks.p34_simultaneous import FORKS, HEAVY, TRAINED

    name = case["subject"]
    deep = bool(case["two"])
    build, ops, kind = calls.subjects()[name]
    alone = {(op, v): snapshot(f(build(), v)) for op, f in ops.items() for v in (0, 1)}
    sched.install()
    slow = name in HEAVY or name.startswith(("fine", "BMM"))
    index = 0
    for op, f in ops.items():
        if name in TRAINED and not deep and op == "estimate":
            continue  # `result` makes the same calls
        for used in (False, True):
            if used and (slow and not deep):
                continue

            def prepared():
                o = build()
                if used:
                    f(o, 1)
                return o

            f(prepared(), 0)
            sched.install()
            o = prepared()
            _, pts = sched.trace_points(lambda: f(o, 0))
            gc.collect()
            gc.freeze()  # what exists by now need not be looked at in every collection
            places = select(pts)
            if not deep:
                if name in TRAINED or (slow and op == "new"):
                    places = places[::4]
                elif name in FORKS and (used or op != "result"):
                    places = places[::3]
            plans = [(k,) for k in places]
            if deep and not slow:
                two = [(j, k) for j in places for k in places]
                plans += two[:: -(-len(two) // case["two"])]
                if len(two) > case["two"]:
                    rep.count("two_interrupts_thinned")
            for plan in plans:
                index += 1
                if index % case["of"] != case["slice"]:
                    continue
                examine(rep, name, op, ops, f, prepared, plan, alone, snapshot, used, slow and not deep, pts)
            rep.trace()


def recall(name, o):
    """What the object says about its last completed fit."""
    from mc.checks.p33_fixed import snapshot

    try:
        if name.startswith("KSG"):
            return snapshot(o.get_predictions())
        if hasattr(o, "trained_critic"):
            import jax
            import numpy as np

            return o.trained_critic is None or [np.asarray(v).tobytes() for v in jax.tree_util.tree_leaves(o.trained_critic)]
    except Exception as e:
        return type(e).__name__
    return None


def select(pts):
    from mc import sched

    first, last = {}, {}
    for i, p in enumerate(pts):
        if p[1] in sched.cleanup_lines(p[0]):
            continue
        first.setdefault(p, i)
        last[p] = i
    return sorted({*first.values(), *last.values()})


def examine(rep, name, op, ops, f, prepared, plan, alone, snapshot, used, brief, pts):
    from mc import calls, sched

    o = prepared()
    fits = [recall(name, o)]
    before = process_state()
    where = [f"{os.path.basename(pts[k][0])}:{pts[k][1]}" for k in plan]
    d = dict(at=where, used=used)
    calls.spoilt_inputs()
    for k in plan:
        how, value = sched.interrupt(lambda: f(o, 0), k)
        rep.trans()
        rep.expect(not calls.spoilt_inputs(), f"inputs:{name}:{op}", f"{op} of {name}, interrupted, left the arrays it was given changed", **d)
        if how == "done":
            rep.expect(snapshot(value) == alone[op, 0], f"swallowed:{name}:{op}",
                       f"{op} of {name} went on after an interrupt and returned something else", **d)
        elif how == "raised":
            rep.fail(f"turned:{name}:{op}", f"the interrupt of {op} of {name} came out as {value!r:.200}", **d)
        value = None
    after = process_state()
    for what, was in before.items():
        if what == "temporary files" and name == "utils":
            continue  # the scratch folder of the menu itself
        rep.expect(after[what] == was, f"left:{name}:{op}:{what}", f"{op} of {name}, interrupted, left the {what} changed: {after[what]!r:.200}", **d)
    rep.state()
    now = recall(name, o)
    if now != fits[0]:
        new = prepared()
        f(new, 0)
        rep.expect(now == recall(name, new), f"mixed:{name}:{op}", f"{op} of {name}, interrupted, left an object that remembers neither its last fit "
                   "nor the new one", **d)
    todo = [(op, 0)] if brief else [(op, 0), *((other, v) for other in ops for v in (1, 0))]
    for other, v in todo:
        rep.trans()
        try:
            got = snapshot(ops[other](o, v))
        except Exception as e:
            rep.fail(f"broken:{name}:{other}", f"after an interrupted {op}, {other} of {name} raises {e!r:.200}", **d)
            continue
        rep.expect(got == alone[other, v], f"spoilt:{name}:{other}", f"after an interrupted {op}, {other} of {name} gives something else", **d)
    rep.outcome((name, op, tuple(where), used))
