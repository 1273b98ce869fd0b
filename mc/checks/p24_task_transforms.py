"""P24: a transformed task is the image of its base task: id, sample, dimensions, ground truth, parameters."""

import itertools

PROPERTY = "P24"
NAMES = ["asinh", "normal_cdf", "half_cube", "wiggly", "spiral", "rotate", "rescale", "uniformise", "gaussianise", "swissroll", "power0.5", "power3.0"]
BASES = ["1v1-normal-0.75", "1v1-additive-0.1", "student-dense-2-3-3-0.5", "multinormal-sparse-3-4-2-2.0", "multinormal-lvm-4-3-2"]
BOUNDS = {
    "quick": "5 base tasks x every chain of <=2 of 12 transforms (defined where the dimensions allow), each step compared with the reference "
    "image of its own base on 2 seeds x 2 sizes; options (names, ids, speeds, number of quantiles) at depth 1; every order of building siblings",
    "thorough": "chains of <=3, 3 seeds",
}
ASSUMPTIONS = ["maps that act in single precision are compared at 1e-3 relative to the size of the image"]


def cases(tier):
    out = []
    for b in range(len(BASES)):
        for i in range(len(NAMES)):
            out.append({"part": "chain", "base": b, "first": i, "depth": 3 if tier == "thorough" else 2})
        out.append({"part": "options", "base": b})
        out.append({"part": "siblings", "base": b})
    return out


def base_task(i):
    from bmi.benchmark.tasks import additive_noise, bivariate_normal, multinormal, student

    return [
        lambda: bivariate_normal.task_bivariate_normal(0.75),
        lambda: additive_noise.task_additive_noise(0.1),
        lambda: student.task_student_dense(dim_x=2, dim_y=3, df=3),
        lambda: multinormal.task_multinormal_sparse(3, 4, n_interacting=2),
        lambda: multinormal.task_multinormal_lvm(4, 3, 2, alpha=0.5, lambd=1.0, beta=0.0),
    ][i]()


def transform(name, task, **kw):
    from bmi.benchmark.tasks import asinh, embeddings, half_cube, normal_cdf, power, rotate, scaling, spiral, wiggly

    if name.startswith("power"):
        return power.transform_power_task(task, alpha=float(name[5:]), **kw)
    if name == "swissroll":
        return embeddings.transform_swissroll_task(task, **{"task_name": "Roll", **kw})
    return {
        "asinh": asinh.transform_asinh_task, "normal_cdf": normal_cdf.transform_normal_cdf_task, "half_cube": half_cube.transform_half_cube_task,
        "wiggly": wiggly.transform_wiggly_task, "spiral": spiral.transform_spiral_task, "rotate": rotate.transform_rotate_task,
        "rescale": scaling.transform_rescale, "uniformise": scaling.transform_uniformise, "gaussianise": scaling.transform_gaussianise,
    }[name](task, **kw)


def allowed(name, dx, dy):
    return {"swissroll": dx == 1, "rotate": dx > 2 and dy > 2, "spiral": dx > 1 and dy > 2}.get(name, True)


def prefix(name):
    if name.startswith("power"):
        return f"power_{float(name[5:]):.5f}-"
    return {"swissroll": "swissroll_x-"}.get(name, name + "-")


def own_params(name):
    if name.startswith("power"):
        return {"alpha": float(name[5:])}
    return {"spiral": {"speed": 1.0, "normalize_speed": True}, "uniformise": {"n_quantiles": 100}, "gaussianise": {"n_quantiles": 100}}.get(name, {})


def sizes(tier, last):
    return (2, 150) if last in ("uniformise", "gaussianise") else (2, 23)


def compare(rep, task, base, base_info, name, seeds, what, image=None, id_=None, own=None):
    """base_info = (id, name, params, dims, mi) of the base, taken before anything was built from it."""
    import numpy as np
    from mc.checks.p23_tasks import as_float, same_params
    from mc.tasks_ref import apply

    b_id, b_name, b_params, (dx, dy), mi = base_info
    rep.state()
    d = dict(chain=what)
    dx += name == "swissroll"
    meta = task.metadata
    rep.expect(meta.task_id == task.id == (id_ or prefix(name) + b_id), "id", f"{meta.task_id}", **d)
    rep.expect((meta.dim_x, meta.dim_y) == (dx, dy) == (task.dim_x, task.dim_y), "dims", f"{meta.dim_x}, {meta.dim_y}", **d)
    rep.expect(abs(meta.mi_true - mi) <= 1e-9 + 1e-6 * mi, "mi", f"{meta.mi_true} instead of {mi}", **d)
    rep.expect(same_params(meta.task_params, {**b_params, **(own_params(name) if own is None else own)}), "params", f"{meta.task_params}", **d)
    rep.expect(meta.task_name == task.name, "name", task.name, **d)
    for seed in seeds:
        for n in sizes(rep.tier, name):
            rep.trans()
            bx, by = (as_float(v) for v in base.sample(n, seed))
            x, y = (as_float(v) for v in task.sample(n, seed))
            if not rep.expect(x.shape == (n, dx) and y.shape == (n, dy), "shape", f"{x.shape}, {y.shape}", **d):
                continue
            with np.errstate(all="ignore"):
                wx, wy = (image or (lambda a, b: apply(name, a, b)))(bx, by)
            # single-precision matrix exponentials are only accurate for small angles
            for got, want, src, side in ((x, wx, bx, "x"), (y, wy, by, "y")):
                if not (np.isfinite(want).all() and (np.abs(want) < 1e30).all()):
                    continue
                unit = np.maximum(1.0, np.abs(want).max(1, keepdims=True))
                if name.startswith("spiral"):
                    keep = (src**2).sum(1) < 12
                    got, want, unit = got[keep], want[keep], unit[keep]
                elif name == "swissroll" and side == "x":
                    keep = np.abs(src).max(1) < 20
                    got, want, unit = got[keep], want[keep], unit[keep]
                elif name in ("rescale", "uniformise", "gaussianise"):
                    # almost constant columns, and values that almost tie with an extreme one, are decided by rounding
                    lo, hi = src.min(0), src.max(0)
                    close = lambda gap: gap < 1e-5 * np.maximum(1, np.abs(src))
                    near = lambda gap: close(gap) & (close(gap).sum(0) > 1)[None, :]
                    bad = (near(src - lo) | near(hi - src)) if name != "rescale" else np.zeros(src.shape, bool)
                    bad |= (hi - lo < 1e-4 * np.maximum(1, np.abs(src).max(0)))[None, :]
                    got, want = np.where(bad, 0, got), np.where(bad, 0, want)
                rep.close(f"sample:{side}", got / unit, want / unit, rtol=1e-3, atol=1e-3, n=n, seed=seed, **d)
            rep.outcome((what, n, seed, round(float(x[0, 0]), 4)))
    rep.trace()


def info(task):
    return task.id, task.name, dict(task.params), (task.dim_x, task.dim_y), task.mutual_information


def part_chain(case, rep):
    seeds = (0, 5, 11) if rep.tier == "thorough" else (0, 5)
    root = base_task(case["base"])
    root_info = info(root)

    def walk(task, chain):
        before = info(task)
        for name in [NAMES[case["first"]]] if not chain else NAMES:
            if not allowed(name, task.dim_x, task.dim_y):
                rep.count("not_defined")
                rep.trans()
                if name in ("rotate", "spiral", "swissroll"):
                    rep.raises("refused", lambda: transform(name, task), msg=f"{name} of {chain}")
                continue
            child = transform(name, task)
            compare(rep, child, task, before, name, seeds if len(chain) < 2 else seeds[:1], (BASES[case["base"]], *chain, name))
            if name != "swissroll":
                rep.expect(child.name != task.name and child.name.endswith(task.name), "name:default", child.name, chain=chain)
            if len(chain) + 1 < case["depth"]:
                walk(child, (*chain, name))
        # building from a task leaves it as it was
        after = info(task)
        rep.expect(after[:2] == before[:2] and after[3:] == before[3:] and set(after[2]) == set(before[2]), "base-changed", f"{after} != {before}")

    walk(root, ())
    rep.expect(set(info(root)[2]) == set(root_info[2]), "base-changed", str(chain_params(root)))


def chain_params(task):
    return sorted(task.params)


def part_options(case, rep):
    from mc.tasks_ref import quantile, rotate_np, spiral_np

    t = base_task(case["base"])
    b = info(t)
    label = BASES[case["base"]]
    dx, dy = b[3]
    for name in NAMES:
        if allowed(name, dx, dy):
            own = transform(name, t, task_name="My own name")
            rep.trans()
            rep.expect(own.name == "My own name" and own.id == prefix(name) + b[0], "name:given", f"{own.name}, {own.id}")
    for kw in ({"task_id": "another"}, {"task_id": "another", "task_name": "Name"}):
        r = transform("rescale", t, **kw)
        compare(rep, r, t, b, "rescale", (1,), (label, "rescale", kw), id_="another")
        rep.expect(r.name == kw.get("task_name", r.name), "name:given", r.name)
    for kind, dist in (("uniformise", "uniform"), ("gaussianise", "normal")):
        for q in (3, 10, 1000):
            for seed in (0, 4):
                c = transform(kind, t, n_quantiles=q, random_seed=seed)
                compare(rep, c, t, b, kind, (1,), (label, kind, q, seed), own={"n_quantiles": q},
                        image=lambda x, y: (quantile(x, q, dist), quantile(y, q, dist)))
    if allowed("spiral", dx, dy):
        for speed in (0.0, 0.5, 1.0, -0.75):
            for norm in (True, False):
                c = transform("spiral", t, speed=speed, normalize_speed=norm)
                compare(rep, c, t, b, "spiral", (1, 2), (label, "spiral", speed, norm), own={"speed": speed, "normalize_speed": norm},
                        image=lambda x, y: (spiral_np(x, 0, 1, speed / (dx if norm else 1)), spiral_np(y, 1, 2, speed / (dy if norm else 1))))
    for alpha in (1, 0.25, 2.0):
        c = transform(f"power{alpha}", t)
        compare(rep, c, t, b, f"power{alpha}", (1,), (label, "power", alpha))


def part_siblings(case, rep):
    """Two tasks built from one base, in either order, do not influence each other."""
    import numpy as np

    pool = ["spiral", "power0.5", "uniformise", "rescale", "asinh"]
    root = base_task(case["base"])
    dx, dy = root.dim_x, root.dim_y
    pool = [n for n in pool if allowed(n, dx, dy)]
    alone = {}
    for n in pool:
        fresh = transform(n, base_task(case["base"]))
        alone[n] = (chain_params(fresh), [np.asarray(v) for v in fresh.sample(5, 2)])
    for a, b in itertools.permutations(pool, 2):
        root = base_task(case["base"])
        before = chain_params(root)
        ta, tb = transform(a, root), transform(b, root)
        for n, t in ((a, ta), (b, tb), (a, ta)):
            rep.state()
            rep.trans()
            rep.expect(chain_params(t) == alone[n][0], "siblings:params", f"{n} of {(a, b)}")
            got = t.sample(5, 2)
            rep.expect(all(np.array_equal(np.asarray(g), w) for g, w in zip(got, alone[n][1])), "siblings:sample", f"{n} of {(a, b)}")
        rep.expect(chain_params(root) == before, "siblings:base", f"{(a, b)}")
        rep.outcome((a, b))
    rep.trace()


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
