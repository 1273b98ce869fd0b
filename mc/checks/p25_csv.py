"""P25: a sample written to CSV and read back is the same sample."""

import itertools

PROPERTY = "P25"
VALUES = (0.0, -0.0, 0.1, -1 / 3, 1e16 + 2, 123456789.123456789, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1e-5, 0.1 + 0.2, 1e22, 9007199254740993.0)
BOUNDS = {
    "quick": "every pair of dimensions 1..12 x 1..12 with 0..3 points, 6 larger ones up to 1003 + 999; every table of 1x(1+1), 2x(1+1) and 1x(2+1) over 13 hard-to-print floats; 10 to 70000 rows; 6 "
    "element types x 4 layouts; every sequence of <=3 saves of 4 samples to 2 paths, reading both after each; malformed shapes; every "
    "kind of task saved through the task object",
    "thorough": "dimensions up to 30, 3-value tables, sequences of <=4",
}
ASSUMPTIONS = ["pandas writes the shortest decimal that identifies a float of its own precision"]


def cases(tier):
    top = 30 if tier == "thorough" else 12
    out = [{"part": "dims", "dx": d, "top": top} for d in range(1, top + 1)]
    out += [{"part": "values", "first": i} for i in range(len(VALUES))]
    out += [{"part": "large", "n": n} for n in (10, 257, 1000, 10001, 70000)]
    out += [{"part": "wide", "dims": d} for d in ((99, 100), (101, 2), (3, 112), (130, 130), (1, 1001), (1003, 999))]
    out += [{"part": "types"}, {"part": "refuse"}]
    out += [{"part": "history", "first": i, "depth": 4 if tier == "thorough" else 3} for i in range(8)]
    out += [{"part": "task", "i": i} for i in range(6)]
    return out


def scratch():
    import tempfile

    return tempfile.TemporaryDirectory(prefix="mc-p25-")


def same(rep, key, got, x, y, /, **d):
    import numpy as np

    gx, gy = (np.asarray(v) for v in got)
    wx, wy = np.asarray(x), np.asarray(y)
    if not rep.expect(gx.shape == wx.shape and gy.shape == wy.shape, f"{key}:shape", f"{gx.shape}, {gy.shape} for {wx.shape}, {wy.shape}", **d):
        return
    for g, w, side in ((gx, wx, "x"), (gy, wy, "y")):
        if w.size == 0:
            continue
        if w.dtype == np.float32:
            g = g.astype(np.float32)
        g, w = g.astype(float), w.astype(float)
        rep.expect(np.array_equal(g, w) and np.array_equal(np.signbit(g), np.signbit(w)), f"{key}:{side}",
                   f"{[repr(a) for a, b in zip(g.ravel(), w.ravel()) if a != b][:3]} instead of {[repr(b) for a, b in zip(g.ravel(), w.ravel()) if a != b][:3]}", **d)


def part_dims(case, rep):
    import pathlib

    import numpy as np

    from bmi.utils import read_sample, read_sample_dims, save_sample

    dx = case["dx"]
    with scratch() as tmp:
        path = pathlib.Path(tmp) / "s.csv"
        for dy in range(1, case["top"] + 1):
            for n in range(4):
                x = np.array([[1000.0 * i + j + 0.1 for j in range(dx)] for i in range(n)]).reshape(n, dx)
                y = np.array([[-1000.0 * i - j - 0.3 for j in range(dy)] for i in range(n)]).reshape(n, dy)
                before = x.copy(), y.copy()
                save_sample(path, x, y)
                text = path.read_text()
                rep.expect(np.array_equal(x, before[0]) and np.array_equal(y, before[1]), "mutated", f"{dx}, {dy}")
                same(rep, "dims", read_sample(path), x, y, dx=dx, dy=dy, n=n)
                rep.expect(tuple(map(int, read_sample_dims(path))) == (dx, dy), "dims:header", f"{read_sample_dims(path)} for {dx}, {dy}")
                rep.expect(path.read_text() == text, "file-changed-by-reading", f"{dx}, {dy}")
                save_sample(str(path), x.tolist() if n else x, y.tolist() if n else y)
                rep.expect(path.read_text() == text, "not-reproducible", f"{dx}, {dy}, {n}")
                rep.state()
                rep.trans(4)
                rep.trace()
                rep.outcome((dx, dy, n))


def part_wide(case, rep):
    import numpy as np

    from bmi.utils import read_sample, read_sample_dims, save_sample

    dx, dy = case["dims"]
    with scratch() as tmp:
        path = tmp + "/s.csv"
        for n in (0, 1, 3):
            x = np.arange(n * dx).reshape(n, dx) + 0.25
            y = -np.arange(n * dy).reshape(n, dy) - 0.5
            save_sample(path, x, y)
            same(rep, "wide", read_sample(path), x, y, dx=dx, dy=dy, n=n)
            rep.expect(tuple(map(int, read_sample_dims(path))) == (dx, dy), "wide:header", f"{read_sample_dims(path)} for {dx}, {dy}")
            rep.state()
            rep.trans(3)
            rep.outcome((dx, dy, n))
    rep.trace()


def part_values(case, rep):
    import numpy as np

    from bmi.utils import read_sample, save_sample

    a = VALUES[case["first"]]
    with scratch() as tmp:
        path = tmp + "/s.csv"
        tables = [([[a]], [[b]]) for b in VALUES] + [([[a], [b]], [[c], [a]]) for b in VALUES for c in VALUES] + [([[a, b]], [[c]]) for b in VALUES for c in VALUES]
        if rep.tier == "thorough":
            tables += [([[a], [b]], [[c, e], [e, a]]) for b, c, e in itertools.product(VALUES, repeat=3)]
        for x, y in tables:
            save_sample(path, np.array(x), np.array(y))
            same(rep, "values", read_sample(path), x, y, x=x, y=y)
            rep.state()
            rep.trans(2)
            rep.trace()
            rep.outcome((str(x), str(y)))
        # neighboring doubles are told apart
        for k in range(-50, 50):
            v = a + k * np.spacing(a) if abs(a) < 1e300 else a
            save_sample(path, np.array([[v]]), np.array([[-v]]))
            same(rep, "values:ulp", read_sample(path), [[v]], [[-v]], v=repr(v))
            rep.state()
            rep.trans(2)


def part_types(case, rep):
    import jax.numpy as jnp
    import numpy as np

    from bmi.utils import read_sample, save_sample

    base_x = np.array([[0.1, 2.0, -3.7], [1.5, 1e-3, 0.3], [7.0, 0.7, 1e7]])
    base_y = np.array([[0.2], [1 / 3], [-5.25]])
    makers = {
        "float64": lambda v: v.astype(np.float64), "float32": lambda v: v.astype(np.float32), "jax": lambda v: jnp.asarray(v), "int": lambda v: v.astype(int),
        "list": lambda v: v.tolist(), "tuple": lambda v: tuple(map(tuple, v.tolist())),
    }
    layouts = {
        "c": np.ascontiguousarray, "fortran": np.asfortranarray, "reversed": lambda v: v[::-1].copy()[::-1], "strided": lambda v: np.repeat(np.repeat(v, 2, 0), 2, 1)[::2, ::2],
    }
    with scratch() as tmp:
        path = tmp + "/s.csv"
        for tx, ty in itertools.product(makers, repeat=2):
            for l in layouts:
                x, y = makers[tx](base_x), makers[ty](base_y)
                if tx in ("float64", "float32", "int"):
                    x = layouts[l](x)
                save_sample(path, x, y)
                nx, ny = np.asarray(x), np.asarray(y)
                # one table: both sides have the wider of the two types
                both = np.hstack([nx, ny])
                same(rep, "types", read_sample(path), both[:, :3], both[:, 3:], types=(tx, ty), layout=l)
                rep.state()
                rep.trans(2)
                rep.trace()
                rep.outcome((tx, ty, l))


def part_large(case, rep):
    """More rows than any buffer of the reader holds; columns which look like integers for a long while."""
    import numpy as np

    from bmi.utils import read_sample, save_sample

    n = case["n"]
    rng = np.random.default_rng(n)
    with scratch() as tmp:
        path = tmp + "/s.csv"
        for dx, dy in ((1, 1), (2, 3)) + (((25, 30),) if n <= 1000 else ()):
            x, y = rng.normal(size=(n, dx)), rng.standard_cauchy(size=(n, dy)) * 1e-3
            late = np.zeros((n, dy))
            late[-1] = 0.1
            for kind, (a, b) in {"generic": (x, y), "late-fraction": (np.round(x), late), "integers": (np.arange(n * dx).reshape(n, dx), np.ones((n, dy), int)),
                                 "wide-range": (x * 1e300, y * 1e-300)}.items():
                save_sample(path, a, b)
                same(rep, f"large:{kind}", read_sample(path), a, b, n=n, dims=(dx, dy))
                rep.state()
                rep.trans(2)
                rep.trace()
                rep.outcome((n, dx, kind))


def part_refuse(case, rep):
    import numpy as np

    from bmi.utils import save_sample

    shapes = [(3,), (3, 1), (3, 2), (4, 1), (2, 2), (3, 1, 1), (), (1,)]
    with scratch() as tmp:
        for i, (a, b) in enumerate(itertools.product(shapes, repeat=2)):
            rep.state()
            rep.trans()
            fine = len(a) == 2 and len(b) == 2 and a[0] == b[0]
            do = lambda: save_sample(f"{tmp}/{i}.csv", np.ones(a), np.ones(b))
            if fine:
                do()
            else:
                rep.raises("refuse", do, msg=f"shapes {a}, {b}")
            rep.outcome((a, b, fine))
    rep.trace()


def samples():
    import numpy as np

    return [
        (np.array([[0.1, 0.2]]), np.array([[1.0], ])),
        (np.arange(60).reshape(5, 12) + 0.25, np.arange(15).reshape(5, 3) / 7),
        (np.array([[1.0], [2.0], [3.0]]), np.array([[1e-5], [1e-6], [1e-7]])),
        (np.arange(11)[None, :] * 1.5, np.arange(12)[None, :] - 0.5),
    ]


def part_history(case, rep):
    """Files are independent; the last save to a path wins completely."""
    from bmi.utils import read_sample, read_sample_dims, save_sample

    pool = samples()
    ops = [(p, s) for p in range(2) for s in range(len(pool))]
    for length in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=length - 1):
            seq = (ops[case["first"]], *seq)
            with scratch() as tmp:
                state = {}
                for p, s in seq:
                    save_sample(f"{tmp}/{p}.csv", *pool[s])
                    state[p] = s
                    rep.trans()
                    for q, t in state.items():
                        same(rep, "history", read_sample(f"{tmp}/{q}.csv"), *pool[t], seq=seq)
                        rep.expect(tuple(read_sample_dims(f"{tmp}/{q}.csv")) == (pool[t][0].shape[1], pool[t][1].shape[1]), "history:dims", str(seq))
                rep.state()
                rep.outcome(tuple(sorted(state.items())))
            rep.trace()


def part_task(case, rep):
    """What a task saves is what it samples and what it says about itself."""
    import numpy as np
    import yaml

    from bmi.benchmark.task import Task
    from bmi.benchmark.tasks import bivariate_normal, multinormal, power, scaling, student, wiggly
    from bmi.utils import read_sample

    task = [
        lambda: bivariate_normal.task_bivariate_normal(0.75), lambda: multinormal.task_multinormal_dense(11, 12), lambda: student.task_student_sparse(3, 2, 2, 1),
        lambda: power.transform_power_task(multinormal.task_multinormal_sparse(2, 2, 1), alpha=2), lambda: scaling.transform_rescale(bivariate_normal.task_bivariate_normal(0.5)),
        lambda: wiggly.transform_wiggly_task(multinormal.task_multinormal_lvm(2, 3, 2, alpha=0.5, lambd=1.0, beta=0.0)),
    ][case["i"]]()
    with scratch() as tmp:
        for n in (1, 2, 30):
            if n == 1 and task.id.startswith("rescale"):
                continue
            for seed in (0, 3, 42):
                path = f"{tmp}/{n}-{seed}.csv"
                task.save_sample(path, n, seed)
                x, y = (np.asarray(v) for v in task.sample(n, seed))
                both = np.hstack([x, y])
                same(rep, "task", read_sample(path), both[:, : x.shape[1]], both[:, x.shape[1] :], n=n, seed=seed, task=task.id)
                rep.state()
                rep.trans(2)
                rep.trace()
                rep.outcome((task.id, n, seed))
        task.save_metadata(f"{tmp}/m.yaml")
        task.save_metadata(f"{tmp}/m.yaml")
        with open(f"{tmp}/m.yaml") as fh:
            saved = yaml.safe_load(fh)
        meta = task.metadata
        rep.trans()
        rep.expect(saved["task_id"] == task.id and saved["task_name"] == task.name, "metadata:id", str(saved)[:200])
        rep.expect((saved["dim_x"], saved["dim_y"]) == (task.dim_x, task.dim_y), "metadata:dims", str(saved)[:200])
        rep.expect(float(saved["mi_true"]) == float(meta.mi_true), "metadata:mi", f"{saved['mi_true']!r} instead of {meta.mi_true!r}")
        rep.expect(set(saved["task_params"]) == set(task.params), "metadata:params", str(saved["task_params"])[:200])
        for k, v in task.params.items():
            rep.expect(v is None and saved["task_params"][k] is None or np.array_equal(np.asarray(v), np.asarray(saved["task_params"][k])), "metadata:value", f"{k}: {saved['task_params'][k]} instead of {v}"[:200])
    rep.expect(isinstance(task, Task), "type")


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
