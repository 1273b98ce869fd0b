"""P07: variational lower bounds (InfoNCE, Donsker-Varadhan, NWJ): both memory backends equal the
definition on every small score table, including their gradients."""

import itertools

PROPERTY = "P07"
BOUNDS = {
    "quick": "every 2x2 table over 6 sets of 5 scores (magnitudes up to 1e7), every 3x3 table over 3 score alphabets of size 3, every "
    "index pattern of 3 points into a 3x3 table; generic tables of size 1..33 and up to 257; points of 1..3 (12) coordinates",
    "thorough": "as quick with 5 alphabets for 3x3 tables and all 0/1/2-entry changes of a 5x5 table",
}
ASSUMPTIONS = ["float32 arithmetic: agreement is required to 2e-4 relative to the score scale"]

LOSSES = ["infonce", "donsker_varadhan", "nwj"]
ALPHABETS = [(-1.0, 0.0, 2.0), (0.0, 0.5, 30.0), (-80.0, -3.0, 0.25), (1e3, 1e3 + 1, 998.0), (-0.1, 0.0, 0.1)]


def reference(loss, A):
    """A: (..., n, n) float64 scores.  Value of the bound and gradient with respect to A."""
    import numpy as np
    from scipy.special import logsumexp

    A = np.asarray(A, float)
    n = A.shape[-1]
    eye = np.eye(n)
    pos = np.einsum("...ii->...", A) / n
    if loss == "infonce":
        lse = logsumexp(A, axis=-1, keepdims=True)
        return pos + np.log(n) - lse[..., 0].mean(-1), eye / n - np.exp(A - lse) / n
    off = np.where(eye == 1, -np.inf, A)
    with np.errstate(over="ignore"):
        if loss == "donsker_varadhan":
            lse = logsumexp(off, axis=(-1, -2), keepdims=True)
            return pos - (lse[..., 0, 0] - np.log(n * (n - 1))), eye / n - np.exp(off - lse)
        e = np.exp(off - 1.0) / (n * (n - 1))
        return pos - e.sum((-1, -2)), eye / n - e


def cases(tier):
    deep = tier == "thorough"
    out = []
    for loss in LOSSES:
        out.append({"part": "tables2", "loss": loss})
        for a in range(len(ALPHABETS) if deep else 3):
            out.append({"part": "tables3", "loss": loss, "alphabet": a})
        out.append({"part": "index", "loss": loss})
        out.append({"part": "sizes", "loss": loss, "sizes": list(range(1, 34)) if deep else
                    [1, 2, 3, 4, 5, 7, 8, 16, 17, 33]})
        for n in (50, 64, 100, 128, 129, 200, 257) + ((400, 512, 1000) if deep else ()):
            out.append({"part": "sizes", "loss": loss, "sizes": [n]})
        out.append({"part": "points", "loss": loss})
    if deep:
        out += [{"part": "tables5", "loss": loss} for loss in LOSSES]
    return out


def batch_eval(loss, tables, rows=None, cols=None):
    """Evaluates both backends and their gradients on a stack of tables."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import bmi.estimators.neural._backend_linear_memory as lin
    import bmi.estimators.neural._backend_quadratic_memory as quad

    n = tables.shape[-1]
    rows = list(range(n)) if rows is None else rows
    cols = list(range(n)) if cols is None else cols
    xs = jnp.asarray(rows, dtype=jnp.int32)[:, None]
    ys = jnp.asarray(cols, dtype=jnp.int32)[:, None]
    out = {}
    for name, mod in (("linear", lin), ("quadratic", quad)):
        fn = getattr(mod, loss)

        def value(T):
            return fn(lambda x, y: T[x[0], y[0]], xs, ys)

        v, g = jax.jit(jax.vmap(jax.value_and_grad(value)))(jnp.asarray(tables, dtype=jnp.float32))
        out[name] = np.asarray(v, float), np.asarray(g, float)
    return out


def compare(rep, key, loss, tables, rows=None, cols=None):
    import numpy as np

    tables = np.asarray(tables, dtype=np.float32).astype(float)
    n = tables.shape[-1]
    r = np.arange(n) if rows is None else np.array(rows)
    c = np.arange(n) if cols is None else np.array(cols)
    A = tables[:, r][:, :, c]
    want_v, want_A = reference(loss, A)
    want_g = np.zeros_like(tables)
    for i, a in enumerate(r):
        for j, b in enumerate(c):
            want_g[:, a, b] += want_A[:, i, j]
    scale = np.maximum(1.0, np.abs(A).max((-1, -2)))
    got = batch_eval(loss, tables, list(map(int, r)), list(map(int, c)))
    rep.state(len(tables))
    rep.trans(2 * len(tables))
    rep.trace(len(tables))
    finite = np.abs(want_v) < 1e30
    for backend, (v, g) in got.items():
        tol = 2e-4 * scale + 2e-4 * np.abs(want_v)
        with np.errstate(invalid="ignore"):
            bad = finite & ~(np.abs(v - want_v) <= tol)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            rep.fail(f"{key}:{backend}:value", f"{loss}: got {v[i]} expected {want_v[i]}",
                     table=tables[i], rows=r, cols=c, backend=backend)
        # entries are of the order of 1/n or 1/n^2: the tolerance has to be, too
        gt = (3e-5 + 3e-6 * scale[:, None, None]) / n + 2e-3 * np.abs(want_g)
        with np.errstate(invalid="ignore"):
            gbad = finite[:, None, None] & ~(np.abs(g - want_g) <= gt)
        if gbad.any():
            i = int(np.flatnonzero(gbad.any((1, 2)))[0])
            rep.fail(f"{key}:{backend}:gradient", f"{loss}: gradient {g[i].tolist()} expected "
                     f"{want_g[i].tolist()}", table=tables[i], rows=r, cols=c, backend=backend)
        overflow = ~finite
        if overflow.any() and loss == "nwj":
            rep.expect((v[overflow] < -1e25).all(), f"{key}:{backend}:overflow")
    if loss == "infonce":
        for backend, (v, g) in got.items():
            lim = np.log(len(r)) + 1e-3 * scale
            rep.expect((v <= lim).all(), f"{key}:{backend}:bound", "InfoNCE exceeds log(batch size)")
    for w in want_v[:50]:
        rep.outcome(round(float(w), 5))
    rep.sample(dict(loss=loss, table=tables[-1], rows=r, cols=c, expected=float(want_v[-1])))


def run(case, rep):
    import numpy as np

    part, loss = case["part"], case["loss"]
    if part == "tables2":
        for alpha in ((-2.0, 0.0, 0.7, 5.0, 60.0), (-60.0, 1e3, 1e3 + 2, -1.0, 3.0), (-2000.0, -1999.0, -1995.0, -2030.0, -1500.0),
                      (-2e5, -2e5 + 8, -1.9e5, -2e5 - 100, -3e5), (3e4, 3e4 + 2, 2.9e4, 31e3, 0.0), (-1e7, -1e7 + 16, 0.0, 1e7, -3e6)):
            t = np.array(list(itertools.product(alpha, repeat=4))).reshape(-1, 2, 2)
            compare(rep, "tables2", loss, t)
    elif part == "tables3":
        t = np.array(list(itertools.product(ALPHABETS[case["alphabet"]], repeat=9))).reshape(-1, 3, 3)
        compare(rep, "tables3", loss, t)
    elif part == "index":
        t = np.array([[[0.3, -1.2, 2.0], [0.9, 0.1, -0.4], [1.5, -2.2, 0.6]],
                      [[5.0, 1.0, -7.0], [0.0, 2.0, 3.0], [-1.0, 4.0, 6.0]]])
        for rows in itertools.product(range(3), repeat=3):
            for cols in itertools.product(range(3), repeat=3):
                if rows[0] != 0 and cols[0] != 0:
                    continue
                # only the pattern matters to the jitted shape; evaluated without re-tracing
                index_eval(rep, loss, t, rows, cols)
    elif part == "sizes":
        for n in case["sizes"]:
            if n == 1 and loss != "infonce":
                continue  # no off-diagonal pair exists: the bound is undefined
            i, j = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
            t = np.stack([np.sin(3.0 * i + 1.7 * j * j), 4.0 * np.cos(i * i - 2.2 * j),
                          (i == j) * 3.0 + 0.1 * i, (i < j) * 2.0 - 1.0])
            compare(rep, "sizes", loss, t)
    elif part == "points":
        points(rep, loss)
    else:
        base = np.zeros((5, 5)) + 0.25
        stack = [base]
        for (a, b) in itertools.product(range(25), repeat=2):
            for va, vb in itertools.product((-2.0, 3.0), repeat=2):
                t = base.copy().ravel()
                t[a], t[b] = va, vb
                stack.append(t.reshape(5, 5))
        compare(rep, "tables5", loss, np.array(stack))


_JIT = {}


def index_eval(rep, loss, tables, rows, cols):
    """Every row/column index pattern, sharing one compiled function per backend."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    import bmi.estimators.neural._backend_linear_memory as lin
    import bmi.estimators.neural._backend_quadratic_memory as quad

    if loss not in _JIT:
        def mk(mod):
            fn = getattr(mod, loss)

            def value(T, xs, ys):
                return fn(lambda x, y: T[x[0], y[0]], xs, ys)

            return jax.jit(jax.vmap(value, in_axes=(0, None, None)))

        _JIT[loss] = {"linear": mk(lin), "quadratic": mk(quad)}
    A = tables[:, list(rows)][:, :, list(cols)]
    want, _ = reference(loss, A)
    rep.state(len(tables))
    rep.trace()
    for name, fn in _JIT[loss].items():
        rep.trans()
        v = np.asarray(fn(jnp.asarray(tables, jnp.float32), jnp.array(rows, jnp.int32)[:, None],
                          jnp.array(cols, jnp.int32)[:, None]), float)
        rep.close(f"index:{name}", v, want, rtol=2e-4, atol=2e-3, rows=rows, cols=cols, loss=loss)


def points(rep, loss):
    """Real-valued points of unequal dimension: the critic sees (x_i, y_j), never (y, x)."""
    import jax.numpy as jnp
    import numpy as np
    import bmi.estimators.neural._backend_linear_memory as lin
    import bmi.estimators.neural._backend_quadratic_memory as quad

    for n, dx, dy in [*itertools.product((2, 3, 6), (1, 2, 3), (1, 2, 3)), (40, 12, 1), (65, 2, 3), (300, 1, 2)]:
        xs = np.array([[np.sin(1 + 3 * i + c) for c in range(dx)] for i in range(n)])
        ys = np.array([[np.cos(2 + i * i - c) for c in range(dy)] for i in range(n)])

        def critic(x, y):
            return jnp.sum(x**2) * 1.5 - jnp.sum(y**3) + x[0] * y[-1] + 0.3 * x[-1]

        A = np.array([[1.5 * (x**2).sum() - (y**3).sum() + x[0] * y[-1] + 0.3 * x[-1] for y in ys] for x in xs])
        want, _ = reference(loss, A)
        rep.state()
        for name, mod in (("linear", lin), ("quadratic", quad)):
            rep.trans()
            got = getattr(mod, loss)(critic, jnp.asarray(xs), jnp.asarray(ys))
            rep.close(f"points:{name}", float(got), want, rtol=2e-4, atol=2e-4, n=n, dims=(dx, dy), loss=loss)
        rep.trace()
