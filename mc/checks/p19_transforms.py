"""P19: the point transforms are the invertible maps they are documented to be."""

import itertools
import math

PROPERTY = "P19"
BOUNDS = {
    "quick": "spirals: dims 2..4 and 6, every canonical generator, 6 combined ones, 4 speeds, 3 initial matrices, 29 points each (value, norm, "
    "inverse, Jacobian determinant); norms 1e-3..1e4 at moderate angles; scalar maps on a 2001-point grid (value, strict monotonicity); swiss roll on 401 points "
    "(value, injectivity); numerical inverse CDF: 8 increasing functions x 199 levels x 4 intervals x 4 input shapes",
    "thorough": "dims up to 6 and 20001-point grids",
}
ASSUMPTIONS = ["single precision arithmetic: values are compared at 1e-5 relative"]


def cases(tier):
    top = 6 if tier == "thorough" else 4
    fine = 20001 if tier == "thorough" else 2001
    out = [{"part": "spiral", "n": n, "speed": v} for n in range(2, top + 1) for v in (1.0, -0.5, 0.0, 2.25)]
    if top < 6:
        out.append({"part": "spiral", "n": 6, "speed": 1.0})
    out += [{"part": "spiral_far", "n": n} for n in range(2, top + 1)]
    out += [{"part": "scalar", "map": m, "fine": fine} for m in ("normal_cdf", "half_cube", "wiggly_x", "wiggly_y", "asinh", "power")]
    out += [{"part": "swissroll"}, {"part": "algebra"}]
    out += [{"part": "invert", "which": w} for w in range(8)]
    return out


def points(n):
    import numpy as np

    out = [np.zeros(n)] + [s * np.eye(n)[i] for i in range(n) for s in (1.0, -0.5)]
    for k in range(20):
        out.append(np.array([math.sin(3.1 * k + 1.7 * i) * (0.3 + 0.1 * k) for i in range(n)]))
    return out


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
    rep.trace()


def part_spiral(case, rep):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from bmi.transforms import Spiral, skew_symmetrize, so_generator
    from scipy.linalg import expm

    n, speed = case["n"], case["speed"]
    gens = []
    for i, j in itertools.combinations(range(n), 2):
        g = np.zeros((n, n))
        g[i, j], g[j, i] = -1, 1
        rep.close("so_generator", so_generator(n, i, j), g, n=n, i=i, j=j)
        gens.append(g)
    for k in range(6):
        a = np.array([[math.sin(2.3 * i + 5.1 * j + k) for j in range(n)] for i in range(n)])
        rep.close("skew", skew_symmetrize(a), (a - a.T) / 2)
        rep.close("skew:jax", skew_symmetrize(jnp.asarray(a)), (a - a.T) / 2, rtol=1e-5, atol=1e-6)
        gens.append((a - a.T) / 2)
    initials = [None, np.eye(n)[::-1], np.array([[1.0 + (i == j) if i >= j else 0.0 for j in range(n)] for i in range(n)])]
    xs = points(n)
    batch = jnp.asarray(np.array(xs))
    for g, a in itertools.product(gens, initials):
        rep.state()
        keep = g.copy()
        s = Spiral(g, initial=a, speed=speed)
        got = np.asarray(jax.vmap(s)(batch), dtype=float)
        m = np.eye(n) if a is None else a
        want = np.array([m @ expm(g * speed * (x @ x)) @ x for x in xs])
        rep.trans(len(xs))
        d = dict(n=n, generator=g, initial=a, speed=speed)
        # the single-precision matrix exponential is less accurate for large angles
        near = np.array([abs(speed) * (x @ x) * np.abs(g).max() < 4 for x in xs])
        rep.expect(near.sum() >= 10, "harness:near")
        rep.close("spiral:value", got[near], want[near], rtol=3e-4, atol=3e-4, **d)
        rep.close("spiral:value-far", got[~near], want[~near], rtol=3e-2, atol=3e-2, **d)
        back = np.linalg.solve(m, got.T).T
        rep.close("spiral:norm", (back**2).sum(1), (np.array(xs) ** 2).sum(1), rtol=1e-2, atol=1e-4, **d)
        # invertible: the opposite spiral undoes it
        inv = np.asarray(jax.vmap(Spiral(g, speed=-speed))(jnp.asarray(back)))
        rep.close("spiral:inverse", inv[near], np.array(xs)[near], rtol=1e-3, atol=1e-3, **d)
        dets = np.asarray(jax.vmap(lambda x: jnp.linalg.det(jax.jacfwd(s)(x)))(batch[:8]))
        rep.close("spiral:volume", dets, np.full(8, np.linalg.det(m)), rtol=5e-3, atol=5e-3, **d)
        rep.expect(np.array_equal(keep, g), "spiral:generator-changed")
        one = np.asarray(s(batch[5]))
        rep.close("spiral:single", one, want[5], rtol=2e-4, atol=2e-4)
        rep.outcome(tuple(np.round(got[-1], 3)))
    if speed == 1.0:
        s0 = np.asarray(jax.vmap(Spiral(gens[0]))(batch))
        rep.close("spiral:default-speed", s0, np.array([expm(gens[0] * (x @ x)) @ x for x in xs]), rtol=3e-2, atol=3e-2)


def part_spiral_far(case, rep):
    """The angle is the whole speed * ||x||^2, however far (or near) the point: slow spirals of long vectors and
    fast spirals of short ones, at angles single precision still resolves."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from bmi.transforms import Spiral, so_generator
    from scipy.linalg import expm

    n = case["n"]
    dirs = [v / np.linalg.norm(v) for v in points(n)[1:9]]
    gens = [np.asarray(so_generator(n, i, j), float) for i, j in itertools.combinations(range(n), 2)]
    gens.append(sum(gens))
    for g, norm, angle, sign in itertools.product(gens, (1e-3, 1e-2, 0.1, 1.0, 5.0, 20.0, 31.0, 100.0, 1e3, 1e4), (0.3, 1.4, 3.0), (1, -1)):
        speed = sign * angle / norm**2
        s = Spiral(g, speed=speed)
        xs = np.array([norm * v for v in dirs])
        got = np.asarray(jax.vmap(s)(jnp.asarray(xs)), float)
        want = np.array([expm(g * speed * (x @ x)) @ x for x in xs])
        rep.state()
        rep.trans(len(xs))
        rep.close("spiral:far", got / norm, want / norm, rtol=1e-3, atol=1e-3, n=n, generator=g, speed=speed, norm=norm)
        # through the generator instead of the speed: the same map
        got = np.asarray(jax.vmap(Spiral(g * speed))(jnp.asarray(xs)), float)
        rep.close("spiral:far-generator", got / norm, want / norm, rtol=1e-3, atol=1e-3, n=n, generator=g * speed, norm=norm)
        rep.outcome((norm, angle, sign, tuple(np.round(got[0] / norm, 3))))


SCALARS = {
    "normal_cdf": lambda x: 0.5 * math.erfc(-x / math.sqrt(2)),
    "half_cube": lambda x: math.copysign(abs(x) ** 1.5, x),
    "wiggly_x": lambda x: x + 0.4 * math.sin(x) + 0.2 * math.sin(1.7 * x + 1) + 0.03 * math.sin(3.3 * x - 2.5),
    "wiggly_y": lambda x: x - 0.4 * math.sin(0.4 * x) + 0.17 * math.sin(1.3 * x + 3.5) + 0.02 * math.sin(4.3 * x - 2.5),
    "asinh": math.asinh,
}


def part_scalar(case, rep):
    """Value where it is documented; strict monotonicity (hence invertibility, hence preservation of MI) everywhere."""
    import jax.numpy as jnp
    import numpy as np

    import bmi.transforms as t
    from bmi.benchmark.tasks import wiggly

    name, n = case["map"], case["fine"]
    if name == "power":
        from bmi.benchmark.tasks.power import transform_power_task
        from bmi.benchmark.tasks import task_bivariate_normal

        for alpha in (0.3, 0.5, 1.0, 1.5, 2, 3.0, 5):
            task = transform_power_task(task_bivariate_normal(), alpha)
            xs = np.linspace(-4, 4, n, dtype=np.float32)[:, None]
            gx, gy = map(np.asarray, task.sampler.transform(jnp.asarray(xs), jnp.asarray(-xs)))
            want = np.sign(xs) * np.abs(xs.astype(float)) ** float(alpha)
            rep.state()
            rep.trans(n)
            rep.close("power", gx, want, rtol=1e-4, atol=1e-6, alpha=alpha)
            rep.close("power:y", gy, -want, rtol=1e-4, atol=1e-6, alpha=alpha)
            rep.expect((np.diff(gx.ravel())[np.abs(xs[1:, 0]) > 0.1] > 0).all(), "power:monotone", "", alpha=alpha)
            rep.outcome(alpha)
        return
    f = {"normal_cdf": t.normal_cdf, "half_cube": t.half_cube, "wiggly_x": wiggly.wiggly_x, "wiggly_y": wiggly.wiggly_y, "asinh": jnp.arcsinh}[name]
    ref = SCALARS[name]
    lim = 4.0 if name == "normal_cdf" else 12.0
    xs = np.linspace(-lim, lim, n)
    got = np.asarray(f(jnp.asarray(xs)), dtype=float)
    want = np.array([ref(float(np.float32(x))) for x in xs])
    rep.state(n)
    rep.trans(n)
    if not name.startswith("wiggly"):  # the coefficients of the wiggles are not documented, being a bijection is
        rep.close(f"scalar:{name}", got, want, rtol=2e-5, atol=1e-6)
    rep.expect((np.diff(got[:: max(1, n // 2000)]) > 0).sum() >= len(got[:: max(1, n // 2000)]) - 1 if name != "normal_cdf" else
               (np.diff(got) >= 0).all() and len(set(got[:: max(1, n // 200)].tolist())) > 150, f"monotone:{name}", "not increasing")
    rep.expect(np.isfinite(got).all(), f"finite:{name}")
    if name.startswith("wiggly"):
        rep.expect((np.abs(got - xs) < 2).all(), f"wiggle:{name}", "not a perturbation of the identity")
        rep.expect(np.abs(np.diff(got) / np.diff(xs) - 1).max() > 0.2, f"wiggle-flat:{name}", "no wiggle")
    if name in ("half_cube", "asinh", "normal_cdf"):
        # near zero and far away, in relative terms
        for e in range(-12, 13 if name != "normal_cdf" else 1):
            for v in (1.0, 2.7, -1.0, -4.3):
                v = v * 10.0**e
                rep.trans()
                rep.close(f"scalar-relative:{name}", f(jnp.asarray(v)), ref(float(np.float32(v))), rtol=2e-5 if abs(v) < 1 else 1e-4, atol=0.0 if abs(v) < 1 else 1e-6, x=v)
    for i in (0, n // 3, n - 1):
        rep.close(f"scalar-call:{name}", f(jnp.asarray(xs[i])), got[i], rtol=1e-5, atol=1e-6)
        rep.close(f"shape:{name}", np.asarray(f(jnp.full((2, 3), xs[i]))), np.full((2, 3), got[i]), rtol=1e-5, atol=1e-6)
        rep.outcome((name, got[i]))


def part_swissroll(case, rep):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from bmi.transforms import swissroll2d

    us = np.linspace(0, 1, 401)
    got = np.asarray(jax.vmap(swissroll2d)(jnp.asarray(us)[:, None]), dtype=float)
    t = 1.5 * np.pi * (1 + 2 * us)
    rep.state(401)
    rep.trans(401)
    rep.close("swissroll", got, np.stack([t * np.cos(t), t * np.sin(t)], 1) / 21.0, rtol=1e-4, atol=1e-5)
    # beyond the documented range the roll goes on
    far = np.concatenate([np.linspace(-0.45, 0, 40), np.linspace(1, 4, 301)])
    t = 1.5 * np.pi * (1 + 2 * far)
    rep.close("swissroll:beyond", jax.vmap(swissroll2d)(jnp.asarray(far)[:, None]), np.stack([t * np.cos(t), t * np.sin(t)], 1) / 21.0, rtol=1e-3, atol=3e-5)
    # an embedding: the radius recovers the argument
    rep.close("swissroll:inverse", (np.hypot(got[:, 0], got[:, 1]) * 21 / (1.5 * np.pi) - 1) / 2, us, rtol=1e-4, atol=1e-5)
    rep.expect(swissroll2d(jnp.array([0.25])).shape == (2,), "swissroll:shape")
    rep.outcome(tuple(got[7]))


def part_algebra(case, rep):
    import numpy as np
    from bmi.transforms import Spiral, skew_symmetrize, so_generator

    rep.state()
    rep.trans(3)
    # documented example
    rep.close("doc", np.asarray(Spiral(np.array([[0, -1], [1, 0]]), speed=np.pi / 2)(np.array([1.0, 0.0]))), np.array([0.0, 1.0]), atol=1e-6)
    rep.close("doc:defaults", so_generator(3), np.array([[0, -1, 0], [1, 0, 0], [0, 0, 0]]))
    for n in range(2, 7):
        basis = [so_generator(n, i, j) for i, j in itertools.combinations(range(n), 2)]
        rep.expect(np.linalg.matrix_rank(np.array([b.ravel() for b in basis])) == n * (n - 1) // 2, "basis", f"n={n}")
        for b in basis:
            rep.close("basis:skew", b, -b.T)
            rep.close("skew:fixed", skew_symmetrize(b), b)
        a = np.arange(n * n, dtype=float).reshape(n, n) ** 1.5
        keep = a.copy()
        s = skew_symmetrize(a)
        rep.close("skew:parts", s + (a + a.T) / 2, a)
        rep.expect(np.array_equal(a, keep), "skew:changed-argument")
        rep.outcome(n)


def part_invert(case, rep):
    import jax.numpy as jnp
    import numpy as np
    from bmi.transforms import invert_cdf, normal_cdf
    from scipy import stats

    mono = [
        ("normal", normal_cdf, stats.norm.cdf, 4.0),
        ("two-bumps", lambda x: 0.3 * normal_cdf(x) + 0.7 * normal_cdf(x - 5), lambda x: 0.3 * stats.norm.cdf(x) + 0.7 * stats.norm.cdf(x - 5), None),
        ("two-bumps-2", lambda x: 0.5 * normal_cdf(x + 1) + 0.5 * normal_cdf(x - 3), lambda x: 0.5 * stats.norm.cdf(x + 1) + 0.5 * stats.norm.cdf(x - 3), None),
        ("logistic", lambda x: 1 / (1 + jnp.exp(-x)), lambda x: 1 / (1 + np.exp(-x)), None),
        ("uniform", lambda x: (x + 10) / 20, lambda x: (x + 10) / 20, None),
        ("cubic", lambda x: (x / 10) ** 3 / 2 + 0.5, lambda x: (x / 10) ** 3 / 2 + 0.5, None),
        ("steep", lambda x: normal_cdf(20 * (x - 1)), lambda x: stats.norm.cdf(20 * (x - 1)), None),
        ("atan", lambda x: 0.5 + jnp.arctan(x) / jnp.pi, lambda x: 0.5 + np.arctan(x) / np.pi, None),
    ]
    name, f, ref, _ = mono[case["which"]]
    levels = np.arange(1, 200) / 200
    for lo, hi in ((-10, 10), (-10.0, 10.0), (-3, 8.5), (-40.0, 15)):
        kw = {} if (lo, hi) == (-10, 10) else dict(x_min=lo, x_max=hi)
        g = invert_cdf(f, **kw)
        inside = levels[(levels > ref(float(lo)) + 1e-3) & (levels < ref(float(hi)) - 1e-3)]
        x = np.asarray(g(jnp.asarray(inside)), dtype=float)
        rep.state()
        rep.trans(len(inside))
        rep.expect(x.shape == inside.shape, "invert:shape", f"{x.shape}")
        rep.close("invert:value", ref(x), inside, rtol=0, atol=3e-5, function=name, interval=(lo, hi))
        rep.expect((np.diff(x) > -1e-6).all() and (x >= lo).all() and (x <= hi).all(), "invert:monotone", f"{name}", interval=(lo, hi))
        rep.expect(len(set(np.round(x, 6))) > 0.9 * len(x), "invert:injective", name)
        # nothing outside the interval is ever returned
        for y, end in ((-0.5, lo), (1.5, hi)):
            if ref(float(lo)) < y < ref(float(hi)):
                continue
            rep.close("invert:outside", g(jnp.asarray(y)), float(end), rtol=1e-4, atol=1e-4, function=name, interval=(lo, hi), y=y)
        m = np.asarray(g(jnp.asarray(inside[:6]).reshape(2, 3)))
        rep.close("invert:batch", m.ravel(), x[:6], rtol=1e-5, atol=1e-5)
        rep.close("invert:scalar", g(inside[3]), x[3], rtol=1e-5, atol=1e-5)
        rep.outcome((name, lo, round(float(x[2]), 3)))
        coarse = invert_cdf(f, x_min=lo, x_max=hi, delta=0.5)
        rep.expect(np.abs(np.asarray(coarse(jnp.asarray(inside))) - x).max() <= 0.5, "invert:delta", name)
