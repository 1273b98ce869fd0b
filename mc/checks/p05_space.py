"""P05: the product-space view, batching and noise helpers keep every point, in order, once."""

import itertools
import math
from fractions import Fraction

PROPERTY = "P05"
BOUNDS = {
    "quick": "chunker: every n<=60 x chunk<=64, 13 x 28 larger pairs; 33 to 4097 points of up to 12+7 coordinates; product space: every shape n<=4 (all contents over 3 values "
    "for n<=3, one coordinate each), dims<=3, every index and slice, raw/standardised, 7 container forms",
    "thorough": "chunker: n<=300 x chunk<=310; product space contents over 4 values for n<=4",
}
ASSUMPTIONS = ["standardisation means subtracting the mean and dividing by the population standard deviation; "
               "a constant coordinate is only centred"]


def cases(tier):
    deep = tier == "thorough"
    hi = 300 if deep else 60
    step = 20
    out = [{"part": "chunker", "n": (a, a + step), "chunk": hi + 10} for a in range(-2, hi, step)]
    for n in (1, 2, 3) + ((4,) if deep else ()):
        out.append({"part": "contents", "n": n, "values": 4 if deep else 3})
    for dx, dy in itertools.product((1, 2, 3), repeat=2):
        out.append({"part": "space", "dims": (dx, dy)})
    out.append({"part": "large-chunks"})
    out += [{"part": "large", "n": n} for n in (33, 100, 1000, 4097)]
    out.append({"part": "errors"})
    out.append({"part": "noise"})
    return out


def std_ref(rows):
    cols = list(zip(*rows))
    out = []
    for c in cols:
        m = sum(Fraction(v) for v in c) / len(c)
        var = sum((v - m) ** 2 for v in c) / len(c)
        s = float(var) ** 0.5 or 1.0
        out.append([float(v - m) / s for v in c])
    return [list(r) for r in zip(*out)]


def check_space(rep, space, xs, ys, std, key, **d):
    import numpy as np

    wx, wy = (std_ref(xs), std_ref(ys)) if std else (xs, ys)
    wx, wy = np.array(wx, float), np.array(wy, float)
    n = len(xs)
    rep.expect(len(space) == n, f"{key}:len", f"{len(space)} != {n}", **d)
    rep.expect((space.dim_x, space.dim_y) == (wx.shape[1], wy.shape[1]), f"{key}:dims", **d)
    tol = dict(rtol=1e-5, atol=1e-5) if d.get("form") == "float32" or d.get("form") == "jax" else dict(rtol=1e-9, atol=1e-9)
    rep.close(f"{key}:x", space.x, wx, **tol, **d)
    rep.close(f"{key}:y", space.y, wy, **tol, **d)
    full = np.hstack([wx, wy])
    rep.close(f"{key}:xy", space.xy, full, **tol, **d)
    items = list(range(-n, n))
    items += [slice(a, b, c) for a in (None, 0, 1, -1) for b in (None, 0, 1, n, n + 3, -1) for c in (None, 2)]
    for it in items:
        rep.trans()
        rep.close(f"{key}:item", space[it], full[it], item=str(it), **tol, **d)


def run(case, rep):
    import numpy as np
    from bmi.utils import ProductSpace, add_noise, chunker

    part = case["part"]
    if part == "chunker":
        for n in range(*case["n"]):
            for c in range(-2, case["chunk"]):
                rep.state()
                rep.trans()
                if n <= 0 or c <= 0:
                    rep.raises("chunker:error", lambda: list(chunker(n, c)), (ValueError,), n=n, c=c)
                    continue
                # exactly consecutive, full except for the last one
                want = [list(range(s, min(s + c, n))) for s in range(0, n, c)]
                got = [list(range(n))[s] for s in chunker(n_items=n, chunk_size=c)]
                rep.expect(got == want, "chunker:partition", f"{got} != {want}", n=n, c=c)
                bounds = [(s.start, s.stop) for s in chunker(n, c)]
                rep.expect(
                    all(0 <= a < b <= n for a, b in bounds), "chunker:bounds", f"{bounds}", n=n, c=c
                )
            rep.trace()
    elif part == "contents":
        vals = [0, 1, 5, -2][: case["values"]]
        n = case["n"]
        for xs in itertools.product(vals, repeat=n):
            for ys in itertools.product(vals, repeat=n):
                for std in (True, False):
                    rep.state()
                    a, b = [[v] for v in xs], [[v] for v in ys]
                    sp = ProductSpace(np.array(a, float), np.array(b, float), standardize=std)
                    wx, wy = (std_ref(a), std_ref(b)) if std else (a, b)
                    rep.trans()
                    rep.close("contents", sp.xy, np.hstack([wx, wy]), rtol=1e-9, atol=1e-9, x=a, y=b, std=std)
                    rep.outcome(tuple(np.round(sp.xy, 6).ravel()))
            rep.trace()
    elif part == "space":
        import jax.numpy as jnp

        dx, dy = case["dims"]
        for n in range(1, 5):
            xs = [[(3 * i * i + 7 * c + i * c) % 11 for c in range(dx)] for i in range(n)]
            ys = [[(5 * i + 2 * c * c + i * i * c) % 13 - 4 for c in range(dy)] for i in range(n)]
            x, y = np.array(xs, float), np.array(ys, float)
            wide = np.zeros((2 * n, dx))
            wide[::2] = x
            forms = {
                "float": lambda: (x.copy(), y.copy()),
                "list": lambda: (xs, ys),
                "int": lambda: (np.array(xs), np.array(ys)),
                "fortran": lambda: (np.array(x, order="F"), np.array(y, order="F")),
                "strided": lambda: (wide[::2], y.copy()),
                "float32": lambda: (x.astype(np.float32), y.astype(np.float32)),
                "jax": lambda: (jnp.asarray(xs, dtype=float), jnp.asarray(ys, dtype=float)),
            }
            for form, mk in forms.items():
                for std in (True, False):
                    rep.state()
                    a, b = mk()
                    keep = np.array(a, float).copy(), np.array(b, float).copy()
                    sp = ProductSpace(a, b, standardize=std)
                    check_space(rep, sp, xs, ys, std, "space", form=form, n=n, dims=case["dims"])
                    rep.expect(
                        (np.array(a, float) == keep[0]).all() and (np.array(b, float) == keep[1]).all(),
                        "space:input-mutated", form=form, std=std, n=n,
                    )
                    if isinstance(a, np.ndarray):
                        a[...] = 77
                        b[...] = 78
                        check_space(rep, sp, xs, ys, std, "space:alias", form=form, n=n)
                        if form == "strided":
                            wide[::2] = x
                    rep.trace()
            default = ProductSpace(x, y)
            rep.close("space:default-standardises", default.x, np.array(std_ref(xs)), rtol=1e-9, atol=1e-9)
            rep.expect(getattr(default, "n_points", None) == n, "space:n_points",
                       f"documented attribute n_points is {getattr(default, 'n_points', 'missing')}")
    elif part == "large-chunks":
        for n in (61, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 10007):
            for c in (1, 2, 3, 7, 10, 63, 64, 65, 99, 100, 101, 127, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 4095, 4096, 4097, 10006, 10007, 10**6):
                rep.state()
                rep.trans()
                got = [(s.start, s.stop, s.step) for s in chunker(n, c)]
                want = [(a, min(a + c, n)) for a in range(0, n, c)]
                rep.expect([g[:2] for g in got] == want and all(g[2] in (None, 1) for g in got), "chunker:partition", n=n, c=c)
        rep.trace()
    elif part == "large":
        n = case["n"]
        rng = np.random.default_rng(n)
        for dx, dy in ((1, 1), (3, 2), (12, 7)):
            x, y = rng.normal(size=(n, dx)) * 7 + 3, rng.normal(size=(n, dy)) * 0.01
            x[:, 0] = 5.0 + (np.arange(n) == n - 1) * 1e-3  # constant but for the last point
            for (kind, (a, b)), std in itertools.product({"plain": (x, y), "far": (x + 1e6, y - 1e4), "ties": (np.round(x), np.round(y, 2))}.items(), (True, False)):
                rep.state()
                rep.trans()
                sp = ProductSpace(a, b, standardize=std)
                for got, v, side in ((sp.x, a, "x"), (sp.y, b, "y")):
                    sd = np.array([c.std() if (c != c[0]).any() else 1.0 for c in v.T])
                    mean = np.array([math.fsum(c) / n for c in v.T])
                    keep = sd > 1e-9 * np.abs(mean)  # the rest is rounding
                    want = (v - mean) / sd if std else v
                    rep.close(f"large:{side}", got[:, keep], want[:, keep], rtol=1e-6, atol=1e-4 if kind == "far" else 1e-7, n=n, dims=(dx, dy), kind=kind, std=std)
                rep.expect(np.array_equal(sp.xy, np.hstack([sp.x, sp.y])) and len(sp) == n, "large:xy", n=n, kind=kind)
                for i in (0, n // 2, n - 1, slice(n - 5, None), slice(0, n, 7), [3, 1, 2]):
                    rep.expect(np.array_equal(sp[i], sp.xy[i]), "large:item", f"{i}", n=n)
        rep.trace()
    elif part == "errors":
        for n, m in itertools.product(range(1, 6), repeat=2):
            if n != m:
                for std in (True, False):
                    rep.state()
                    rep.trans()
                    rep.raises(
                        "errors:length",
                        lambda: ProductSpace(np.zeros((n, 1)), np.zeros((m, 2)), standardize=std),
                        (ValueError,), n=n, m=m,
                    )
        rep.trace()
    else:
        for shape in ((1, 1), (3, 2), (5, 1), (4,)):
            pts = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
            for key in (0, 1, 7):
                unit = add_noise(np.zeros(shape), noise_std=1.0, rng_key=key)
                for std in (0.0, 1e-5, 0.5, 10.0):
                    rep.state()
                    rep.trans(2)
                    keep = pts.copy()
                    got = add_noise(pts, noise_std=std, rng_key=key)
                    rep.close("noise", got, pts + std * unit, rtol=1e-9, atol=1e-12, std=std, seed=key)
                    rep.expect((pts == keep).all(), "noise:mutated")
                    rep.expect(got.shape == shape, "noise:shape")
                    again = add_noise(pts.tolist(), noise_std=std, rng_key=key)
                    rep.expect((again == got).all(), "noise:determinism")
                if int(np.prod(shape)) > 1:
                    rep.expect(len(set(np.round(unit.ravel(), 12))) == unit.size, "noise:not-constant")
                rep.outcome(tuple(unit.ravel()))
            # values far larger than the noise, in every element type: the noise keeps its size
            for dt, (base, std) in itertools.product((np.float64, np.float32, np.float16, np.int64, np.int8, np.uint8, bool), ((0.0, 1e-5), (1.0, 1e-5), (96.0, 1e-5), (96.0, 1.0), (3.0, 1e-9))):
                big = (np.zeros(shape) + base).astype(dt)
                for key in (0, 7):
                    unit = add_noise(np.zeros(shape), noise_std=1.0, rng_key=key)
                    rep.state()
                    rep.trans()
                    got = np.asarray(add_noise(big, noise_std=std, rng_key=key), dtype=float) - big.astype(float)
                    rep.close("noise:types", got / std, unit, rtol=1e-4, atol=1e-4, std=std, dtype=np.dtype(dt).name, base=base)
            ints = add_noise(np.arange(4).reshape(4, 1), noise_std=0.5, rng_key=1)
            rep.expect((ints % 1 != 0).all(), "noise:integer-input")
        rep.trace()
