"""P20: a transformed sampler pushes exactly the base sample through the maps, and MI is that of the base."""

import itertools

PROPERTY = "P20"
BOUNDS = {
    "quick": "7 base samplers x 8 maps of X x 8 maps of Y x vectorised or not x n in {1,4,9} x 2 seeds (300 and 1025 points for some); every chain of <=3 of 8 "
    "transforms; 5 embeddings of each side; 4 user-made bases x maps; 7 x 7 maps of a whole side (also the same object twice, and "
    "ones that depend on the batch) x 4 sizes",
    "thorough": "chains of <=4",
}
ASSUMPTIONS = []
BASES = ["normal-1-1", "normal-1-2", "normal-3-2", "student-5-2-1", "additive-0.1", "discrete-5-False", "concat"]
MAPS = ["none", "identity", "asinh", "cube", "shift", "flip", "mix", "spin"]


def cases(tier):
    out = [{"part": "pair", "base": b} for b in BASES]
    out += [{"part": "chain", "first": m, "depth": 4 if tier == "thorough" else 3} for m in MAPS]
    out += [{"part": "embed", "base": b} for b in BASES]
    out += [{"part": "subclass", "base": b} for b in BASES[:4]]
    out += [{"part": "whole", "base": b} for b in BASES]
    return out


def maps(d):
    """name -> (jax map of one point, numpy map of a batch)."""
    import jax.numpy as jnp
    import numpy as np

    a = np.array([[1.0 + (i == j) if j <= i else 0.0 for j in range(d)] for i in range(d)])

    def spin(x):
        r = (x**2).sum()
        c, s = jnp.cos(r), jnp.sin(r)
        return x if d < 2 else jnp.concatenate([jnp.array([c * x[0] - s * x[1], s * x[0] + c * x[1]]), x[2:]])

    def spin_np(x):
        r = (x**2).sum(1)
        out = x.copy()
        if d >= 2:
            out[:, 0] = np.cos(r) * x[:, 0] - np.sin(r) * x[:, 1]
            out[:, 1] = np.sin(r) * x[:, 0] + np.cos(r) * x[:, 1]
        return out

    return {
        "none": (None, lambda x: x),
        "identity": (lambda x: x, lambda x: x),
        "asinh": (jnp.arcsinh, np.arcsinh),
        "cube": (lambda x: x**3 + x, lambda x: x**3 + x),
        "shift": (lambda x: 2 * x - 1, lambda x: 2 * x - 1),
        "flip": (lambda x: -x[::-1], lambda x: -x[:, ::-1]),
        "mix": (lambda x: a @ x, lambda x: x @ a.T),
        "spin": (spin, spin_np),
    }


def run(case, rep):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from bmi.samplers import TransformedSampler
    from mc import samplers_ref

    def arr(p):
        return tuple(np.asarray(a, dtype=float) for a in p)

    def agree(key, got, want, **d):
        rep.close(f"{key}:x", got[0], want[0], rtol=2e-3, atol=2e-3, **d)
        rep.close(f"{key}:y", got[1], want[1], rtol=2e-3, atol=2e-3, **d)

    if case["part"] == "pair":
        build, dx, dy, mi = samplers_ref.menu()[case["base"]]
        base = build()
        samples = {(n, s): arr(base.sample(n, s)) for n in (1, 4, 9) for s in (0, 5)}
        base_mi = float(base.mutual_information())
        mx, my = maps(dx), maps(dy)
        for a, b in itertools.product(MAPS, repeat=2):
            for vectorise in (True, False):
                fx, fy = mx[a][0], my[b][0]
                if not vectorise:
                    fx = None if fx is None else jax.vmap(fx)
                    fy = None if fy is None else jax.vmap(fy)
                t = TransformedSampler(base, transform_x=fx, transform_y=fy, vectorise=vectorise)
                d = dict(base=case["base"], maps=(a, b), vectorise=vectorise)
                rep.state()
                rep.expect((t.dim_x, t.dim_y) == (dx, dy), "dims", f"{t.dim_x},{t.dim_y}", **d)
                rep.expect(float(t.mutual_information()) == base_mi, "mi", f"{t.mutual_information()} != {base_mi}", **d)
                for (n, s), (x, y) in samples.items():
                    if (n != 4 or s) and not vectorise:
                        continue
                    rep.trans()
                    agree("sample", arr(t.sample(n, s)), (mx[a][1](x), my[b][1](y)), n=n, seed=s, **d)
                x, y = samples[4, 0]
                agree("transform", arr(t.transform(jnp.asarray(x), jnp.asarray(y))), (mx[a][1](x), my[b][1](y)), **d)
                rep.outcome((case["base"], a, b, vectorise))
            # more points than a block a careful programmer might process at a time
            for n in (300, 1025) if a == b or a == "none" else ():
                x, y = arr(base.sample(n, 1))
                t = TransformedSampler(base, transform_x=mx[a][0], transform_y=my[b][0])
                tame = [(v**2).sum(1) < 30 if m == "spin" else np.full(n, True) for m, v in ((a, x), (b, y))]
                got = arr(t.sample(n, 1))
                want = (mx[a][1](x), my[b][1](y))
                rep.state()
                rep.trans()
                rep.expect(got[0].shape == want[0].shape and got[1].shape == want[1].shape, "sample:many-shape", n=n)
                agree("sample:many", [g[k] for g, k in zip(got, tame)], [w[k] for w, k in zip(want, tame)], n=n, maps=(a, b), base=case["base"])
            k = jax.random.PRNGKey(3)
            x, y = arr(base.sample(4, k))
            agree("key", arr(t.sample(4, k)), (mx[a][1](x), my[b][1](y)), maps=(a, b))
            agree("base-unchanged", arr(base.sample(4, 0)), samples[4, 0])
            rep.trace()
    elif case["part"] == "chain":
        build, dx, dy, mi = samplers_ref.menu()["normal-3-2"]
        base = build()
        x0, y0 = arr(base.sample(6, 2))
        mx, my = maps(dx), maps(dy)
        for depth in range(1, case["depth"] + 1):
            for tail in itertools.product(MAPS[1:] if depth == 3 else MAPS, repeat=depth - 1):
                seq = (case["first"],) + tail
                t, x, y = base, x0, y0
                tame = True
                for k, m in enumerate(seq):
                    # X and Y go through different chains
                    other = MAPS[(MAPS.index(m) + k + 1) % len(MAPS)]
                    t = TransformedSampler(t, transform_x=mx[m][0], transform_y=my[other][0])
                    # the angle of a spin is ||x||^2: single precision loses it when the norm is large
                    for name, v in ((m, x), (other, y)):
                        tame &= name != "spin" or (v**2).sum(1).max() < 30
                    x, y = mx[m][1](x), my[other][1](y)
                rep.state()
                rep.trans(depth)
                if tame:
                    rep.count("chains_compared")
                    agree("chain", arr(t.sample(6, 2)), (x, y), chain=seq)
                rep.expect(t.mutual_information() == base.mutual_information(), "chain:mi", "", chain=seq)
                rep.expect((t.dim_x, t.dim_y) == (dx, dy), "chain:dims", "", chain=seq)
                rep.outcome(seq)
        rep.trace()
    elif case["part"] == "subclass":
        subclasses(case, rep, arr, agree)
    elif case["part"] == "whole":
        whole(case, rep, arr, agree)
    else:
        build, dx, dy, mi = samplers_ref.menu()[case["base"]]
        base = build()
        x, y = arr(base.sample(5, 1))
        for ax, ay in itertools.product(range(5), repeat=2):
            def pad(k):
                return lambda v: jnp.concatenate([v] + [jnp.sin(v[:1] * (i + 2)) for i in range(k)])

            def pad_np(v, k):
                return np.hstack([v] + [np.sin(v[:, :1] * (i + 2)) for i in range(k)])

            t = TransformedSampler(base, transform_x=pad(ax), transform_y=pad(ay), add_dim_x=ax, add_dim_y=ay)
            rep.state()
            rep.trans()
            got = arr(t.sample(5, 1))
            rep.expect((t.dim_x, t.dim_y) == (dx + ax, dy + ay) == (got[0].shape[1], got[1].shape[1]), "embed:dims", f"{t.dim_x},{t.dim_y}", add=(ax, ay))
            agree("embed", got, (pad_np(x, ax), pad_np(y, ay)), add=(ax, ay))
            rep.expect(t.mutual_information() == base.mutual_information(), "embed:mi", "", add=(ax, ay))
            rep.outcome((ax, ay))
        rep.trace()


def whole(case, rep, arr, agree):
    """A map given with vectorise=False gets one whole side, once and alone -- also when the very same
    function object is given for both sides, and when what it does to a point depends on the other points."""
    import jax.numpy as jnp
    import numpy as np
    from bmi.samplers import TransformedSampler
    from mc import samplers_ref

    build, dx, dy, mi = samplers_ref.menu()[case["base"]]
    base = build()
    seen = []

    def centre(v):
        return v - v.mean(0)

    def scale(v):
        return v / (1 + abs(v).max())

    def ranks(v):
        return (v[:, None] > v[None]).sum(1) * 1.0

    def length(v):
        return v * 0 + len(v)

    def recorder(v):
        seen.append(tuple(v.shape))
        return v

    def pointwise(v):
        return jnp.tanh(v)

    fns = [None, centre, scale, ranks, length, recorder, pointwise]
    for f, g, n in itertools.product(fns, fns, (1, 2, 7, 300)):
        x, y = arr(base.sample(n, 4))
        x, y = x.astype(np.float32), y.astype(np.float32)
        t = TransformedSampler(base, transform_x=f, transform_y=g, vectorise=False)
        want = (x if f is None else np.asarray(f(x)), y if g is None else np.asarray(g(y)))
        d = dict(base=case["base"], maps=(getattr(f, "__name__", None), getattr(g, "__name__", None)), n=n)
        for key, call in (("whole:sample", lambda: t.sample(n, 4)), ("whole:transform", lambda: t.transform(jnp.asarray(x), jnp.asarray(y)))):
            del seen[:]
            got = arr(call())
            rep.trans()
            agree(key, got, want, **d)
            rep.expect(seen == [v.shape for v, m in ((x, f), (y, g)) if m is recorder], key + ":calls", f"{seen}", **d)
        rep.state()
        rep.outcome((f is g, d["maps"], n))
    # long samples: what a map does to the first points may depend on the last
    for f, g, n in itertools.product((None, centre, scale, length, recorder), (None, scale, length), (33_000, 70_001)):
        x, y = arr(base.sample(n, 4))
        x, y = x.astype(np.float32), y.astype(np.float32)
        t = TransformedSampler(base, transform_x=f, transform_y=g, vectorise=False)
        want = (x if f is None else np.asarray(f(jnp.asarray(x))), y if g is None else np.asarray(g(jnp.asarray(y))))
        del seen[:]
        d = dict(base=case["base"], maps=(getattr(f, "__name__", None), getattr(g, "__name__", None)), n=n)
        agree("whole:long", arr(t.sample(n, 4)), want, **d)
        rep.expect(seen == ([x.shape] if f is recorder else []), "whole:long:calls", f"{seen}", **d)
        rep.state()
        rep.trans()
    # the same map of single points for both sides
    for m in (centre, pointwise, lambda p: p * p[0], lambda p: p[::-1] - 1):
        for n in (1, 5, 300):
            x, y = arr(base.sample(n, 4))
            t = TransformedSampler(base, transform_x=m, transform_y=m)
            rep.state()
            rep.trans()
            agree("same:sample", arr(t.sample(n, 4)), [np.array([np.asarray(m(p)) for p in v.astype(np.float32)]) for v in (x, y)], n=n, base=case["base"])
    rep.trace()


def subclasses(case, rep, arr, agree):
    """The base is asked, whatever kind of sampler it is: one of the user's own, also one derived from a transformed one."""
    import numpy as np
    from bmi.samplers import BaseSampler, TransformedSampler
    from mc import samplers_ref

    build, dx, dy, mi = samplers_ref.menu()[case["base"]]
    inner = build()
    x0, y0 = arr(inner.sample(4, 3))
    mx, my = maps(dx), maps(dy)

    class Own(BaseSampler):
        """Counts how it is asked."""

        def __init__(self):
            super().__init__(dim_x=dx, dim_y=dy)
            self.asked, self.value = [], 0.25

        def sample(self, n_points, rng):
            self.asked.append((n_points, rng))
            return inner.sample(n_points, rng)

        def mutual_information(self):
            return self.value

    class Mi(TransformedSampler):
        def mutual_information(self):
            return 0.125

    class Twice(TransformedSampler):
        def transform(self, x, y):
            x, y = super().transform(x, y)
            return 2 * x, 2 * y

    class Negated(TransformedSampler):
        def sample(self, n_points, rng):
            x, y = super().sample(n_points, rng)
            return -x, -y

    base_mi = float(inner.mutual_information())
    kinds = {
        "own": (lambda a, b: TransformedSampler(Own(), transform_x=a, transform_y=b), 1.0, 0.25),
        "mi": (lambda a, b: Mi(inner, transform_x=a, transform_y=b), 1.0, 0.125),
        "twice": (lambda a, b: Twice(inner, transform_x=a, transform_y=b), 2.0, base_mi),
        "negated": (lambda a, b: Negated(inner, transform_x=a, transform_y=b), -1.0, base_mi),
    }
    for (kind, (make, factor, want)), a, b, c, e in itertools.product(kinds.items(), ("none", "shift", "flip"), ("none", "asinh"), ("none", "asinh", "flip"), ("none", "shift")):
        t = TransformedSampler(make(mx[a][0], my[b][0]), transform_x=mx[c][0], transform_y=my[e][0])
        d = dict(base=case["base"], kind=kind, maps=(a, b, c, e))
        rep.state()
        rep.trans(3)
        rep.expect(float(t.mutual_information()) == want, "subclass:mi", f"{t.mutual_information()} != {want}", **d)
        agree("subclass:sample", arr(t.sample(4, 3)), (mx[c][1](factor * mx[a][1](x0)), my[e][1](factor * my[b][1](y0))), **d)
        # the maps of the outer sampler only
        agree("subclass:transform", arr(t.transform(np.asarray(x0), np.asarray(y0))), (mx[c][1](x0), my[e][1](y0)), **d)
        rep.outcome((kind, a, b, c, e))
    own = Own()
    t = TransformedSampler(own, transform_x=mx["shift"][0])
    for k, v in enumerate((0.5, 2.0, 0.0)):
        own.value = v
        rep.trans()
        rep.expect(t.mutual_information() == v, "subclass:mi-live", f"{t.mutual_information()} after the base changed to {v}")
        t.sample(2 + k, 70 + k)
    rep.expect(own.asked == [(2, 70), (3, 71), (4, 72)], "subclass:asked", f"{own.asked}")
    rep.trace()
