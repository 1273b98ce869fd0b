"""P14: samplers are pure functions of (parameters, n_points, seed) returning paired samples of the declared shape."""

import itertools

PROPERTY = "P14"
BOUNDS = {
    "quick": "every sampler family (44 configurations) x n_points in {1,2,3,17,100,1001,4096} x up to 8 seeds x 4 ways to pass a seed; every "
    "sequence of <=3 interleaved operations (sample/MI/other instance/global RNG use) before the observed sample "
    "(TFP-based samplers: 2 seeds, sequences of <=2, Student mixtures <=1)",
    "thorough": "sequences of <=4 operations (TFP-based: <=3)",
}
ASSUMPTIONS = ["a JAX key and the integer seed it is made from need not agree for samplers that are not written in JAX"]


def names():
    from mc import samplers_ref

    return list(samplers_ref.menu())


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in names():
        # TFP-based samplers are retraced on every call (up to 0.25 s)
        depth = 3 if deep else 2 if n.startswith(("bmm-normal", "mixture")) else 1
        if not n.startswith(("bmm", "mixture")):
            depth = 4 if deep else 3
        out.append({"name": n, "depth": depth})
    return out


def run(case, rep):
    import jax
    import numpy as np
    from mc import samplers_ref

    build, dx, dy, mi = samplers_ref.menu()[case["name"]]
    name = case["name"]
    s = build()
    rep.expect(s.dim_x == dx and s.dim_y == dy, "dims", f"dim_x={s.dim_x}, dim_y={s.dim_y}, expected {dx}, {dy}", sampler=name)
    rep.expect(getattr(s, "dim_total", dx + dy) == dx + dy, "dims:total", f"{getattr(s, 'dim_total', None)}", sampler=name)

    def draw(sampler, n, rng):
        x, y = sampler.sample(n, rng)
        return np.asarray(x), np.asarray(y)

    def same(a, b):
        return all(np.array_equal(p, q) and p.dtype == q.dtype for p, q in zip(a, b))

    # shapes, finiteness, determinism, dependence on the seed
    seen = {}
    slow = name.startswith(("bmm", "mixture")) and rep.tier == "quick"
    for n, seed in itertools.product((1, 17) if slow else (1, 2, 3, 17), (0, 7) if slow else (0, 1, 7, 2**31 - 1)):
        forms = {"int": seed, "np.int64": np.int64(seed), "np.int32": np.int32(seed), "key": jax.random.PRNGKey(seed)}
        ref = {}
        for form, rng in forms.items():
            rep.state()
            rep.trans()
            x, y = draw(s, n, rng)
            rep.expect(x.shape == (n, dx) and y.shape == (n, dy), "shape", f"{x.shape}, {y.shape}", sampler=name, n=n, seed=seed, form=form)
            rep.expect(np.isfinite(x).all() and np.isfinite(y).all(), "finite", "", sampler=name, n=n, seed=seed)
            ref[form] = (x, y)
            again = draw(build(), n, rng)
            rep.expect(same(ref[form], again), "determinism", "a second instance gave another sample", sampler=name, n=n, form=form)
        rep.expect(same(ref["int"], ref["np.int64"]) and same(ref["int"], ref["np.int32"]), "seed:integer-types", "", sampler=name, n=n, seed=seed)
        if n == 17:
            k = (ref["int"][0].tobytes(), ref["int"][1].tobytes())
            rep.expect(k not in seen, "seed:ignored", f"seeds {seen.get(k)} and {seed} give the same sample", sampler=name)
            seen[k] = seed
            for col in np.hstack([ref["int"][0], ref["int"][1]]).T:
                if name != "discrete-1-True" and name != "discrete-1-False":
                    rep.expect(len(set(col.tolist())) > 1, "constant-column", "", sampler=name, seed=seed)
            rep.outcome((name, seed, float(np.sum(ref["int"][0]))))
    for seed in (2**16, 2**16 + 1, 2**16 + 7, 2**31 - 2) if not slow else (2**16, 2**16 + 7):
        rep.state()
        rep.trans()
        x, y = draw(s, 17, seed)
        k = (x.tobytes(), y.tobytes())
        rep.expect(k not in seen, "seed:ignored", f"seeds {seen.get(k)} and {seed} give the same sample", sampler=name)
        seen[k] = seed
    for n in (100, 1001, 4096) if not slow else (1001,):
        rep.state()
        rep.trans(2)
        first, second = draw(s, n, 3), draw(build(), n, 3)
        rep.expect(first[0].shape == (n, dx) and first[1].shape == (n, dy), "shape", f"{first[0].shape}, {first[1].shape}", sampler=name, n=n)
        rep.expect(np.isfinite(first[0]).all() and np.isfinite(first[1]).all(), "finite", "", sampler=name, n=n)
        rep.expect(same(first, second), "determinism", "a second instance gave another sample", sampler=name, n=n)
        if not name.startswith("discrete"):
            rows = {r.tobytes() for r in np.hstack([first[0].astype(float), first[1].astype(float)])}
            rep.expect(len(rows) > 0.9 * n, "repeated-points", f"{len(rows)} different points among {n}", sampler=name)
    rep.raises("seed:keyword", lambda: s.sample(n_points=3))  # a seed is always explicit
    # keyword form is the documented one
    rep.expect(same(draw(s, 3, 5), tuple(map(np.asarray, s.sample(n_points=3, rng=5)))), "keyword-call")

    # history independence
    other = build()
    ops = {
        "same-long": lambda: s.sample(17, 42),
        "same-short": lambda: s.sample(2, 42),
        "s3": lambda: s.sample(3, 11),
        "s17": lambda: s.sample(17, 0),
        "key": lambda: s.sample(2, jax.random.PRNGKey(3)),
        "mi": lambda: s.mutual_information(),
        "other": lambda: other.sample(4, 1),
        "global": lambda: (np.random.seed(4), np.random.normal(size=3)),
    }
    s = build()
    want = draw(s, 5, 42)
    want_key = draw(s, 5, jax.random.PRNGKey(9))
    want_mi = float(build().mutual_information())
    mi_ref = None if mi is None else mi
    for depth in range(1, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=depth):
            if depth == case["depth"] and len(set(seq)) < depth:
                continue
            s = build() if depth < 3 else s
            for op in seq:
                ops[op]()
                rep.trans()
            rep.state()
            state = np.random.get_state()[1].tobytes() if depth == 1 else None
            if not same(draw(s, 5, 42), want):
                rep.fail("history:sample", "the sample depends on what was called before", sampler=name, history=seq)
            if depth < 3:
                rep.expect(same(draw(s, 5, jax.random.PRNGKey(9)), want_key), "history:key", "", sampler=name, history=seq)
                rep.expect(float(s.mutual_information()) == want_mi, "history:mi", f"{s.mutual_information()} != {want_mi}", sampler=name, history=seq)
            if state is not None:
                rep.expect(np.random.get_state()[1].tobytes() == state, "global-rng", "global random state was consumed", sampler=name)
        rep.trace()
    if mi_ref is not None:
        rep.close("mi", want_mi, mi_ref, rtol=3e-5, atol=1e-4, sampler=name)
    rep.expect(want_mi >= 0, "mi:negative", f"{want_mi}", sampler=name)
    # what is returned is the caller's own: writing into it changes no later sample
    got = s.sample(5, 42)
    for a in got:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 0
    rep.expect(same(draw(s, 5, 42), want), "repeat", "writing into a returned sample changed the next one", sampler=name)
    rep.expect(same(draw(s, 5, 42), want), "repeat")
