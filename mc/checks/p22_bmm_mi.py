"""P22: PMI profile, Monte Carlo MI and the sampler wrapped around a Bend and Mix Model."""

import itertools
import math

PROPERTY = "P22"
BOUNDS = {
    "quick": "every PMI table of length <=4 over 5 values through a scripted distribution (profile, mean, standard error, wrapped ground "
    "truth), every table of 3 over 12 values up to +-3000; 27 sizes up to 33333 with one outstanding point in 8 places; 8 real distributions x 2 keys x 2 sizes against a reference density; every sequence of <=3 operations over "
    "{sample, other sample, MI, MI of a twin, global RNG} on a wrapped model",
    "thorough": "tables of length <=6, sequences of <=4",
}
ASSUMPTIONS = ["single precision: averages compared at 1e-4 relative"]
VALUES = (-1.5, -0.25, 0.0, 0.75, 3.0)


def cases(tier):
    top = 6 if tier == "thorough" else 4
    out = [{"part": "script", "n": n, "first": i} for n in range(1, top + 1) for i in range(len(VALUES))]
    out += [{"part": "real", "which": w} for w in range(8)]
    out += [{"part": "history", "first": i, "depth": 4 if tier == "thorough" else 3} for i in range(len(OPS))]
    out += [{"part": "sizes", "n": n} for n in SIZES]
    out += [{"part": "given"}, {"part": "extreme"}]
    return out

SIZES = (7, 63, 64, 65, 99, 100, 101, 128, 129, 255, 257, 511, 999, 1000, 1001, 1023, 1025, 1500, 1999, 2048, 2500, 4095, 5000, 9999, 10001, 16385, 33333, 65537, 100000, 100001, 131073, 200000, 262145)


class Scripted:
    """Looks like a TFP distribution; records how it is called."""

    def __init__(self, table, dim, calls, which):
        self.table, self.dim, self.calls, self.which = table, dim, calls, which

    def sample(self, seed=None, sample_shape=(), **kw):
        import jax.numpy as jnp

        self.calls.append(("sample", tuple(map(int, sample_shape)), tuple(int(v) for v in seed)))
        n = sample_shape[0]
        return jnp.asarray([[i + 1e6 * j for j in range(self.dim)] for i in range(n)])

    def log_prob(self, x):
        import jax.numpy as jnp
        import numpy as np

        x = np.asarray(x)
        self.calls.append((self.which, x.shape, float(x[:, 0].min()), float(x.sum())))
        return jnp.asarray([self.table[int(v) % 1000000] for v in x[:, 0]])


def scripted(table, dx, dy, calls):
    from bmi.samplers import bmm

    n = len(table)
    lx, ly = [0.5 * i - 1 for i in range(n)], [2.0 - i for i in range(n)]
    lj = [t + a + b for t, a, b in zip(table, lx, ly)]
    return bmm.JointDistribution(
        dist_joint=Scripted(lj, dx + dy, calls, "joint"), dist_x=Scripted(lx, dx, calls, "x"), dist_y=Scripted(ly, dy, calls, "y"), dim_x=dx, dim_y=dy
    )


def part_script(case, rep):
    import jax
    from bmi.samplers import bmm

    n = case["n"]
    key = jax.random.PRNGKey(11)
    k = tuple(int(v) for v in key)
    dx, dy = 1 + n % 2, 1 + case["first"] % 2
    for tail in itertools.product(VALUES, repeat=n - 1):
        table = (VALUES[case["first"]],) + tail
        calls = []
        dist = scripted(table, dx, dy, calls)
        rep.state()
        rep.trans(3)
        prof = bmm.pmi_profile(key=key, dist=dist, n=n)
        rep.close("profile", prof, table, atol=1e-5)
        rep.expect(calls[0] == ("sample", (n,), k) and [c[0] for c in calls].count("sample") == 1, "profile:sample", f"{calls}")
        mean = sum(table) / n
        std = math.sqrt(sum((t - mean) ** 2 for t in table) / n)
        del calls[:]
        mi, err = bmm.monte_carlo_mi_estimate(key=key, dist=dist, n=n)
        rep.close("mc:mean", mi, mean, rtol=1e-5, atol=1e-5, table=table)
        # either convention for the standard deviation
        alt = std * math.sqrt(n / (n - 1)) if n > 1 else std
        rep.expect(any(abs(float(err) - s / math.sqrt(n)) < 1e-5 * (1 + s) for s in (std, alt)), "mc:stderr", f"{err} for {table}")
        rep.expect(calls[0] == ("sample", (n,), k), "mc:sample", f"{calls[0]}")
        s = bmm.BMMSampler(dist, mi_estimate_seed=11, mi_estimate_sample=n)
        del calls[:]
        got = [float(s.mutual_information()) for _ in range(3)]
        rep.close("wrapped", got, [max(mean, 0.0)] * 3, rtol=1e-5, atol=1e-5, table=table)
        rep.expect(len([c for c in calls if c[0] == "sample"]) >= 1 and all(c == ("sample", (n,), k) for c in calls if c[0] == "sample"), "wrapped:sample", f"{calls}")
        rep.expect((s.dim_x, s.dim_y) == (dx, dy), "wrapped:dims")
        rep.outcome((table, round(mean, 4)))
    rep.trace()


def part_extreme(case, rep):
    """Profiles with values of any size and sign are passed on, and averaged, as they are."""
    import jax
    from bmi.samplers import bmm

    key = jax.random.PRNGKey(2)
    for a, b, c in itertools.product(EXTREME, repeat=3):
        table = (a, b, c)
        dist = scripted(table, 1, 1, [])
        rep.state()
        rep.trans(3)
        size = max(1.0, *map(abs, table))
        rep.close("extreme:profile", bmm.pmi_profile(key=key, dist=dist, n=3), table, atol=1e-5 * size)
        mi, err = bmm.monte_carlo_mi_estimate(key=key, dist=dist, n=3)
        mean = sum(table) / 3
        std = math.sqrt(sum((t - mean) ** 2 for t in table) / 3)
        rep.close("extreme:mean", mi, mean, rtol=1e-4, atol=1e-5 * size, table=table)
        rep.expect(any(abs(float(err) - s / math.sqrt(3)) < 1e-4 * size for s in (std, std * math.sqrt(1.5))), "extreme:stderr", f"{err} for {table}")
        rep.close("extreme:wrapped", bmm.BMMSampler(dist, mi_estimate_sample=3).mutual_information(), max(mean, 0.0), rtol=1e-4, atol=1e-5 * size, table=table)
        rep.outcome(table)
    rep.trace()


EXTREME = (-3000.0, -150.0, -60.0, -25.0, -12.0, -5.0, 1e-4, 6.0, 18.0, 40.0, 95.0, 2000.0)


def part_sizes(case, rep):
    """Every point counts, and counts the same, however many there are: one stands out, in turn at each sensitive place."""
    import jax
    from bmi.samplers import bmm

    n = case["n"]
    places = {0, n // 2, n - 1} if n > 50_000 else {0, 1, n // 2, n // 10, 999 % n, 1000 % n, n - 2, n - 1}
    for where in sorted(places):
        table = [0.5] * n
        table[where] = 0.5 + 3.0 * n
        dist = scripted(tuple(table), 1, 2, [])
        key = jax.random.PRNGKey(1)
        rep.state()
        rep.trans(3)
        prof = bmm.pmi_profile(key=key, dist=dist, n=n)
        rep.expect(prof.shape == (n,), "sizes:profile", f"{prof.shape}", n=n)
        mi, err = bmm.monte_carlo_mi_estimate(key=key, dist=dist, n=n)
        rep.close("sizes:mean", mi, 3.5, rtol=1e-3, atol=1e-3, n=n, where=where)
        rep.close("sizes:stderr", err, 3.0 * math.sqrt(1 - 1 / n), rtol=0.6 / n + 1e-3, atol=1e-3, n=n, where=where)
        rep.close("sizes:wrapped", bmm.BMMSampler(dist, mi_estimate_sample=n).mutual_information(), 3.5, rtol=1e-3, atol=1e-3, n=n)
        rep.outcome((n, where))
    rep.trace()


def dists():
    from mc.checks import p21_bmm as p

    n11, s21, pr = p.leaf("normal-mean", 1, 1, 1), p.leaf("student-3", 2, 1, 0), p.leaf("product", 1, 2, 0)
    m = p.mix((0.3, 0.7), [p.leaf("normal", 1, 1, 0), n11])
    return [
        n11, s21, pr, m, p.bend(n11, "sinh", "affine"), p.bend(m, "affine", "sas"),
        p.mix((0.2, 0.8), [p.leaf("student-3", 2, 1, 1), p.leaf("normal", 2, 1, 2)]), p.leaf("student-8-mean", 2, 3, 1),
    ]


def part_real(case, rep):
    import jax
    import numpy as np
    from bmi.samplers import bmm

    dist, ref = dists()[case["which"]]
    thorough = rep.tier == "thorough"
    for seed in (0, 1, 77) if thorough else (0, 77):
        for n in (1, 2, 50, 301) if thorough else (1, 60):
            key = jax.random.PRNGKey(seed)
            x, y = (np.asarray(v, dtype=float) for v in dist.sample(n, key))
            want = ref.joint(x, y) - ref.x(x) - ref.y(y)
            rep.state()
            rep.trans(3)
            d = dict(which=case["which"], seed=seed, n=n)
            prof = np.asarray(bmm.pmi_profile(key=key, dist=dist, n=n), dtype=float)
            rep.close("real:profile", prof, want, rtol=1e-3, atol=5e-3, **d)
            mi, err = bmm.monte_carlo_mi_estimate(key=key, dist=dist, n=n)
            rep.close("real:mean", mi, prof.mean(), rtol=1e-4, atol=1e-4, **d)
            if n >= 50:
                rep.close("real:stderr", err, prof.std() / np.sqrt(n), rtol=2e-2, atol=1e-6, **d)
            for form in (seed, key) if n < 50 or thorough else (seed,):
                s = bmm.BMMSampler(dist, mi_estimate_seed=form, mi_estimate_sample=n)
                rep.close("real:wrapped", s.mutual_information(), max(prof.mean(), 0.0), rtol=1e-4, atol=1e-4, **d)
            rep.outcome(tuple(np.round(prof[:2], 3)))
            got = bmm.BMMSampler(dist).sample(n, seed)
            rep.close("real:sample", np.hstack([np.asarray(a) for a in got]), np.hstack([x, y]), rtol=1e-6, atol=1e-6)
    # defaults: seed 0 and 200000 points, judged against the exact answer where there is one
    if ref.mi is not None and case["which"] in (0, 2):
        s = bmm.BMMSampler(dist)
        rep.close("real:default", s.mutual_information(), ref.mi, rtol=0, atol=0.02, which=case["which"])
    rep.trace()


OPS = ["sample", "sample2", "mi", "twin-mi", "global", "other-mi"]


def part_history(case, rep):
    import jax
    import numpy as np
    from bmi.samplers import bmm
    from mc.checks import p21_bmm as p

    dist, ref = p.leaf("normal-mean", 1, 1, 1)
    other, _ = p.leaf("normal", 1, 1, 2)
    mk = lambda d=dist, seed=3, n=20: bmm.BMMSampler(d, mi_estimate_seed=seed, mi_estimate_sample=n)
    first = mk()
    mi0, s0, s1 = float(first.mutual_information()), hstack(first.sample(3, 5)), hstack(first.sample(2, jax.random.PRNGKey(8)))
    o0 = float(mk(other).mutual_information())
    rep.expect(o0 != mi0, "harness:distinct")
    for depth in range(1, case["depth"] + 1):
        # quick enough: only orders in which the observed operation is last are compared twice
        for tail in itertools.product(OPS, repeat=depth - 1):
            if depth == case["depth"] and len(set(tail)) < depth - 2:
                continue
            seq = (OPS[case["first"]],) + tail
            s, t, o = mk(), mk(), mk(other)
            rep.state()
            for op in seq:
                rep.trans()
                if op == "sample":
                    rep.close("history:sample", hstack(s.sample(3, 5)), s0, sequence=seq)
                elif op == "sample2":
                    rep.close("history:sample2", hstack(s.sample(2, jax.random.PRNGKey(8))), s1, sequence=seq)
                elif op == "mi":
                    rep.close("history:mi", float(s.mutual_information()), mi0, sequence=seq)
                elif op == "twin-mi":
                    rep.close("history:twin", float(t.mutual_information()), mi0, sequence=seq)
                elif op == "other-mi":
                    rep.close("history:other", float(o.mutual_information()), o0, sequence=seq)
                else:
                    np.random.seed(len(seq))
                    np.random.rand()
            rep.trace()
            rep.outcome(seq)


def hstack(p):
    import numpy as np

    return np.hstack([np.asarray(a, dtype=float) for a in p])


def part_given(case, rep):
    from bmi.benchmark import Task
    from bmi.samplers import bmm

    for given in (0.0, 0.25, 1.0, 7.5):
        calls = []
        dist = scripted((1.0, 2.0), 1, 1, calls)
        for kw in ({}, {"mi_estimate_seed": 4}, {"mi_estimate_sample": 2}):
            s = bmm.BMMSampler(dist, mi=given, **kw)
            rep.state()
            rep.trans(2)
            rep.expect([float(s.mutual_information()) for _ in range(2)] == [given] * 2, "given", f"{s.mutual_information()} instead of {given}")
            rep.expect(not calls, "given:sampled", f"{calls}")
            t = Task(sampler=s, task_id="a", task_name="b")
            rep.expect(t.mutual_information == given and t.dim_x == 1, "given:task", f"{t.metadata}")
            rep.outcome((given, tuple(kw)))
    for table in ((-1.0, -2.0), (-0.5, 0.25), (0.5, -0.5)):
        s = bmm.BMMSampler(scripted(table, 2, 1, []), mi_estimate_sample=2)
        t = Task(sampler=s, task_id="a", task_name="b")
        rep.trans()
        rep.close("nonnegative:task", t.mutual_information, max(sum(table) / 2, 0.0), atol=1e-6)
    for bad in (0, -1, -5):
        rep.trans()
        rep.raises("refuse:sample-size", lambda: bmm.BMMSampler(scripted((1.0,), 1, 1, []), mi_estimate_sample=bad), (ValueError,), f"{bad}")
    rep.trace()


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
