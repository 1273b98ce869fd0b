"""P16: the ground-truth MI of a distribution with a known answer is that answer."""

import itertools
import math

PROPERTY = "P16"
BOUNDS = {
    "quick": "Gaussian: dims 1..6 x 1..6 x 8 covariances x {7 rescalings, all coordinate permutations up to 4+4 (12 otherwise), "
    "X<->Y swap, 3 means, 5 input types}; 20..300-dimensional covariances; Student with 16 degrees of freedom incl. infinity; "
    "199 correlations; 120 noise widths; 200 alphabet sizes; 100 inflation rates; every concatenation of <=3 of 7 samplers",
    "thorough": "dims up to 9, 24 covariances, concatenations of <=4",
}
ASSUMPTIONS = ["reference values come from canonical correlations, quadrature and series, in double precision"]


def cases(tier):
    deep = tier == "thorough"
    top, salts = (9, 24) if deep else (6, 8)
    out = [{"part": "gauss", "dims": (a, b), "salts": salts} for a in range(1, top + 1) for b in range(1, top + 1)]
    out += [{"part": "large", "n": n, "scale": s} for n in (20, 60, 150, 300) for s in (-8, -3, 0, 3, 8)]
    out += [{"part": "student", "df": d} for d in (0.5, 1, 1.5, 2, 3, 4, 5, 10, 30, 100, 340, 345, 1000, 1e4, 1e5, "inf")]
    out += [{"part": p} for p in ("bivariate", "additive", "discrete", "zip", "simple", "canonical", "near-singular", "input-types")]
    out += [{"part": "concat", "first": i, "depth": 4 if deep else 3} for i in range(7)]
    return out


def run(case, rep):
    globals()["part_" + case["part"].replace("-", "_")](case, rep)
    rep.trace()


def covariances(n, count):
    import numpy as np
    from mc.samplers_ref import cov

    for salt in range(count):
        if salt % 4 == 3:
            # independent coordinates
            yield np.diag([0.5 + (i * 7 + salt) % 5 for i in range(n)])
        elif salt % 4 == 2:
            yield np.eye(n) * 0.4 + 0.6 * np.outer([(-1.0) ** (i * salt) for i in range(n)], [(-1.0) ** (j * salt) for j in range(n)])
        else:
            yield cov(n, salt)


def part_gauss(case, rep):
    import numpy as np
    from bmi.samplers import SplitMultinormal, SplitStudentT
    from mc.samplers_ref import gaussian_mi

    dx, dy = case["dims"]
    n = dx + dy

    def mi(c, a=dx, b=dy, mean=None):
        rep.trans()
        return SplitMultinormal(dim_x=a, dim_y=b, covariance=c, mean=mean).mutual_information()

    for c in covariances(n, case["salts"]):
        rep.state()
        want = gaussian_mi(c, dx)
        got = mi(c)
        rep.close("gauss", got, want, rtol=1e-9, atol=1e-10, dims=(dx, dy), cov=c)
        rep.expect(isinstance(float(got), float) and got >= 0, "gauss:negative", f"{got}", cov=c)
        if not np.any(c[:dx, dx:]):
            rep.expect(abs(got) < 1e-12, "gauss:independent", f"{got}", cov=c)
        else:
            rep.expect(got > 1e-9, "gauss:dependent", f"{got}", cov=c)
        # units do not matter
        for k, d in enumerate(([3.0] * n, [1e-3] * n, [1e4] * n, [10.0 ** ((3 * i) % 5 - 2) for i in range(n)],
                               [-1.0 if i % 2 else 1.0 for i in range(n)], [1e-3] * dx + [1e3] * dy, [0.25 * (i + 1) for i in range(n)])):
            s = np.diag(d)
            rep.close(f"gauss:units", mi(s @ c @ s), want, rtol=1e-7, atol=1e-9, scale=d, cov=c)
        for m in (np.ones(n), np.arange(n) * 1e6, -np.arange(n)):
            rep.close("gauss:mean", mi(c, mean=m), want, rtol=1e-9, atol=1e-10)
        # nor does the order of coordinates inside X or inside Y
        px = list(itertools.permutations(range(dx))) if dx <= 4 else rotations(dx)
        py = list(itertools.permutations(range(dy))) if dy <= 4 else rotations(dy)
        perms = list(itertools.product(px, py))
        step = max(1, len(perms) // 40)
        for a, b in perms[::step]:
            idx = list(a) + [dx + i for i in b]
            rep.close("gauss:permutation", mi(c[np.ix_(idx, idx)]), want, rtol=1e-9, atol=1e-10, perm=idx)
        # symmetric in X and Y
        idx = list(range(dx, n)) + list(range(dx))
        rep.close("gauss:swap", mi(c[np.ix_(idx, idx)], dy, dx), want, rtol=1e-9, atol=1e-10, cov=c)
        # dropping coordinates never increases it (data processing)
        if dx > 1:
            idx = list(range(1, n))
            rep.expect(mi(c[np.ix_(idx, idx)], dx - 1, dy) <= want + 1e-9, "gauss:monotone", "", cov=c)
        # elliptical: same formula plus a term that depends on the dimensions only
        for df in (1, 4):
            rep.trans()
            t = SplitStudentT(dim_x=dx, dim_y=dy, df=df, dispersion=c)
            rep.close("student:normal-part", t.mi_normal(), want, rtol=1e-9, atol=1e-10)
            rep.close("student:sum", t.mutual_information(), student(df, dx, dy) + want, rtol=1e-8, atol=1e-9, df=df, dims=(dx, dy))
        rep.outcome(round(want, 9))


def rotations(n):
    return [tuple((i + k) % n for i in range(n)) for k in range(n)] + [tuple(range(n))[::-1]]


def student(df, dx, dy):
    from mc.samplers_ref import student_correction

    return student_correction(df, dx, dy)


def part_large(case, rep):
    import numpy as np
    from bmi.samplers import SplitMultinormal, SplitStudentT
    from mc.samplers_ref import gaussian_mi

    n, k = case["n"], 10.0 ** case["scale"]
    for dx in (1, n // 2, n - 1):
        for off in (0.0, 0.5, 0.9):
            c = np.eye(n) * (1 - off) + off
            rep.state()
            rep.trans(2)
            want = gaussian_mi(c, dx)
            rep.close("large", SplitMultinormal(dim_x=dx, dim_y=n - dx, covariance=c * k).mutual_information(), want, rtol=1e-6, atol=1e-8,
                      n=n, dx=dx, off=off, scale=k)
            rep.close("large:student", SplitStudentT(dim_x=dx, dim_y=n - dx, dispersion=c * k, df=5).mutual_information(),
                      want + student(5, dx, n - dx), rtol=1e-6, atol=1e-8, n=n, dx=dx)
        c = np.eye(n)
        for i in range(min(dx, n - dx)):
            c[i, dx + i] = c[dx + i, i] = 0.8
        rep.close("large:pairs", SplitMultinormal(dim_x=dx, dim_y=n - dx, covariance=c * k).mutual_information(),
                  -0.5 * min(dx, n - dx) * math.log(1 - 0.64), rtol=1e-6, atol=1e-8, n=n, dx=dx)
        rep.outcome((n, dx))


def part_student(case, rep):
    import numpy as np
    from scipy import integrate, stats
    from bmi.samplers import SplitStudentT

    df = math.inf if case["df"] == "inf" else case["df"]
    for dx, dy in itertools.product((1, 2, 3, 7, 25), repeat=2):
        rep.state()
        rep.trans(3)
        s = SplitStudentT(dim_x=dx, dim_y=dy, df=df, dispersion=np.eye(dx + dy))
        want = student(df, dx, dy)
        tol = 1e-9 + 1e-13 * (0 if math.isinf(df) else df)
        rep.close("student:identity", s.mutual_information(), want, rtol=1e-6, atol=10 * tol, df=df, dims=(dx, dy))
        rep.close("student:correction", s.mi_correction(), want, rtol=1e-6, atol=10 * tol, df=df, dims=(dx, dy))
        rep.close("student:static", SplitStudentT.mi_correction_function(df=df, dim_x=dx, dim_y=dy), want, rtol=1e-6, atol=10 * tol)
        rep.expect(s.mutual_information() >= 0, "student:negative", f"{s.mutual_information()}", df=df, dims=(dx, dy))
        rep.expect(s.df == df, "student:df")
        if df > 2:
            want_c = np.eye(dx + dy) * (1.0 if math.isinf(df) else df / (df - 2))
            rep.close("student:covariance", s.covariance(), want_c, rtol=1e-9)
        else:
            rep.raises("student:covariance-undefined", s.covariance, (ValueError,))
        rep.outcome(round(want, 9))
    # the correction itself, by quadrature in 1+1 dimensions: E[log p(x,y) - log p(x) - log p(y)]
    if not math.isinf(df) and df <= 100:
        def radial(r):
            # expectation over the angle by the trapezoidal rule (spectrally accurate for smooth periodic functions)
            a = np.linspace(0, 2 * np.pi, 4096, endpoint=False)
            lx = stats.t.logpdf(r * np.cos(a), df)
            ly = stats.t.logpdf(r * np.sin(a), df)
            lxy = math.log(1 / (2 * math.pi)) - (df + 2) / 2 * math.log1p(r * r / df)
            return float(np.mean(lxy - lx - ly)) * r * math.exp(-(df + 2) / 2 * math.log1p(r * r / df))

        v = integrate.quad(lambda t: radial(t / (1 - t)) / (1 - t) ** 2, 0, 1, limit=300)[0]
        rep.close("student:quadrature", SplitStudentT(dim_x=1, dim_y=1, df=df, dispersion=np.eye(2)).mutual_information(), v,
                  rtol=2e-4, atol=1e-6, df=df)


def part_bivariate(case, rep):
    import numpy as np
    from bmi.samplers import BivariateNormalSampler, SplitMultinormal

    for i in range(-99, 100):
        r = i / 100
        for sx, sy, mx in ((1, 1, 0), (0.01, 30.0, 5), (2, 0.5, -1)):
            rep.state()
            rep.trans(2)
            s = BivariateNormalSampler(correlation=r, std_x=sx, std_y=sy, mean_x=mx)
            want = -0.5 * math.log(1 - r * r)
            rep.close("bivariate", s.mutual_information(), want, rtol=1e-12, atol=1e-13, r=r)
            rep.expect(s.correlation() == r, "bivariate:correlation", f"{s.correlation()}")
            c = np.array([[sx * sx, r * sx * sy], [r * sx * sy, sy * sy]])
            rep.close("bivariate:general", SplitMultinormal(dim_x=1, dim_y=1, covariance=c).mutual_information(), want, rtol=1e-8, atol=1e-9, r=r)
        rep.outcome(r)


def part_additive(case, rep):
    from bmi.samplers import AdditiveUniformSampler
    from mc.samplers_ref import additive_uniform_mi

    for e in [i / 40 for i in range(1, 100)] + [0.5 - 1e-6, 0.5, 0.5 + 1e-6, 1e-4, 1e-3, 10.0, 100.0, 1, 2, 3]:
        rep.state()
        rep.trans(2)
        want = additive_uniform_mi(e)
        rep.close("additive", AdditiveUniformSampler(epsilon=e).mutual_information(), want, rtol=1e-5, atol=2e-6, eps=e)
        rep.close("additive:function", AdditiveUniformSampler.mutual_information_function(e), want, rtol=1e-5, atol=2e-6, eps=e)
        rep.outcome(e)


def part_discrete(case, rep):
    from bmi.samplers import DiscreteUniformMixtureSampler, MultivariateDiscreteUniformMixtureSampler

    def exact(m):
        # sum over the unit cells of Y of p log(p(y|x)/p(y))
        px, total = 1.0 / m, 0.0
        for k in range(m + 1):
            compatible = [x for x in range(m) if x in (k - 1, k)]
            py = len(compatible) * px * 0.5
            total += sum(px * 0.5 * math.log(0.5 / py) for _ in compatible)
        return total

    for m in range(1, 201):
        for d in (True, False):
            rep.state()
            rep.trans()
            rep.close("discrete", DiscreteUniformMixtureSampler(n_discrete=m, use_discrete_x=d).mutual_information(), exact(m), rtol=2e-6, atol=2e-6, m=m)
        rep.outcome(m)
    for ns in itertools.chain.from_iterable(itertools.product((1, 2, 3, 7), repeat=k) for k in (1, 2, 3)):
        rep.state()
        rep.trans()
        s = MultivariateDiscreteUniformMixtureSampler(ns_discrete=list(ns))
        rep.expect(s.dim_x == s.dim_y == len(ns), "discrete-multi:dims", f"{s.dim_x}")
        rep.close("discrete-multi", s.mutual_information(), sum(map(exact, ns)), rtol=2e-6, atol=3e-6, ns=ns)


def part_zip(case, rep):
    from bmi.samplers import ZeroInflatedPoissonizationSampler
    from mc.samplers_ref import zip_mi

    for i in list(range(100)) + [99.9]:
        p = i / 100
        want = zip_mi(p)
        for d in (True, False):
            rep.state()
            rep.trans(3)
            s = ZeroInflatedPoissonizationSampler(p=p, use_discrete_y=d)
            rep.close("zip:approximation", s.mutual_information(), want, rtol=0, atol=1e-4, p=p)
            for t in (40, 200):
                rep.close("zip:series", s.mutual_information(truncation=t), want, rtol=0, atol=2e-6, p=p, truncation=t)
            rep.expect(s.mutual_information() >= -1e-12, "zip:negative", f"{s.mutual_information()}", p=p)
        rep.outcome(round(want, 7))


def part_simple(case, rep):
    """Documented worked examples."""
    from bmi.samplers import BivariateNormalSampler, IndependentConcatenationSampler, SplitMultinormal

    rep.state()
    rep.trans(3)
    rep.close("doc", SplitMultinormal(dim_x=1, dim_y=1, covariance=[[1.0, 0.6], [0.6, 1.0]]).mutual_information(), -0.5 * math.log(0.64), rtol=1e-12)
    rep.close("doc", SplitMultinormal(dim_x=2, dim_y=1, covariance=[[1, 0, 0.5], [0, 1, 0.5], [0.5, 0.5, 1]]).mutual_information(),
              -0.5 * math.log(0.5), rtol=1e-12)
    two = IndependentConcatenationSampler([BivariateNormalSampler(0.6), BivariateNormalSampler(0.6)])
    rep.close("doc", two.mutual_information(), -math.log(0.64), rtol=1e-6)


def part_canonical(case, rep):
    import numpy as np
    from bmi.samplers import SplitMultinormal, canonical_correlation

    for k in (1, 2, 3):
        for rho in itertools.product((-0.9, 0.0, 0.3, 0.99), repeat=k):
            for extra in (0, 1, 3):
                rep.state()
                rep.trans()
                c = canonical_correlation(list(rho), additional_y=extra)
                want = sum(-0.5 * math.log(1 - r * r) for r in rho)
                got = SplitMultinormal(dim_x=k, dim_y=k + extra, covariance=c).mutual_information()
                rep.close("canonical", got, want, rtol=1e-8, atol=1e-10, rho=rho, extra=extra)
                rep.outcome(round(want, 9))
                # rotating within X and within Y does not matter
                a = np.linalg.qr(np.arange(1, k * k + 1).reshape(k, k) ** 1.3 + np.eye(k))[0]
                m = k + extra
                b = np.linalg.qr(np.arange(1, m * m + 1).reshape(m, m) ** 0.7 + np.eye(m))[0]
                t = np.block([[a, np.zeros((k, m))], [np.zeros((m, k)), b]])
                c2 = t @ c @ t.T
                rep.close("canonical:rotated", SplitMultinormal(dim_x=k, dim_y=m, covariance=(c2 + c2.T) / 2).mutual_information(), want,
                          rtol=1e-7, atol=1e-9, rho=rho)


def part_near_singular(case, rep):
    import numpy as np
    from bmi.samplers import SplitMultinormal

    for e in range(1, 9):
        r = 1 - 10.0**-e
        for dx in (1, 2, 3):
            c = np.eye(2 * dx)
            for i in range(dx):
                c[i, dx + i] = c[dx + i, i] = r
            rep.state()
            rep.trans()
            rep.close("near-singular", SplitMultinormal(dim_x=dx, dim_y=dx, covariance=c).mutual_information(),
                      -0.5 * dx * math.log((1 - r) * (1 + r)), rtol=1e-6, r=r)
        rep.outcome(e)


def part_input_types(case, rep):
    """Lists, tuples, single precision and JAX arrays describe the same distribution; the caller's arrays stay his own."""
    import jax.numpy as jnp
    import numpy as np
    from bmi.samplers import SplitMultinormal, SplitStudentT
    from mc.samplers_ref import cov, gaussian_mi

    for dx, dy in ((1, 1), (2, 1), (2, 3)):
        c = cov(dx + dy, 1)
        want = gaussian_mi(c, dx)
        for kind, cast in (("list", lambda a: a.tolist()), ("tuple", lambda a: tuple(map(tuple, a.tolist()))), ("float32", lambda a: a.astype(np.float32)),
                           ("jax", jnp.asarray), ("fortran", np.asfortranarray), ("view", lambda a: np.kron(a, np.ones((2, 2)))[::2, ::2])):
            rep.state()
            rep.trans(2)
            v = cast(c)
            rep.close(f"types:{kind}", SplitMultinormal(dim_x=dx, dim_y=dy, covariance=v).mutual_information(), want, rtol=1e-4, atol=1e-5)
            rep.close(f"types:student-{kind}", SplitStudentT(dim_x=dx, dim_y=dy, df=3, dispersion=v).mutual_information(), want + student(3, dx, dy),
                      rtol=1e-4, atol=1e-5)
            rep.outcome(kind)
        v, m = c.copy(), np.ones(dx + dy)
        for build in (lambda: SplitMultinormal(dim_x=dx, dim_y=dy, covariance=v, mean=m),):
            v[:], m[:] = c, 1.0
            s = build()
            first = [np.asarray(a) for a in s.sample(4, 3)]
            v *= 9.0
            m += 100.0
            again = [np.asarray(a) for a in s.sample(4, 3)]
            rep.expect(all(np.array_equal(a, b) for a, b in zip(first, again)), "types:aliased", "changing the caller's array changed the sampler")
            rep.close("types:aliased-mi", s.mutual_information(), want, rtol=1e-9)


def part_concat(case, rep):
    """MI of independent blocks is the sum, whatever the blocks and their order."""
    import bmi.samplers as s
    from mc.samplers_ref import additive_uniform_mi, cov, gaussian_mi, zip_mi

    c = cov(3, 1)
    menu = [
        (lambda: s.BivariateNormalSampler(0.7), -0.5 * math.log(0.51), 1, 1),
        (lambda: s.SplitMultinormal(dim_x=1, dim_y=2, covariance=c), gaussian_mi(c, 1), 1, 2),
        (lambda: s.AdditiveUniformSampler(0.2), additive_uniform_mi(0.2), 1, 1),
        (lambda: s.SplitStudentT(dim_x=2, dim_y=1, df=2, dispersion=c), gaussian_mi(c, 2) + student(2, 2, 1), 2, 1),
        (lambda: s.DiscreteUniformMixtureSampler(n_discrete=4), math.log(4) - 0.75 * math.log(2), 1, 1),
        (lambda: s.ZeroInflatedPoissonizationSampler(0.5), zip_mi(0.5), 1, 1),
        (lambda: s.BivariateNormalSampler(0.0), 0.0, 1, 1),
    ]
    for depth in range(1, case["depth"] + 1):
        for tail in itertools.product(range(7), repeat=depth - 1):
            seq = (case["first"],) + tail
            rep.state()
            rep.trans()
            t = s.IndependentConcatenationSampler([menu[i][0]() for i in seq])
            dims = sum(menu[i][2] for i in seq), sum(menu[i][3] for i in seq)
            rep.expect((t.dim_x, t.dim_y) == dims, "concat:dims", f"{t.dim_x},{t.dim_y} != {dims}", blocks=seq)
            want = sum(menu[i][1] for i in seq)
            rep.close("concat:mi", t.mutual_information(), want, rtol=1e-5, atol=1.5e-4 * depth, blocks=seq)
            if depth <= 2:
                x, y = t.sample(5, 1)
                rep.expect((x.shape, y.shape) == ((5, dims[0]), (5, dims[1])), "concat:shape", f"{x.shape}, {y.shape}", blocks=seq)
            rep.outcome(round(want, 6))
            # the same object may be given several times
            objs = {i: menu[i][0]() for i in set(seq)}
            t = s.IndependentConcatenationSampler([objs[i] for i in seq])
            rep.close("concat:shared-block", t.mutual_information(), want, rtol=1e-5, atol=1.5e-4 * depth, blocks=seq)
    # nested concatenation is concatenation
    t = s.IndependentConcatenationSampler([s.IndependentConcatenationSampler([menu[case["first"]][0](), menu[0][0]()]), menu[1][0]()])
    rep.close("concat:nested", t.mutual_information(), menu[case["first"]][1] + menu[0][1] + menu[1][1], rtol=1e-5, atol=5e-4)
