"""P33: what was built stays as it was built.

Every object is driven through all sequences of "writes from outside" up to a depth: in-place changes
of every array, list or dictionary the caller handed to the constructor (or holds a view of), in-place
changes of everything the object returned, and ordinary calls.  After every prefix all its observable
results are compared, bit for bit, with those of an object built from untouched inputs.
"""

import itertools

PROPERTY = "P33"
BOUNDS = {
    "quick": "25 kinds of object (samplers, fine distributions, mixtures, transforms, estimators, tasks, matrix builders) x up to 6 forms of "
    "array (float64, float32 at a 64-byte boundary, Fortran, view of a larger buffer, list, jax) x every sequence of <=2 writes (overwrite an "
    "input, extend/empty a list, overwrite a result) interleaved with calls (TFP-based: 1 write); estimators and maps: every sequence of <=3 "
    "of (refill the buffer with A/B, call, overwrite the result)",
    "thorough": "sequences of <=3 writes (TFP-based: <=2); refill sequences of <=5",
}
ASSUMPTIONS = [
    "attributes whose name starts with an underscore, and the parameter records returned by parameters(), belong to the object and are not written to",
    "component samplers/distributions, once handed over, are shared and are themselves subjects of the check",
]

FORMS = ("f8", "f4al", "fortran", "view", "list", "jax")


# ------------------------------------------------------------------ array forms
def aligned(values):
    """float32 array whose memory starts at a 64-byte boundary: JAX may adopt such memory without a copy."""
    import numpy as np

    v = np.asarray(values, dtype=np.float32)
    raw = np.empty(v.size + 64, dtype=np.float32)
    off = (-raw.ctypes.data % 64) // 4
    out = raw[off : off + v.size].reshape(v.shape)
    out[...] = v
    return out


def make(values, form):
    import numpy as np

    v = np.array(values, dtype=float)
    if form == "f8":
        return v
    if form == "f4al":
        return aligned(v)
    if form == "fortran":
        return np.asfortranarray(v)
    if form == "view":
        wide = np.full(tuple(d + 2 for d in v.shape), 3.25)
        sub = wide[tuple(slice(1, -1) for _ in v.shape)]
        sub[...] = v
        return sub
    if form == "list":
        return v.tolist()
    if form == "jax":
        import jax.numpy as jnp

        return jnp.asarray(v)
    raise AssertionError(form)


def snapshot(value):
    """Bit-exact description of a result or an input."""
    import numpy as np

    if isinstance(value, dict):
        return ("dict", tuple((k, snapshot(v)) for k, v in value.items()))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, tuple(snapshot(v) for v in value))
    if hasattr(value, "dict") and callable(value.dict) and not hasattr(value, "shape"):
        return ("model", snapshot(value.dict()))
    if hasattr(value, "shape"):
        a = np.asarray(value)
        return ("array", str(a.dtype), a.shape, a.tobytes())
    if value is None or isinstance(value, (bool, int, float, str)):
        return (type(value).__name__, repr(value))
    return ("object", type(value).__name__)


def scribble(value, how):
    """Overwrites in place.  Returns False if there was nothing to write into."""
    import numpy as np

    if isinstance(value, np.ndarray):
        if not value.flags.writeable:
            return False
        value[...] = 7.5 if how == "fill" else -0.5 * value[::-1] - 1
        return True
    if isinstance(value, list):
        if value and all(isinstance(v, (list, np.ndarray, dict)) for v in value):
            return any([scribble(v, how) for v in value])
        if how == "fill":
            value[:] = value[:1] * (len(value) + 1)
        else:
            del value[:]
        return True
    if isinstance(value, dict):
        nested = [scribble(v, how) for v in value.values() if isinstance(v, (list, dict, np.ndarray))]
        if how == "fill":
            value["zzz"] = 1
        else:
            value.clear()
        return True or nested
    if isinstance(value, tuple):
        return any([scribble(v, how) for v in value])
    if hasattr(value, "additional_information"):
        return scribble(value.additional_information, how)
    return False


# ------------------------------------------------------------------ subjects
def subjects():
    """name -> (args(form) -> dict of inputs, build(args) -> object, {observer: f(object)}, slow, forms)."""
    import numpy as np
    from mc.samplers_ref import Lazy, cov

    s, bmm, tr = Lazy("bmi.samplers"), Lazy("bmi.samplers", "bmm"), Lazy("bmi.transforms")
    est = Lazy("bmi.estimators")
    jr, jnp = Lazy("jax.random"), Lazy("jax.numpy")
    out = {}

    def add(name, args, build, observe, slow=False, forms=FORMS):
        out[name] = (args, build, observe, slow, forms)

    sampler = {"sample": lambda o: o.sample(4, 3), "mi": lambda o: float(o.mutual_information()), "dims": lambda o: (o.dim_x, o.dim_y)}
    mean3, c3 = np.array([1.0, -2.0, 0.5]), cov(3, 1)
    par = lambda form: {"mean": make(mean3, form), "matrix": make(c3, form)}  # noqa: E731

    def sub(args, names):
        return {n: args[n] for n in names}

    add("SplitMultinormal", par, lambda a: s.SplitMultinormal(dim_x=1, dim_y=2, mean=a["mean"], covariance=a["matrix"]), sampler)
    for df in (3, float("inf")):
        add(f"SplitStudentT-{df}", par, lambda a, df=df: s.SplitStudentT(dim_x=1, dim_y=2, df=df, mean=a["mean"], dispersion=a["matrix"]),
            dict(sampler, covariance=lambda o: o.covariance(), correction=lambda o: (o.mi_normal(), o.mi_correction())))
    add("MultivariateDiscrete", lambda f: {"ns": [3, 2]}, lambda a: s.MultivariateDiscreteUniformMixtureSampler(ns_discrete=a["ns"]), sampler,
        forms=("list",))
    add("Concatenation", lambda f: {"parts": [s.BivariateNormalSampler(correlation=0.5), s.AdditiveUniformSampler(epsilon=0.25)]},
        lambda a: s.IndependentConcatenationSampler(a["parts"]), sampler, forms=("list",))
    add("Concatenation-parts", par, lambda a: s.IndependentConcatenationSampler(samplers=[
        s.SplitStudentT(dim_x=1, dim_y=2, df=3, mean=a["mean"], dispersion=a["matrix"]),
        s.SplitMultinormal(dim_x=2, dim_y=1, mean=a["mean"], covariance=a["matrix"])]), sampler)
    add("Bivariate", lambda f: {"r": make([0.25], f)}, lambda a: s.BivariateNormalSampler(correlation=a["r"][0], std_x=2.0),
        dict(sampler, correlation=lambda o: float(o.correlation())), forms=("f8", "f4al"))
    add("Transformed", lambda f: dict(par(f), generator=make([[0, -1.0], [1, 0]], f), initial=make([[0.6, 0.8], [-0.8, 0.6]], f)),
        lambda a: s.TransformedSampler(s.SplitStudentT(dim_x=1, dim_y=2, df=3, mean=a["mean"], dispersion=a["matrix"]),
                                       transform_y=tr.Spiral(np.asarray(a["generator"]), initial=a["initial"])), sampler)

    # fine distributions
    key = lambda: jr.PRNGKey(5)  # noqa: E731
    pts = [[0.5], [-1.0]], [[0.25, 1.0], [2.0, -0.5]]
    fine = {
        "sample": lambda o: o.sample(3, key()),
        "pmi": lambda o: o.pmi(jnp.array(pts[0]), jnp.array(pts[1])),
        "analytic": lambda o: None if o.analytic_mi is None else float(o.analytic_mi),
        "dims": lambda o: (o.dim_x, o.dim_y),
    }
    light = {k: fine[k] for k in ("pmi", "analytic")}
    add("fine-normal", par, lambda a: bmm.MultivariateNormalDistribution(dim_x=1, dim_y=2, mean=a["mean"], covariance=a["matrix"]), fine, True)
    add("fine-student", par, lambda a: bmm.MultivariateStudentDistribution(dim_x=1, dim_y=2, df=4, mean=a["mean"], dispersion=a["matrix"]), fine, True)

    def components(a):
        return [
            bmm.MultivariateNormalDistribution(dim_x=1, dim_y=2, mean=np.asarray(a["mean"]) + m, covariance=a["matrix"]) for m in (-2.0, 2.0)
        ]

    def mixture(a):
        a["components"] = components(a)
        return bmm.mixture(a["weights"], a["components"])

    weights = lambda f: dict(par("f8"), weights=make([0.25, 0.75], f))  # noqa: E731
    add("fine-mixture", weights, mixture, fine, True, forms=("f8", "f4al", "view", "jax"))
    add("sampler-mixture", weights, lambda a: bmm.BMMSampler(mixture(a), mi_estimate_sample=60),
        {"sample": lambda o: o.sample(4, 3), "mi": lambda o: float(o.mutual_information())}, True, forms=("f4al",))
    add("fine-product", lambda f: {"mean": make([0.5, -1.0], f), "matrix": make(np.eye(2) * 2, f), "mean1": make([3.0], f), "matrix1": make([[2.0]], f)},
        lambda a: bmm.ProductDistribution(
            bmm.construct_multivariate_normal_distribution(a["mean1"], a["matrix1"]),
            bmm.construct_multivariate_student_distribution(df=5, mean=a["mean"], dispersion=a["matrix"])), fine, True, forms=("f4al", "jax"))

    # transforms and matrix builders
    x2 = [0.75, -0.5]
    add("Spiral", lambda f: {"generator": make([[0, -1.0], [1, 0]], f), "initial": make([[0.6, 0.8], [-0.8, 0.6]], f)},
        lambda a: tr.Spiral(np.asarray(a["generator"]), initial=a["initial"], speed=0.5), {"call": lambda o: o(jnp.array(x2))})
    add("Spiral-unit", lambda f: {"generator": make([[0, -1.0], [1, 0]], f)}, lambda a: tr.Spiral(a["generator"]), {"call": lambda o: o(jnp.array(x2))},
        forms=("f8", "f4al", "fortran", "view", "jax"))

    class Functions:
        def __init__(self, a):
            self.a = a

    add("builders", lambda f: {"rho": [0.25, 0.5], "skew": make([[1.0, 2.0], [5.0, 1.0]], "f8")}, lambda a: {
        "canonical": [0.25, 0.5], "n": 3}, {
        "canonical": lambda o: s.canonical_correlation(list(o["canonical"])),
        "canonical-padded": lambda o: s.canonical_correlation(list(o["canonical"]), additional_y=2),
        "parametrised": lambda o: s.parametrised_correlation_matrix(dim_x=2, dim_y=2, k=1, correlation=0.5, correlation_x=0.25, correlation_y=0.125),
        "so": lambda o: tr.so_generator(o["n"], 0, 2),
    }, forms=("list",))
    add("LVM", lambda f: {}, lambda a: s.GaussianLVMParametrization(dim_x=2, dim_y=3, n_interacting=2, alpha=0.3, lambd=1.2, beta_x=0.2, beta_y=0.1,
                                                                    eta_x=0.5, eta_y=0.4), {
        "covariance": lambda o: o.covariance, "correlation": lambda o: o.correlation, "mixing": lambda o: o.mixing,
        "labels": lambda o: o.latent_variable_labels, "xy": lambda o: o.xy_labels}, forms=("list",))
    add("LVM-dense", lambda f: {}, lambda a: s.DenseLVMParametrization(dim_x=2, dim_y=1, alpha=0.5, epsilon=0.75), {
        "covariance": lambda o: o.covariance, "correlation": lambda o: o.correlation, "mixing": lambda o: o.mixing}, forms=("list",))

    # estimators: the settings handed over
    xy = np.array([[np.sin(1.7 * i + 2.9 * j * i + j) for j in range(3)] for i in range(24)])

    def estimate(o):
        return float(o.estimate(xy[:, :1].copy(), xy[:, 1:].copy()))

    for cls in ("KSGEnsembleFirstEstimator", "KSGEnsembleFirstEstimatorSlow"):
        add(cls, lambda f: {"ks": [2, 5]}, lambda a, cls=cls: getattr(est, cls)(neighborhoods=a["ks"]),
            {"estimate": estimate, "fit": lambda o: (o.fit(xy[:, :1], xy[:, 1:]), o.get_predictions())[1]}, forms=("list",))
    for cls in ("InfoNCEEstimator", "NWJEstimator", "DonskerVaradhanEstimator", "MINEEstimator"):
        add(cls, lambda f: {"hidden": [3, 2]}, lambda a, cls=cls: getattr(est, cls)(
            hidden_layers=a["hidden"], batch_size=8, max_n_steps=3, test_every_n_steps=1, verbose=False),
            {"estimate": estimate, "result": lambda o: o.estimate_with_info(xy[:, :1], xy[:, 1:])}, True, forms=("list",))
    return out


def refills():
    """name -> (f(x, y) -> result); called again and again with the same buffers, whose content changes."""
    import numpy as np
    from mc.samplers_ref import Lazy, cov

    s, bmm, tr, est = Lazy("bmi.samplers"), Lazy("bmi.samplers", "bmm"), Lazy("bmi.transforms"), Lazy("bmi.estimators")
    utils = Lazy("bmi.utils")
    out = {}
    for cls, kw in (
        ("KSGEnsembleFirstEstimator", {"neighborhoods": (2, 5)}),
        ("KSGEnsembleFirstEstimatorSlow", {"neighborhoods": (2, 5), "standardize": False}),
        ("KDEMutualInformationEstimator", {}),
        ("KDEMutualInformationEstimator", {"standardize": False, "kernel_xy": "tophat", "bandwidth_xy": "silverman"}),
        ("HistogramEstimator", {"n_bins_x": 3}),
        ("HistogramEstimator", {"n_bins_x": 3, "standardize": False}),
        ("CCAMutualInformationEstimator", {}),
    ):
        out[f"{cls}-{len(out)}"] = lambda cls=cls, kw=kw: (lambda o: lambda x, y: float(o.estimate(x, y)))(getattr(est, cls)(**kw))
    for std in (True, False):
        def space(x, y, std=std):
            p = utils.ProductSpace(x, y, standardize=std)
            return p.x, p.y, p.xy, len(p)

        out[f"ProductSpace-{std}"] = lambda space=space: space
    out["pmi"] = lambda: bmm.MultivariateNormalDistribution(dim_x=1, dim_y=2, covariance=cov(3, 1)).pmi
    out["transform"] = lambda: s.TransformedSampler(s.SplitMultinormal(dim_x=1, dim_y=2, covariance=cov(3, 1)), transform_x=lambda x: x**3 + x,
                                                    transform_y=tr.Spiral(np.array([[0, -1.0], [1, 0]]), speed=0.5)).transform
    out["swissroll"] = lambda: lambda x, y: (tr.swissroll2d(np.abs(x[0]) / 4), tr.half_cube(y), tr.normal_cdf(x))
    out["skew"] = lambda: lambda x, y: tr.skew_symmetrize(y[:2, :2])
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    cheap = ["SplitMultinormal", "SplitStudentT-3", "SplitStudentT-inf", "MultivariateDiscrete", "Concatenation", "Concatenation-parts",
             "Bivariate", "Transformed", "Spiral", "Spiral-unit", "builders", "LVM", "LVM-dense", "KSGEnsembleFirstEstimator",
             "KSGEnsembleFirstEstimatorSlow"]
    slow = ["fine-normal", "fine-student", "fine-mixture", "sampler-mixture", "fine-product", "InfoNCEEstimator", "NWJEstimator",
            "DonskerVaradhanEstimator", "MINEEstimator"]
    for n in cheap:
        out += [{"part": "object", "name": n, "form": f, "depth": 3 if deep else 2} for f in FORMS]
    for n in slow:
        out += [{"part": "object", "name": n, "form": f, "depth": 2 if deep else 1} for f in FORMS]
    for i in range(12):
        out += [{"part": "refill", "index": i, "form": f, "depth": 5 if deep else 3} for f in ("f8", "f4al", "view")]
    out.append({"part": "refill-all"})
    out += [{"part": "tasks", "base": b} for b in range(5)]
    return out


def run(case, rep):
    {"object": run_object, "refill": run_refill, "refill-all": run_refill_all, "tasks": run_tasks}[case["part"]](case, rep)
    rep.trace()


def run_object(case, rep):
    args_of, build, observers, slow, forms = subjects()[case["name"]]
    form = case["form"]
    if form not in forms:
        return
    name = case["name"]

    def fresh():
        args = args_of(form)
        return args, build(args)

    def observe(o):
        return {k: snapshot(f(o)) for k, f in observers.items()}

    args, o = fresh()
    want = observe(o)
    pristine = args_of(form)
    for k, v in pristine.items():
        rep.expect(snapshot(args[k]) == snapshot(v), "input-written", f"constructing and using {name} changed its argument {k}", form=form, argument=k)
    args2, o2 = fresh()
    rep.expect(observe(o2) == want, "construction", f"two instances of {name} differ", form=form)

    writes = []
    for k, v in args.items():
        for how in ("fill", "other"):
            if scribble_possible(v):
                writes.append(("argument", k, how))
    for k in observers:
        writes.append(("result", k, "fill"))
    if not slow:
        writes += [("call", k, "") for k in observers]
    written = 0
    for depth in range(1, case["depth"] + 1):
        for seq in itertools.permutations(writes, depth):
            if all(w[0] == "call" for w in seq):
                continue
            args, o = fresh()
            for kind, k, how in seq:
                rep.trans()
                if kind == "argument":
                    written += bool(scribble(args[k], how))
                elif kind == "result":
                    written += bool(scribble(observers[k](o), how))
                else:
                    observers[k](o)
            rep.state()
            got = observe(o)
            if got != want:
                bad = [k for k in want if got[k] != want[k]]
                rep.fail(f"changed:{name}:{seq[0][0]}:{seq[0][1]}" if depth == 1 else f"changed:{name}:sequence",
                         f"after {seq} the observations {bad} of {name} differ from those of an untouched one", form=form, sequence=seq)
            rep.outcome((name, form, seq, got == want))
    rep.count("writes", written)


def scribble_possible(v):
    import numpy as np

    return isinstance(v, (list, dict)) or (isinstance(v, np.ndarray) and v.flags.writeable)


def contents():
    import numpy as np

    a = np.array([[np.sin(1.7 * i + 2.9 * j * i + j) for j in range(3)] for i in range(24)])
    b = np.array([[np.cos(2.3 * i + 1.1 * j * i) + 0.1 * i for j in range(3)] for i in range(24)])
    # multiples of 1/64 are the same numbers in single and double precision
    return [np.round(v * 64) / 64 for v in (a, b)]


def run_refill_all(case, rep):
    """Every entry of the refill menu is enumerated by the cases."""
    rep.state()
    rep.trans()
    rep.expect(len(refills()) <= 13 + 1, "menu", f"{len(refills())}")


def run_refill(case, rep):
    menu = list(refills().items())
    if case["index"] >= len(menu):
        return
    name, builder = menu[case["index"]]
    a, b = contents()
    form = case["form"]
    reference = {}
    for which, c in (("A", a), ("B", b)):
        for wy, d in (("A", a), ("B", b)):
            reference[which + wy] = snapshot(builder()(make(c[:, :1], form), make(d[:, 1:], form)))
            rep.trans()
    rep.expect(len(set(reference.values())) > 1, "vacuous", name)
    ops = ("xA", "xB", "yB", "call", "write")
    for seq in itertools.product(ops, repeat=case["depth"]):
        f = builder()
        x, y = make(a[:, :1], form), make(a[:, 1:], form)
        state = ["A", "A"]
        result = None
        for op in seq + ("call",):
            if op == "xA":
                x[...] = a[:, :1]
                state[0] = "A"
            elif op == "xB":
                x[...] = b[:, :1]
                state[0] = "B"
            elif op == "yB":
                y[...] = b[:, 1:]
                state[1] = "B"
            elif op == "write":
                if result is not None:
                    scribble(result, "fill")
            else:
                rep.trans()
                result = f(x, y)
                got = snapshot(result)
                rep.expect(got == reference["".join(state)], f"stale:{name}", f"{name} does not see the present content of the buffers",
                           form=form, sequence=seq, content=state)
        rep.state()
        now = [a if w == "A" else b for w in state]
        rep.expect((x == now[0][:, :1]).all() and (y == now[1][:, 1:]).all(), f"written:{name}",
                   f"{name} (or writing into its result) changed the caller's arrays", form=form, sequence=seq)


def run_tasks(case, rep):
    """Tasks: what one of them returned, or was derived from it, cannot change it."""
    import pathlib
    import tempfile

    from mc.checks import p24_task_transforms as p24

    def observe(t):
        with tempfile.TemporaryDirectory() as d:
            p = pathlib.Path(d) / "m.yaml"
            t.save_metadata(p)
            text = p.read_text()
        return {"id": t.id, "name": t.name, "mi": float(t.mutual_information), "sample": snapshot(t.sample(4, 1)), "params": snapshot(t.params), "yaml": text}

    def compare(t, want, key, what, **detail):
        got = observe(t)
        bad = "+".join(k for k in want if got[k] != want[k])
        rep.expect(not bad, f"task:{key}:{bad}", f"{what} changed {bad}", **detail)

    b = case["base"]
    access = {"params": lambda t: t.params, "metadata": lambda t: t.metadata.task_params, "sample": lambda t: t.sample(4, 1)}
    want = observe(p24.base_task(b))
    for op, get in access.items():
        t = p24.base_task(b)
        rep.state()
        rep.trans()
        scribble(get(t), "fill")
        compare(t, want, op, f"writing into what task {p24.BASES[b]} returned as {op}", task=p24.BASES[b])
    for name in p24.NAMES:
        base = p24.base_task(b)
        if not p24.allowed(name, base.dim_x, base.dim_y):
            continue
        want_image = observe(p24.transform(name, base))
        for op, get in access.items():
            rep.state()
            rep.trans(2)
            base = p24.base_task(b)
            image = p24.transform(name, base)
            scribble(get(image), "fill")
            compare(base, want, f"image-{op}", f"writing into the {op} of the {name} image of {p24.BASES[b]}", task=p24.BASES[b], transform=name)
            base = p24.base_task(b)
            image = p24.transform(name, base)
            scribble(get(base), "fill")
            compare(image, want_image, f"base-{op}", f"writing into the {op} of {p24.BASES[b]}, of which {name} was built before,",
                    task=p24.BASES[b], transform=name)
    rep.outcome((b, want["id"]))
