"""P28: figures whose axes have exactly the requested sizes, gaps and margins, in inches, in reading order."""

import itertools

PROPERTY = "P28"
SIZES = (2, 0.75, [1.5], [1, 2.5], [0.5, 1, 3], (2, 1), [1, 1], [2, 0.4, 3, 1], [0.5, 1.25, 1, 2, 0.25, 1.5])
COUNTS = (None, 1, 2, 3, 5)
SPACES = (0.5, 0.0, "list", "tsil")
LISTS = ([0.5, 0.2, 0.8, 0.0, 0.35], [0.1, 0.7, 0.3, 1.1, 0.2])
MARGINS = ({}, dict(top=0.3, bottom=0.2, left=1.1, right=0.6), dict(top=0, bottom=0, left=0, right=0))
BOUNDS = {
    "quick": "9 widths x 9 heights (numbers, lists of up to 6) x every consistent or inconsistent number of rows and columns 1..3 and 5 and a rotating eleventh of 4 gap forms per direction x 3 margins x squeezing",
    "thorough": "all gap forms, margins and squeezing for all shapes",
}
ASSUMPTIONS = ["positions are those matplotlib uses when drawing"]


def cases(tier):
    return [{"part": "grid", "x": i, "y": j, "wide": tier == "thorough"} for i in range(len(SIZES)) for j in range(len(SIZES))] + [{"part": "refuse"}]


def expand(size, count):
    """List of sizes, or None when the counts disagree."""
    if isinstance(size, (list, tuple)):
        return list(size) if count in (None, len(size)) else None
    return [size] * (count or 1)


def gaps(form, n):
    """The two lists are neither sorted nor symmetric."""
    return {"list": LISTS[0][: n - 1], "tsil": LISTS[1][: n - 1]}.get(form, [form] * (n - 1))


def spans(start, sizes, spaces):
    out, at = [], start
    for i, s in enumerate(sizes):
        out.append((at, at + s))
        at += s + (spaces[i] if i < len(spaces) else 0)
    return out, at


def inches(fig, ax):
    loc = ax.get_axes_locator()
    box = loc(ax, fig.canvas.get_renderer()) if loc is not None else ax.get_position()
    w, h = fig.get_size_inches()
    return box.x0 * w, box.x1 * w, box.y0 * h, box.y1 * h


def check(rep, call, xs, ys, ws, hs, m, squeeze):
    import matplotlib.pyplot as plt
    import numpy as np

    m = {**dict(top=0.1, bottom=0.5, left=0.5, right=0.1), **m}
    fig, axs = call()
    rep.state()
    rep.trans()
    d = dict(widths=xs, heights=ys, wspace=ws, hspace=hs, margins=m, squeeze=squeeze)
    try:
        cols, right = spans(m["left"], xs, ws)
        rows, bottom = spans(m["top"], ys, hs)
        width, height = right + m["right"], bottom + m["bottom"]
        rep.close("figure", fig.get_size_inches(), (width, height), rtol=1e-6, atol=1e-6, **d)
        shape = (len(ys), len(xs))
        flat = list(np.asarray(axs, dtype=object).ravel())
        if shape == (1, 1):
            rep.expect(len(flat) == 1 and hasattr(flat[0], "plot"), "single", str(axs), **d)
        else:
            want = tuple(n for n in shape if n > 1) if squeeze else shape
            rep.expect(np.shape(axs) == want, "shape", f"{np.shape(axs)} instead of {want}", **d)
        if not rep.expect(len(flat) == shape[0] * shape[1] == len(fig.axes) == len(set(map(id, flat))), "axes", f"{len(flat)}, {len(fig.axes)}", **d):
            return
        for k, ax in enumerate(flat):
            r, c = divmod(k, shape[1])
            want = (*cols[c], height - rows[r][1], height - rows[r][0])
            rep.close("position", inches(fig, ax), want, rtol=1e-5, atol=1e-5, row=r, col=c, **d)
        rep.outcome((tuple(xs), tuple(ys), tuple(ws), tuple(hs), tuple(sorted(m.items())), squeeze))
    finally:
        plt.close(fig)


def part_grid(case, rep):
    from bmi.plot_utils.subplots_from_axsize import subplots_from_axsize

    x, y = SIZES[case["x"]], SIZES[case["y"]]
    for nc, nr in itertools.product(COUNTS, repeat=2):
        xs, ys = expand(x, nc), expand(y, nr)
        kw = {k: v for k, v in (("ncols", nc), ("nrows", nr)) if v is not None}
        if xs is None or ys is None:
            rep.trans()
            rep.raises("refuse:count", lambda: subplots_from_axsize(axsize=(x, y), **kw), msg=f"{x}, {y}, {kw}")
            continue
        for i, (w, h, m, sq) in enumerate(itertools.product(SPACES, SPACES, range(len(MARGINS)), (True, False))):
            if not case["wide"] and (i + len(xs) + 2 * len(ys) + case["x"]) % 11:
                continue
            ws, hs = gaps(w, len(xs)), gaps(h, len(ys))
            opts = dict(kw, **MARGINS[m])
            if not (w == 0.5 and i % 2):
                opts["wspace"] = ws if isinstance(w, str) else w
            if not (h == 0.5 and i % 2):
                opts["hspace"] = tuple(hs) if isinstance(h, str) else h
            if not sq or i % 2:
                opts["squeeze"] = sq
            before = repr(((x, y), opts))
            check(rep, lambda: subplots_from_axsize(axsize=(x, y), **opts), xs, ys, ws, hs, MARGINS[m], sq)
            rep.expect(repr(((x, y), opts)) == before, "input-changed", before)
        rep.trace()


def part_refuse(case, rep):
    from bmi.plot_utils import subplots_from_axsize as module

    f = getattr(module, "subplots_from_axsize", module)
    for opts in (dict(axsize=([1, 2], 1), wspace=[0.1, 0.2]), dict(axsize=(1, [1, 2, 3]), hspace=[0.1]), dict(axsize=([1, 2], 1), wspace=[]), dict(axsize=(1, 1), hspace=[0.3])):
        rep.state()
        rep.trans()
        rep.raises("refuse:gaps", lambda: f(**opts), msg=str(opts))
        rep.outcome(str(opts))
    check(rep, lambda: f(), [3], [2], [], [], {}, True)
    check(rep, lambda: f(nrows=2), [3], [2, 2], [], [0.5], {}, True)
    check(rep, lambda: f(axsize=(3, [2, 1])), [3], [2, 1], [], [0.5], {}, True)
    rep.trace()


def run(case, rep):
    globals()["part_" + case["part"]](case, rep)
