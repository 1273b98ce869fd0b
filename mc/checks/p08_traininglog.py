"""P08: the training log: best held-out value is reported, early stopping and diagnostics follow the
recorded history on every history."""

import itertools
import math

PROPERTY = "P08"
BOUNDS = {
    "quick": "every held-out history of length <=6 over 5 values (early stopping on and off, every query point), "
    "every training history of length <=6 over 4 values x 4 smoothing factors, every increasing choice of logged steps in 1..9, long patterned histories",
    "thorough": "held-out histories of length <=8, training histories of length <=8",
}
ASSUMPTIONS = ["histories contain no NaN", "float32 smoothing: comparisons within 1e-4 of a 5% threshold are left out"]
VALUES = [-1.0, 0.0, 0.5, 0.5000001, float("-inf")]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for first in range(len(VALUES)):
        out.append({"part": "test", "first": first, "depth": 8 if deep else 6})
    for alpha in ("positive", "mixed", "negative"):
        for factor in (0.5, 0.34, 0.2, 0.1):
            out.append({"part": "train", "alphabet": alpha, "factor": factor, "depth": 8 if deep else 6})
    out.append({"part": "long", "sizes": (10, 11, 19, 20, 21, 50, 99, 100)})
    for n in (257, 1001, 2500, 5003) + ((10000, 40001) if deep else ()):
        out.append({"part": "long", "sizes": (n,)})
    out.append({"part": "interleaved"})
    out.append({"part": "steps", "max": 11 if deep else 9})
    return out


def diagnostics(train, factor):
    """Reference: None = too short, else (decreased, still_increasing) with None for undecidable."""
    n = len(train)
    w = int(factor * n)
    if w < 1:
        return None
    if n > 200:
        sums = list(itertools.accumulate(train, initial=0.0))
        smooth = [(sums[i + w] - sums[i]) / w for i in range(n - w + 1)]
    else:
        smooth = [sum(train[i : i + w]) / w for i in range(n - w + 1)]
    fin, prv, mx = smooth[-1], smooth[-1 - w], max(smooth)

    def exceeds(a, b):  # a more than 5% above b
        lim = b + 0.05 * abs(b)
        if abs(a - lim) < 1e-4 * max(1.0, abs(a), abs(b)):
            # exactly equal values are decidable: nothing moved
            return False if a == b and b != 0 else None
        return a > lim

    return exceeds(mx, fin), exceeds(fin, prv)


def run(case, rep):
    from bmi.estimators.neural._training_log import TrainingLog

    part = case["part"]
    if part == "test":
        for depth in range(1, case["depth"] + 1):
            for tail in itertools.product(VALUES, repeat=depth - 1):
                seq = (VALUES[case["first"]],) + tail
                for es in (True, False):
                    log = TrainingLog(max_n_steps=10, early_stopping=es, verbose=False)
                    best, since = None, 0
                    rep.state()
                    if depth == 1:
                        rep.expect(math.isnan(float(log.final_mi)), "test:initial", f"{log.final_mi}")
                        rep.expect(not log.early_stop(), "test:initial-stop")
                    for i, v in enumerate(seq):
                        log.log_train_mi(2 * i + 1, 0.1)
                        log.log_train_mi(2 * i + 2, 0.1)
                        log.log_test_mi(2 * i + 2, v)
                        rep.trans()
                        if best is None or v > best:
                            best, since = v, 0
                        else:
                            since += 1
                        if i < depth - 1:
                            continue  # the prefix was a shorter sequence
                        rep.expect(float(log.final_mi) == best, "test:final",
                                   f"final {log.final_mi} != best {best}", seq=seq)
                        rep.expect(bool(log.early_stop()) == (es and since >= 2), "test:early-stop",
                                   f"early_stop={log.early_stop()} after {since} non-improvements", seq=seq, es=es)
                    info = log.additional_information
                    rep.expect([list(h) for h in info["test_history"]] ==
                               [[2 * i + 2, v] for i, v in enumerate(seq)], "test:history",
                               f"{info.get('test_history')}", seq=seq)
                    rep.expect(info["n_training_steps"] == 2 * depth, "test:n-steps", f"{info}", seq=seq)
                    if depth <= 4:
                        log.finish()
                        flag = bool(log.additional_information.get("early_stopping_not_triggered", False))
                        rep.expect(flag == (es and since < 2), "test:flag", f"{log.additional_information}", seq=seq)
                        rep.expect(float(log.final_mi) == best, "test:final-after-finish", seq=seq)
                    rep.outcome((es, since >= 2, best))
                    rep.trace()
    elif part == "train":
        alpha = {"positive": (0.2, 1.0, 1.03, 2.0), "mixed": (-1.0, 0.0, 0.5, 2.0),
                 "negative": (-2.0, -1.0, -0.97, -0.1)}[case["alphabet"]]
        for depth in range(0, case["depth"] + 1):
            for seq in itertools.product(alpha, repeat=depth):
                check_train(rep, seq, case["factor"])
            rep.trace()
    elif part == "long":
        for n in case["sizes"]:
            for name, f in {
                "const": lambda i: 1.0, "up": lambda i: 1.0 + i, "down": lambda i: 200.0 - i,
                "saturating": lambda i: 1 - math.exp(-i / 3), "bump": lambda i: 5.0 - abs(i - n / 2) * 4 / n,
                "negconst": lambda i: -0.4, "late": lambda i: 0.0 if i < n - 3 else 9.0,
                "drop": lambda i: 3.0 if i < n - 2 else 0.1,
                "early": lambda i: 7.0 if i < n / 4 else 1.0,  # the best part is the oldest part
                "rise": lambda i: 1.0 if i < 3 * n / 4 else 2.0,
                "waves": lambda i: 1.0 + math.sin(i / 9),
            }.items():
                for factor in (0.1, 0.5, 0.05):
                    check_train(rep, tuple(f(i) for i in range(n)), factor, name)
            rep.trace()
        rep.raises("long:factor", lambda: TrainingLog(max_n_steps=3, early_stopping=True, verbose=False,
                                                      train_smooth_factor=0.6), (AssertionError, ValueError))
    elif part == "steps":
        # the caller says which step a value belongs to: every increasing choice of steps
        for r in range(1, case["max"] + 1):
            for steps in itertools.combinations(range(1, case["max"] + 1), r):
                log = TrainingLog(max_n_steps=case["max"], early_stopping=False, verbose=False, train_history_in_additional_information=True)
                rep.state()
                for s in steps:
                    log.log_train_mi(s, 0.25 * s)
                    rep.trans()
                    if s % 2:
                        log.log_test_mi(s, 0.5 * s)
                info = log.additional_information
                rep.expect(info["n_training_steps"] == steps[-1], "steps:n-steps", f"{info}", steps=steps)
                rep.expect([tuple(h) for h in info["training_history"]] == [(s, 0.25 * s) for s in steps], "steps:train", f"{info}", steps=steps)
                rep.expect([tuple(h) for h in info["test_history"]] == [(s, 0.5 * s) for s in steps if s % 2], "steps:test", f"{info}", steps=steps)
                odd = [s for s in steps if s % 2]
                rep.expect(float(log.final_mi) == 0.5 * odd[-1] if odd else math.isnan(float(log.final_mi)), "steps:final", f"{log.final_mi}", steps=steps)
            rep.trace()
    else:
        # histories may be included or left out of the report
        for tr, te in itertools.product((True, False), repeat=2):
            for n_train, n_test in itertools.product(range(4), range(3)):
                log = TrainingLog(max_n_steps=9, early_stopping=False, verbose=False,
                                  train_history_in_additional_information=tr,
                                  test_history_in_additional_information=te)
                rep.state()
                for i in range(n_train):
                    log.log_train_mi(i + 1, 0.25 * i)
                    rep.trans()
                for i in range(n_test):
                    log.log_test_mi(5 * i + 5, 0.5 * i)
                    rep.trans()
                info = log.additional_information
                rep.expect(info["n_training_steps"] == n_train, "hist:n", f"{info}")
                rep.expect(("training_history" in info) == tr, "hist:train-flag", f"{info}")
                rep.expect(("test_history" in info) == te, "hist:test-flag", f"{info}")
                if tr:
                    rep.expect([tuple(h) for h in info["training_history"]] ==
                               [(i + 1, 0.25 * i) for i in range(n_train)], "hist:train", f"{info}")
                if te:
                    rep.expect([tuple(h) for h in info["test_history"]] ==
                               [(5 * i + 5, 0.5 * i) for i in range(n_test)], "hist:test", f"{info}")
                rep.trace()
        # verbose logs tell the same story (progress bar on and off)
        import contextlib
        import io

        for bar in (True, False):
            for seq in itertools.product((0.0, 1.0, 2.0), repeat=4):
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    log = TrainingLog(max_n_steps=4, early_stopping=True, verbose=True, enable_tqdm=bar)
                    for i, v in enumerate(seq):
                        log.log_train_mi(i + 1, v)
                        log.log_test_mi(i + 1, v)
                    log.finish()
                rep.state()
                rep.trans(9)
                rep.expect(float(log.final_mi) == max(seq), "verbose:final", seq=seq, bar=bar)
            rep.trace()


def check_train(rep, seq, factor, name=""):
    from bmi.estimators.neural._training_log import TrainingLog

    log = TrainingLog(max_n_steps=max(1, len(seq)), early_stopping=False, verbose=False,
                      train_smooth_factor=factor)
    rep.state()
    for i, v in enumerate(seq):
        log.log_train_mi(i + 1, v)
        rep.trans()
    log.finish()
    info = log.additional_information
    want = diagnostics(seq, factor)
    d = dict(history=seq if len(seq) < 12 else f"{name}[{len(seq)}]", factor=factor)
    short = bool(info.get("training_too_short_for_diagnostics", False))
    rep.expect(short == (want is None), "train:too-short", f"{info}", **d)
    rep.expect("early_stopping_not_triggered" not in info, "train:es-flag", **d)
    rep.expect(info["n_training_steps"] == len(seq), "train:n-steps", **d)
    if want is None:
        return
    rep.outcome(want)
    for flag, w in zip(("max_training_mi_decreased", "training_mi_still_increasing"), want):
        got = bool(info.get(flag, False))
        if w is not None:
            rep.expect(got == w, f"train:{flag}", f"{flag}={got}, the history says {w}", **d)
        else:
            rep.count("undecidable_threshold")
