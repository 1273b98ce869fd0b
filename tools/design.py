"""Regenerates DESIGN.md from tools/design_head.md, the catalogue, the check modules and tools/seed_results.json."""

import importlib
import json
import pathlib
import sys

VERIF = pathlib.Path(__file__).resolve().parents[1]
sys.path[:0] = [str(VERIF), str(VERIF / "tools")]
import catalog  # noqa: E402

NOTES = {
    "P01": ("An exact reference: distances compared in rationals (or, for standardised data, floats with a margin; samples where rounding would decide "
            "an inequality are left out and counted), neighbors counted by definition, digamma from SciPy.",
            "Off-by-one errors in counting, ties, chunk ends and k-lists change estimates by less than the tolerances of tests with random Gaussian data."),
    "P02": ("Bins in rationals, plug-in MI from integer counts.", "Tests use wide tolerances and equal bins."),
    "P03": ("An independent density estimate (kernels normalised by quadrature), entropies and MI from it.", "Tests compare loosely with the true MI, so a bandwidth used in the wrong space is invisible."),
    "P04": ("Rational correlations for one-dimensional samples, QR+SVD canonical correlations otherwise.", "Tests compare with the true MI of a Gaussian."),
    "P05": ("Exact standardisation in rationals, index arithmetic, byte comparison of the caller's arrays.", "Whether inputs are modified depends on type, layout and options together."),
    "P06": ("Relations between executions: all row permutations, role exchange, affine recodings, all short histories on reused objects.", "Tests never reuse an object or permute a sample."),
    "P07": ("Bounds and gradients written out in float64 for every table; scripted critics realise exactly the table.", "Tests compare the two backends on a random critic with small scores."),
    "P08": ("A ten-line state machine of the log: best value, stagnation counter, histories, warnings, compared after every operation of every history.",
            "Order-dependent: ties, early plateaus, negative values, short histories."),
    "P09": ("A scripted environment: critics, formulas and a test formula that record what they are called with; batches compared with the set of admissible batches; "
            "training replayed on fresh and used objects. Architecture of the critic network recomputed by hand from its weights.",
            "Leakage between training and held-out data or lost pairing barely changes an estimate."),
    "P10": ("The MINE update in float64 with its running average replayed step by step, and Adam replayed by hand.", "The correction only differs after several steps and the estimate stays plausible."),
    "P11": ("A recording stand-in named Rscript/julia on the PATH implements the command line of the shipped scripts; every answer and every sequence of answers is played "
            "(this is fault injection at the process boundary).", "R and Julia are not available to the test-suite, so none of this runs there."),
    "P12": ("Every behaviour of an estimator (values, exceptions, subprocess errors, info) played against a record written out by hand, with a controlled clock.", "Tests run one failing and one working estimator."),
    "P13": ("An independent notion of equality of stored values, through the real files.", "The number of type combinations."),
    "P14": ("Equality of whole samples between executions after every short history, in all seed forms.", "Tests look at shapes for one seed."),
    "P15": ("Exact marginal and conditional distribution functions; each enumerated (configuration, seed) sample of 20000 points is compared at 3.3/sqrt(n). The enumerated space is configurations x seeds; "
            "inside one element a law can only be judged statistically, with an error probability below 1e-9 for a right sampler.", "Tests compare a few moments for a few configurations."),
    "P16": ("Closed forms recomputed along other routes: canonical correlations, numerical integration, series.", "Corner cases: big dimensions, fractional or infinite degrees of freedom, p near 0 or 1, repeated parts."),
    "P17": ("Exact definiteness in rationals (Sylvester); documented ranges.", "Matrices that are wrong in unusual ways are never tried."),
    "P18": ("The documented generative model, multiplied out.", "Defaults and asymmetric weights combine in hundreds of ways."),
    "P19": ("Closed forms (rotations by explicit planes, scipy), monotonicity and inversion on whole grids, finite-difference Jacobians.", "Tests check a few points."),
    "P20": ("Composition of the maps applied by hand to the base sampler's own points.", "Nesting, vectorisation and per-side options interact."),
    "P21": ("Densities recomputed from the construction tree with SciPy and change of variables.", "Tests look at means and one or two points."),
    "P22": ("A scripted distribution realises every PMI table; real models are compared with a reference density.", "Constant factors or dropped points hide within Monte Carlo noise."),
    "P23": ("A parser of task ids builds the law and the ground truth from the id alone; registry and configurations compared with it.", "Tests sample one point from each task."),
    "P24": ("Reference maps in double precision applied to the base's own samples, metadata algebra.", "Only single transforms are tested, never chains, options or aliasing."),
    "P25": ("Bitwise comparison of what is read with what was saved.", "Digits lost in printing only show for particular numbers, ordering only with more than ten columns."),
    "P26": ("Tables computed by hand from the list of results, colours from the documented rule.", "There are no tests."),
    "P27": ("Log density of the model written out in float64; a scripted posterior makes every draw known.", "A chain's result is too noisy to show which prior was used."),
    "P28": ("A reference layout in inches.", "There are no tests."),
    "P29": ("The definition of a root (value within the precision, argument inside the interval), plus closed forms of the families' mutual information.", "There are no tests."),
    "P30": ("Tables and curves computed by hand from the list of results; a recorder in place of seaborn notes what is drawn.", "There are no tests."),
    "P31": ("The same result (files compared byte for byte, running times aside) for every schedule, and each row equal to the estimator called alone on the stored sample.",
            "No test runs a workflow; caches, shared state and leftovers only show for particular orders or interruptions."),
    "P32": ("The declared inputs, outputs and settings of each workflow read as a graph; aggregates, quantiles, densities and drawn curves recomputed.", "There are no tests of the workflows; one run takes days."),
    "P34": ("The same call alone: results bit for bit; and a bystander thread that compares and then alters process-wide state at every point.", "No test runs two calls at once."),
    "P35": ("The state of the process and of the object before the call (old), or after a complete one (new); every later call against a new object.", "Tests never interrupt a call."),
    "P36": ("The exact table of the mixture (sums over all cells, log-sum-exp in double precision), scipy's laws for the mixed case.", "The tests' models are Gaussian: no impossible cells, no integers."),
    "P33": ("An untouched twin built from copies of the same arguments: every observation must agree bit for bit.", "Tests build an object, use it once and drop it."),
}


def main():
    results = {}
    path = VERIF / "tools" / "seed_results.json"
    if path.exists():
        results = json.loads(path.read_text())
    times = json.loads((VERIF / "tools" / "times.json").read_text()) if (VERIF / "tools" / "times.json").exists() else {}
    out = [(VERIF / "tools" / "design_head.md").read_text().rstrip(), "\n## Properties\n"]
    for c in catalog.CATALOG:
        hits = sorted((VERIF / "mc" / "checks").glob(f"{c['id'].lower()}_*.py"))
        out.append(f"### {c['id']} {c['title']}\n")
        if not hits:
            out.append("Not built yet.\n")
            continue
        module = importlib.import_module("mc.checks." + hits[0].stem)
        oracle, why = NOTES.get(c["id"], ("", c["tests"]))
        out.append(f"*Check:* `mc/checks/{hits[0].name}` - {c['technique']}.  ")
        out.append(f"*Enumerated (quick):* {module.BOUNDS['quick']}.  ")
        out.append(f"*Thorough:* {module.BOUNDS['thorough']}.  ")
        out.append(f"*Oracle:* {oracle}  ")
        if module.ASSUMPTIONS:
            out.append(f"*Assumed:* {'; '.join(module.ASSUMPTIONS)}.  ")
        if c["id"] in times:
            out.append(f"*Cost:* quick {times[c['id']].get('quick', '?')} s, thorough {times[c['id']].get('thorough', '?')} s on 8 cores.  ")
        out.append(f"*Why tests cannot:* {why}\n")
        caught = [k for k, v in sorted(results.items()) if v["property"] == c["id"] and v["caught"]]
        missed = [k for k, v in sorted(results.items()) if v["property"] == c["id"] and not v["caught"]]
        if caught or missed:
            out.append(f"*Planted bugs:* caught: {', '.join(caught) or '-'}" + (f"; missed: {', '.join(missed)}" if missed else "") + ".\n")
    out.append((VERIF / "tools" / "design_tail.md").read_text().rstrip())
    if results:
        out.append("\n## Planted bugs\n\nEach is kept in `seeded/<id>` (patch, demonstration, what it needs). `first` tells whether the check as it was when the bug was written caught it.\n")
        out.append("| bug | property | caught by its check | first | also caught by |\n|---|---|---|---|---|")
        for k, v in sorted(results.items(), key=lambda kv: (kv[1]["property"], kv[0])):
            out.append(f"| {k} | {v['property']} | {'yes' if v['caught'] else 'no'} | {'yes' if v.get('first', v['caught']) else 'no, then strengthened' if v['caught'] else 'no'} | {', '.join(v.get('also', [])) or ''} |")
    (VERIF / "DESIGN.md").write_text("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
