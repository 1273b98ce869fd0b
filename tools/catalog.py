"""The catalogue of properties.  `python3 tools/catalog.py` regenerates properties.jsonl and MANIFEST.json."""

import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parents[1]
PY = "/opt/venv/bin/python"
E = "src/bmi/estimators/"
S = "src/bmi/samplers/"
B = "src/bmi/benchmark/"
CATALOG = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, tests, files, mechanism, technique, note, level="model_checking", observe=()):
    CATALOG.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                        mechanism=mechanism, technique=technique, note=note, level=level, observe=list(observe)))


I, H, C, F, SC = "inputs", "histories", "configurations", "fault_sequences", "schedules"

P("P01", "The KSG estimators compute exactly the published KSG estimate",
  "For every sample, every choice of marginal metrics and every list of neighborhood sizes, the nearest-neighbor (KSG) estimator returns "
  "the average, over the distinct requested neighborhood sizes, of the estimate defined by the first algorithm of Kraskov et al. (strict "
  "counting of marginal neighbors within the distance to the k-th joint neighbor), clipped at zero. The per-size predictions it exposes "
  "equal the single-size estimates. The memory-saving implementation, for every chunk size, number of jobs and standardisation "
  "choice, agrees with the direct one.",
  [I, C, H], "all samples x metric pairs x neighborhood lists x chunk sizes x number of jobs x standardisation",
  "Tests compare with tolerance on a few random Gaussian samples for a few k; off-by-one errors in neighbor counts, chunk boundaries or unusual lists are below the tolerance or never occur.",
  [E + "ksg.py", "src/bmi/utils.py"],
  [("sorted distances and strict counting", E + "ksg.py KSGEnsembleFirstEstimatorSlow.fit"), ("chunked accumulation over points", E + "ksg.py KSGEnsembleFirstEstimator.fit")],
  "explicit-state enumeration of all small samples and configurations, executed on the real code against an exact rational reference",
  "Every sample on small grids and every configuration within the bound is executed on the real estimators; exact order of distances is decided in rationals. Trusts scipy's digamma.")

P("P02", "The histogram estimator is the plug-in MI of the binned sample",
  "For every sample and every number of bins per X and Y coordinate, the histogram estimator returns the plug-in mutual information of the "
  "empirical joint distribution of equal-width bins spanning the observed range of each coordinate, with natural logarithm, in any dimension; "
  "it is non-negative and unaffected by standardisation. A different number of bins for X and for Y is honoured.",
  [I, C], "all samples x bins of X x bins of Y x dimensions x standardisation",
  "Tests check a handful of Gaussian samples within a wide tolerance, in low dimension and with equal bins.",
  [E + "_histogram.py"], [("joint and marginal bin counts", E + "_histogram.py HistogramEstimator.estimate")],
  "explicit-state enumeration of all small samples and bin counts on the real code, exact rational oracle",
  "All multisets of points within the bound; samples whose values fall on an inexact bin edge are excluded.")

P("P03", "The kernel density estimator computes the defined entropies and MI",
  "For every sample and every combination of kernels and bandwidths, the reported differential entropies are minus the mean log of the kernel "
  "density estimate at the sample points and the estimated mutual information is H(X)+H(Y)-H(X,Y) of exactly these. Kernel and "
  "bandwidth chosen separately for X, Y and the joint space are each used where they were requested, and a joint-space choice is inherited by X and by Y "
  "when theirs is not given.",
  [I, C], "all samples x kernel triples x bandwidth triples (numbers and the two rules of thumb) x dimensions x standardisation",
  "Tests use one or two kernels on Gaussian samples and compare loosely with the truth.",
  [E + "_kde.py"], [("selection of kernels and bandwidths", E + "_kde.py __init__"), ("entropies", E + "_kde.py estimate_entropies")],
  "exhaustive enumeration of kernel/bandwidth configurations on the real code against an independent density model",
  "Complete in the configuration space of the bound; kernels' normalising constants recomputed by quadrature.")

P("P04", "The CCA estimator is the Gaussian MI of the canonical correlations",
  "For every sample the canonical-correlation estimator returns minus half the sum of log(1-rho^2) over all min(dim X, dim Y) sample canonical "
  "correlations, so for one-dimensional variables it is the Gaussian MI of the sample correlation. It is unchanged by exchanging or rescaling "
  "coordinates. A user-supplied function wrapped as an estimator receives the same data and its value is returned unchanged.",
  [I, C], "all samples x dimensions x scale on/off x invertible re-expressions of X and of Y",
  "Tests compare with the population value at a loose tolerance on a few Gaussian samples.",
  [E + "correlation.py", E + "function_wrapper.py"], [("sum over canonical pairs", E + "correlation.py"), ("wrapping", E + "function_wrapper.py")],
  "exhaustive enumeration of small samples and dimension pairs on the real code against a closed form",
  "Closed form at 1e-9 when one side is one-dimensional; ~1e-3 otherwise because of the iterative CCA solver.")

P("P05", "Views, batches and noise keep every point exactly once and in order",
  "The paired view of X and Y keeps every point, in order, with X and Y rows matched, standardised when requested (zero mean, unit variance per "
  "coordinate) and never modifying its inputs; samples with unequal numbers of points are refused and one-dimensional inputs become columns. "
  "Splitting a range into batches covers every index once, in order, with no batch over the limit. Added noise leaves the original data untouched, has the requested "
  "amplitude and depends only on the seed.",
  [I, C], "all array shapes and contents, all slices, all (length, batch size) pairs, all seeds",
  "Tests probe a few lengths and shapes.",
  ["src/bmi/utils.py"], [("paired view", "src/bmi/utils.py ProductSpace"), ("batching", "src/bmi/utils.py chunker"), ("noise", "src/bmi/utils.py add_noise")],
  "exhaustive enumeration of shapes, contents, slices and chunkings on the real code",
  "Complete within the bound.")

P("P06", "Classical estimates depend only on the set of pairs, not on presentation",
  "For the histogram, nearest-neighbor, kernel-density and CCA estimators, permuting the rows jointly, exchanging X with Y (where settings are symmetric), "
  "changing units of coordinates when standardising, reordering coordinates or passing the data in another container "
  "leaves the estimate unchanged. Estimating does not modify the data, the reported parameters or later estimates: any estimator object may be reused "
  "in any order, and unequal numbers of points are refused. The reported parameters are those requested.",
  [I, H, C], "all row orders, containers, unit changes and sequences of calls on shared estimator objects",
  "Tests call each estimator once on one array.",
  [E + "_histogram.py", E + "ksg.py", E + "_kde.py", E + "correlation.py", "src/bmi/interface.py"],
  [("standardised paired view", "src/bmi/utils.py ProductSpace"), ("fresh state per fit", E + "ksg.py fit")],
  "exhaustive enumeration of permutations, recodings and call sequences (metamorphic relations) on the real code",
  "Relational: values are compared with each other, the exact values are the subject of P01-P04.")

P("P07", "Neural lower bounds: both memory backends equal the published bounds",
  "For every critic and every batch, InfoNCE, Donsker-Varadhan and NWJ bounds equal their published formulas (paired scores on the diagonal, all other pairs as "
  "negatives for DV and NWJ, all pairs for InfoNCE), in a numerically stable way for scores of any size. The linear-memory and the quadratic-memory "
  "implementations agree in value and in gradient.",
  [I], "all score tables (critic values on all pairs of a batch) and their gradients",
  "Tests compare the two backends with each other on a few random batches, so a shared error is invisible, as are extreme scores and small batches.",
  [E + "neural/_backend_linear_memory.py", E + "neural/_backend_quadratic_memory.py"],
  [("off-diagonal log-mean-exp", E + "neural/_backend_*_memory.py logmeanexp_nodiag"), ("bounds", E + "neural/_backend_*_memory.py")],
  "exhaustive enumeration of score tables on the real code against the closed formulas",
  "Any critic restricted to a batch is a score table, so tables over the value alphabets are enumerated completely; float32 tolerance.")

P("P08", "Training log reports the best held-out value; diagnostics follow the record",
  "On every training history the reported mutual information is the largest held-out value recorded, early stopping is requested exactly when neither of the last two "
  "held-out values improved on the best one before them, and the exported histories contain every recorded (step, value) pair in order. The overfitting/not-converged warnings are exactly "
  "those implied by the recorded history.",
  [H], "all sequences of recorded train/test values, all smoothing factors",
  "Tests run real training, whose histories are smooth and never include ties, dips or negative values at the decisive moment.",
  [E + "neural/_training_log.py"], [("best value and early stop", E + "neural/_training_log.py log_test_mi"), ("diagnostics", E + "neural/_training_log.py detect_warnings")],
  "explicit-state exploration of all bounded histories on the real log against a reference state machine",
  "All histories over the value alphabet up to the bounded length.")

P("P09", "Training loop: paired batches, honest held-out evaluation, reproducible runs",
  "During training every batch consists of distinct training points with X and Y still paired, the held-out value is computed on the held-out points only, at the configured steps, and training "
  "performs at most the configured number of steps, one optimiser update each in the direction that raises the bound, and stops early only as described by the log. "
  "The train/test split is a partition of the data of the requested sizes. The same seed and data give the same "
  "estimate whatever was estimated before, and configured limits, learning rate, batch size, architecture and standardisation reach training.",
  [H, C, SC], "all scripts of held-out values, batch sizes, keys, split settings, and sequences of calls on shared estimator objects",
  "Tests check that the final estimate is near the truth on easy problems.",
  [E + "neural/_basic_training.py", E + "neural/_estimators.py", E + "neural/_critics.py"],
  [("batch selection", E + "neural/_basic_training.py get_batch"), ("loop", E + "neural/_basic_training.py basic_training"), ("split", E + "neural/_estimators.py train_test_split")],
  "model checking of the real training loop driven by an exhaustively scripted environment (held-out values, batches, keys)",
  "The loop is executed for every script within the bound; batches are checked against the set of admissible batches.")

P("P10", "MINE: bias-corrected gradient, independent pairing and evaluation",
  "For every batch and history, the MINE update uses the exponential moving average of the denominator so that its gradient is that of the mean paired score minus the mean gradient-weighted "
  "exponential score divided by the running average, and the reported value is the Donsker-Varadhan bound. Paired points stay paired, and unpaired points combine an X with the Y of an independently drawn row. "
  "Estimation is reproducible for a seed, obeys the configured number of steps, batch size, smoothing and learning rate, and reports the best held-out value.",
  [I, H, C], "all score tables, previous denominators, smoothing factors, resamplings, keys and call sequences",
  "Tests only check the estimate is close to truth on one Gaussian.",
  [E + "neural/_mine_estimator.py"], [("gradient with running denominator", E + "neural/_mine_estimator.py _mine_value_neg_grad_log_denom"), ("resampling", E + "neural/_mine_estimator.py _sample_paired_unpaired"), ("loop", E + "neural/_mine_estimator.py mine_training")],
  "exhaustive enumeration of score tables, resamplings and training scripts on the real code against a reference optimiser",
  "float32 tolerance; the reference optimiser uses optax's default Adam constants.")

P("P11", "External estimators hand over the right data and trust only valid answers",
  "For every supported external estimator and sample shape, the child process is started on a file holding exactly the sample, with the column ranges of X and Y in the child's indexing convention and the "
  "configured parameters; temporary files disappear afterwards. A printed number is returned exactly; any other output, an exit status other than zero, a signal or a missing program raises an error that carries "
  "the child's output, and never a number. One call's outcome does not affect the next.",
  [I, C, F], "all shapes, settings and child answers, and all pairs of answers in sequence",
  "Tests need R/Julia installed, or only check one parser input at a time.",
  [E + "external/external_estimator.py", E + "external/r_estimators.py", E + "external/julia_estimators.py"],
  [("child process", E + "external/external_estimator.py _run_command_and_read_mi"), ("command lines", E + "external/*_estimators.py _build_command")],
  "exhaustive fault enumeration: every child answer x estimator x shape against the real bridge with a recording child",
  "R and Julia themselves are not executed (not installed): the child is a recording stand-in.")

P("P12", "Running an estimator on a stored sample records every outcome faithfully",
  "Running any estimator on a stored sample yields a record holding the estimator's own value, duration (its reported one, else the measured one) and extra information if it succeeds, and otherwise a failed record with "
  "not-a-number value and the error text plus the child's output if there is any; ordinary estimator errors never escape. Identifiers, seed and number of points are those of the request. "
  "Runs do not influence each other or the caller's data.",
  [H, F, C], "all outcomes of an estimator (return values, exceptions, child failures), and all sequences of runs sharing objects",
  "Tests run one succeeding estimator.",
  [B + "result.py", B + "utils/timer.py"], [("capture of outcomes", B + "result.py run_estimator"), ("timer", B + "utils/timer.py")],
  "exhaustive enumeration of outcome sequences (fault injection) on the real runner, with a controlled clock",
  "Complete for the enumerated outcome kinds and sequence lengths.")

P("P13", "Results and task metadata survive being written and read back",
  "Any run result or task metadata, whatever mixture of numbers (including array scalars, infinities and not-a-number), strings, lists, tuples, dictionaries and arrays it contains, is written to a file that a safe reader loads and "
  "from which an equal record is rebuilt. Array-library values are stored as plain values.",
  [I], "all nested values of the supported kinds in all positions",
  "Tests round-trip one record of each type.",
  [B + "result.py", B + "task.py", B + "utils/dict_dumper.py"], [("representers", B + "utils/dict_dumper.py")],
  "exhaustive enumeration of bounded nested values through the real writer and a safe reader",
  "All containers up to the bounded depth over the leaf alphabet.")

P("P14", "Samplers are pure functions of parameters, number of points and seed",
  "Every sampler returns exactly the requested number of points with the declared dimensions of X and Y, finite, for every number of points from one up and every seed, given as an integer or as a key. "
  "The same request always gives the same points, whatever was sampled or computed before, by this or any other object, and different seeds give different points. The declared mutual information is a finite non-negative "
  "number that does not change either.",
  [C, H, I], "all sampler families and parameters x number of points x seeds x histories of interleaved operations",
  "Tests sample each family once with one seed and size.",
  [S], [("seeding", S + "base.py cast_to_rng"), ("families", S)],
  "explicit-state exploration of all bounded operation histories over every sampler family on the real code",
  "44 sampler configurations; histories up to the bounded length.")

P("P15", "What a sampler draws follows the law it is named after",
  "The points drawn by every sampler follow the declared joint distribution: each coordinate has the declared marginal law with the declared location and scale, X and Y have the declared dependence "
  "(correlations, noise, discreteness, inflation, mixture weights), different points are independent, and concatenated or mixed samplers combine their parts correctly.",
  [C], "all sampler families, parameter settings and seeds",
  "Tests check the mean and covariance of a few samplers loosely.",
  [S], [("sampling", S)],
  "exhaustive enumeration of a finite set of (sampler configuration, seed) executions, each compared with the exact law",
  "A bounded exhaustive exploration of configurations and fixed seeds; the distribution over seeds itself is not proved: deviations below 3.3/sqrt(20000) in distribution function are invisible.",
  level="exploration")

P("P16", "The ground-truth mutual information of closed-form distributions is exact",
  "The declared mutual information equals the true one for Gaussians of any dimension and scale, Student-t distributions with any degrees of freedom including the Gaussian limit, bivariate normals, uniform "
  "variables with additive uniform noise, discrete-uniform mixtures, zero-inflated Poissonization, and independent concatenations (the sum). For Gaussians it is invariant under rescaling, reordering within X or Y and exchanging X and Y, "
  "and stays finite for any dimension and units.",
  [C], "all parameters (dimensions, covariances, units, degrees of freedom, noise levels, alphabets, inflation, concatenations)",
  "Tests check a few parameter values, never extreme units, large dimension or the limits.",
  [S + "_splitmultinormal.py", S + "_split_student_t.py", S + "_additive_uniform.py", S + "_discrete_continuous.py", S + "_independent_coordinates.py"],
  [("Gaussian MI", S + "_splitmultinormal.py mutual_information"), ("Student correction", S + "_split_student_t.py"), ("closed forms", S + "_additive_uniform.py, _discrete_continuous.py")],
  "exhaustive enumeration of parameter grids on the real code against independent references (canonical correlations, quadrature, series)",
  "Complete on the grids; reference values in double precision.")

P("P17", "Descriptions that are not distributions are refused; valid ones are accepted",
  "Constructing a distribution from a matrix that is not symmetric positive definite, from shapes that do not match the dimensions, or from parameters outside their range raises an error instead of "
  "producing a sampler with a meaningless ground truth; every valid description is accepted. The same holds for estimator parameters with a documented range.",
  [I, C], "all matrices, shapes and scalar parameters",
  "Tests probe one or two bad inputs for a few classes.",
  [S, E], [("validation", S + "_splitmultinormal.py _can_be_covariance"), ("ranges", S)],
  "exhaustive enumeration of small matrices and boundary parameter grids on the real constructors, exact rational definiteness oracle",
  "Matrices within rounding of singular or asymmetric are not judged.")

P("P18", "Covariance constructors build the covariance of the model they describe",
  "The latent-variable parametrizations return the covariance implied by their model (every X and Y is the stated combination of shared, X-only, Y-only, pairwise and private unit Gaussians), for any dimensions, number of interacting "
  "pairs and weights, with the documented defaults, labels and reported correlation strengths. The parametrised correlation matrices have exactly the stated correlations at the stated positions and zeros elsewhere, and the canonical "
  "construction has the requested canonical correlations.",
  [C], "all dimensions, numbers of interacting pairs and weights",
  "Tests check a few dimensions and mostly symmetric weights.",
  [S + "_matrix_utils.py"], [("mixing matrix", S + "_matrix_utils.py GaussianLVMParametrization"), ("special cases", S + "_matrix_utils.py")],
  "exhaustive enumeration of parametrizations on the real code against a symbolic-style reference construction",
  "Complete within the bound.")

P("P19", "Point transforms are the invertible maps they are documented to be",
  "A spiral maps x to A exp(s G |x|^2) x: it keeps norms and volumes up to the initial matrix and is undone by the opposite spiral; generators are the canonical basis of the skew-symmetric matrices. "
  "The one-dimensional maps (normal CDF, half-cube, power, wiggles, inverse hyperbolic sine) have their documented values and are strictly increasing, the Swiss roll is the documented embedding, and the numerical inverse of an increasing function "
  "is its inverse on the whole interval, monotone, and never leaves the interval.",
  [I, C], "all points, generators, speeds, initial matrices, increasing functions and intervals",
  "Tests check a couple of points or a Jacobian at a few points.",
  ["src/bmi/transforms/_rotate.py", "src/bmi/transforms/_invert_cdf.py", "src/bmi/transforms/simple.py", B + "tasks/wiggly.py", B + "tasks/power.py"],
  [("spiral", "src/bmi/transforms/_rotate.py"), ("bisection", "src/bmi/transforms/_invert_cdf.py"), ("scalar maps", "src/bmi/transforms/simple.py")],
  "exhaustive enumeration of generators/speeds/initial matrices and dense grids on the real maps against double-precision references",
  "Grid-complete; single precision tolerances.")

P("P20", "A transformed sampler pushes the base sample through the maps and keeps its MI",
  "A sampler built from another by transforming X and/or Y returns, for every seed and number of points, exactly the images of the points the base sampler returns for the same request, X through the X map and Y through the Y map, pair by pair, "
  "whether the map is given per point or for a batch, also when transforms are nested. Its mutual information is that of the base, and its dimensions are those of the base plus the declared additions.",
  [C, H], "all base samplers x maps of X x maps of Y x vectorisation x nesting x embeddings",
  "Tests check a single transform of a single sampler.",
  [S + "_transformed.py"], [("composition", S + "_transformed.py")],
  "exhaustive enumeration of bases, map pairs and nested chains on the real sampler against a reference composition",
  "float32 tolerance; chains whose spin angle is ill-conditioned in single precision are only checked for dimensions and MI.")

P("P21", "Bend and Mix Models have the density, marginals and PMI of their construction",
  "A fine distribution built from Gaussian, Student or product distributions by mixing and by transforming X and/or Y with diffeomorphisms has, at every point, exactly the joint and marginal log-densities of that "
  "construction and the log-ratio as its pointwise mutual information. When an analytic mutual information is declared it is the true one, transforming keeps it, and mixing drops it (unless there is nothing to mix). Inconsistent descriptions are refused.",
  [C, I], "all bounded trees of mixtures and transforms over all base distributions and dimensions, at all points",
  "Tests check the PMI of a few Gaussians and one mixture.",
  [S + "_tfp/_core.py", S + "_tfp/_normal.py", S + "_tfp/_student.py", S + "_tfp/_product.py"],
  [("mixing", S + "_tfp/_core.py mixture"), ("transforming", S + "_tfp/_core.py transform"), ("base distributions", S + "_tfp/_normal.py, _student.py, _product.py")],
  "exhaustive enumeration of construction trees on the real code against an independent density model",
  "Complete over the trees of the bound; single precision tolerance.")

P("P22", "PMI profiles, Monte Carlo MI and wrapped samplers follow the distribution",
  "For every distribution the sampled PMI profile is the PMI at points drawn from the joint law with the given key, the Monte Carlo estimate is its mean and the reported standard error its standard deviation over the square root of the number of points. "
  "The sampler wrapped around a distribution draws X and Y jointly from it, reproducibly per seed, and its ground truth is the declared one, or else a non-negative Monte Carlo value that never changes with what else was done.",
  [I, C, H], "all PMI tables, distributions, keys, numbers of points and histories of operations",
  "Tests compare one estimate loosely with the truth.",
  [S + "_tfp/_core.py", S + "_tfp/_wrapper.py"], [("profile and estimate", S + "_tfp/_core.py"), ("sampler", S + "_tfp/_wrapper.py")],
  "explicit-state exploration of scripted PMI tables and bounded operation histories on the real code",
  "Single precision: averages compared at 1e-4 relative.")

P("P23", "Every benchmark task is the distribution its id says; ids lead to one task",
  "Each task of the benchmark list, of the workflow configurations and of every task factory has the dimensions, joint law, parameters and true mutual information that its id describes, and its samples are reproducible per seed. "
  "Ids are unique and registered under themselves, and the estimators of the workflow configurations run with the settings their labels state.",
  [C, I], "all registered and configured tasks, all factories over their parameters, all seeds and numbers of points",
  "Tests only check that tasks can be created and sampled.",
  [B + "task_list.py", B + "tasks", B + "task.py", "workflows/benchmark"],
  [("registry", B + "__init__.py BENCHMARK_TASKS"), ("factories", B + "tasks"), ("configurations", "workflows/benchmark/*/config.py")],
  "exhaustive enumeration of the registry, the configurations and factory grids on the real code against a reference parsed from the id alone",
  "Ground truth of mixture tasks is a Monte Carlo value, judged at 0.02-0.03. One mislabelled estimator is a known finding.")

P("P24", "A transformed task is the image of its base task and leaves it untouched",
  "Applying a task transform (inverse hyperbolic sine, normal CDF, half-cube, power, wiggles, spiral, rotation, Swiss roll, rescaling, uniformising, gaussianising) gives a task whose samples are the transformed samples of the base for the same seed, "
  "with the same mutual information, the base's parameters plus its own, and an id extending the base's. Transforms compose in any order, options take effect, undefined ones are refused, and neither the base nor its other images change.",
  [C, H], "all chains of transforms over base tasks, all options, all orders of construction",
  "Tests apply each transform once to one task and look at shapes.",
  [B + "tasks", S + "_transformed.py"], [("transform factories", B + "tasks/*.py transform_*"), ("composition", S + "_transformed.py")],
  "explicit-state exploration of all bounded chains of transforms on the real code, each step against a reference map",
  "Points where a single-precision map is ill-conditioned (large spin angles, near ties of ranks) are not compared.")

P("P25", "A sample saved to a file is read back exactly",
  "Every sample saved as CSV is read back with the same numbers, the same order of points and coordinates and the same split into X and Y, for any dimensions, numbers of points, element types and magnitudes; a later save replaces the whole "
  "file and never another one, and malformed samples are refused. What a task saves is what it samples, and its saved metadata state its id, name, dimensions, parameters and mutual information.",
  [I, H], "all samples (shapes, values, types) and sequences of saves",
  "Tests round-trip one small sample with a tolerance.",
  ["src/bmi/utils.py", B + "task.py"], [("writer and reader", "src/bmi/utils.py save_sample, read_sample, read_sample_dims"), ("tasks", B + "task.py save_sample, save_metadata")],
  "exhaustive enumeration of shapes, hard-to-print values, types and save sequences through the real writer and reader",
  "Complete within the bound.")

P("P26", "Results reach the tables unchanged: gathering, reading, means, convergence",
  "Results gathered from result files into the results table are read back with equal values, dictionaries included. The benchmark table shows, for each task and estimator, the mean over seeds at the requested (by default largest) number of points, of "
  "all estimates or only those above a tenth of the largest, next to the true value, and the convergence table the fraction of the latter, whatever the order or number of results.",
  [I, H], "all result sets (estimates incl. failures, sizes, seeds, missing cells), stored dictionaries, job orders",
  "There are no tests of the workflow utilities.",
  ["workflows/benchmark/_utils.py", B + "result.py"], [("reader", "workflows/benchmark/_utils.py read_results"), ("tables", "workflows/benchmark/_utils.py create_*_table")],
  "explicit-state exploration of all bounded result sets and job orders through the real files, reader and tables against a reference",
  "The HTML renderer is replaced by a recorder. Eight known findings (reading of special values, sizes mixed).")

P("P27", "The Gaussian-mixture estimator runs the stated model and averages its draws",
  "The Bayesian estimator samples from the stated model: Dirichlet weights with the requested (or default) concentration, normal means, half-Cauchy scales, LKJ correlations and the mixture likelihood of the (optionally standardised) data, with the requested numbers of components, warm-up "
  "steps and draws. Each draw becomes exactly the mixture it describes, the requested number of distinct draws is used, and the estimate is the mean of their mutual informations, reproducibly; using it before fitting is refused.",
  [C, H, I], "all hyperparameters, data, latent values, posterior draws and sequences of operations",
  "Tests run one short chain and check that a number comes out.",
  [E + "external/gmm.py"], [("model", E + "external/gmm.py model"), ("draws", E + "external/gmm.py sample_into_bmm_distribution"), ("estimate", E + "external/gmm.py GMMEstimator")],
  "exhaustive enumeration of model configurations and, over a scripted posterior, of operation histories on the real estimator",
  "The sampler (NUTS) itself is trusted.")

P("P28", "Figures have axes of exactly the requested sizes, gaps and margins",
  "A figure created from axes sizes has, for every combination of widths, heights, numbers of rows and columns, gaps and margins, exactly the stated axes in inches, arranged in reading order, and exactly the size they add up to. Contradictory counts are refused.",
  [C], "all size lists, counts, gaps, margins and squeezing",
  "There are no tests of the plotting utilities.",
  ["src/bmi/plot_utils/subplots_from_axsize.py"], [("layout", "src/bmi/plot_utils/subplots_from_axsize.py")],
  "exhaustive enumeration of layouts on the real code against a reference layout",
  "Complete within the bound.")

W = "workflows/projects/"

P("P29", "Tasks searched for a requested mutual information have it",
  "The root search used to build the study's tasks returns, for every increasing function and reachable target, an argument inside its interval whose value is within the requested precision, None only where there is no solution (or the function is undefined on "
  "part of the interval), reproducibly. Tasks built with it (sparse Gaussian, spiral, half-cube, sparsity) have the requested dimensions and mutual information and truthful parameters, and whitening a set of tasks keeps each one's identity, parameters and mutual information.",
  [I, C], "all increasing functions, partial functions, intervals, targets, precisions, dimensions and families",
  "There are no tests of the study's helper modules.",
  [W + "Beyond_Normal/_high_mi_utils.py", W + "Beyond_Normal/_sparsity_utils.py", W + "Beyond_Normal/_common_figure_utils.py"],
  [("search", W + "Beyond_Normal/_high_mi_utils.py binsearch"), ("families", W + "Beyond_Normal/_high_mi_utils.py generate_*"), ("sparsity", W + "Beyond_Normal/_sparsity_utils.py"), ("scaling", W + "Beyond_Normal/_common_figure_utils.py scale_tasks")],
  "exhaustive enumeration of functions, intervals, targets and task families on the real code against the definition of a root and closed forms",
  "Where the function is undefined on part of the interval, giving up is allowed.")

P("P30", "The figures of the study show what the results say",
  "For every set of results: a neural run counts as failed exactly when its estimate is negative or below a tenth of the largest of the same estimator, task and size; the estimate table shows the mean over the remaining seeds at the largest size next to the true value; "
  "the sample-size table shows the smallest size from which on all sizes are solved (within a factor 1.5), or that there is none; the failure table counts failures; curves show mean and spread over seeds by parameter. The given results are not changed.",
  [I], "all estimates, seeds, sizes, estimators, tasks, orders of rows and reader options",
  "There are no tests of the study's helper modules.",
  [W + "Beyond_Normal/_common_figure_utils.py"],
  [("failures", W + "Beyond_Normal/_common_figure_utils.py preprocess_benchmark_results"), ("needed", W + "Beyond_Normal/_common_figure_utils.py n_samples_needed"), ("curves", W + "Beyond_Normal/_common_figure_utils.py plot_mi")],
  "explicit-state exploration of all bounded result tables through the real figure code against a reference, with a recording drawing library",
  "seaborn is not installed: a recorder stands in for it.")

P("P31", "Benchmark runs do not depend on job order, interruptions or processes",
  "For the rule files of the benchmark and of both projects: in whatever order the jobs run, in one process or several, interrupted at any job and repeated, or extended later by a seed, size, task or estimator, the run leaves the same samples, results (running times aside) and table. "
  "The table has exactly one row per task, estimator, size and seed, with the value the estimator gives on that sample on its own, the true value and the task's parameters.",
  [SC, F, H], "all orders of the jobs, interruptions of each job with each leftover, splits over processes and extensions",
  "The tests never run the workflows.",
  ["workflows/benchmark/_common_benchmark_rules.smk", W + "Beyond_Normal/_core_rules.smk", W + "Mixtures/_benchmark_rules.smk", "workflows/benchmark/_utils.py", B + "run.py", B + "result.py", B + "task.py"],
  [("rules", "rule files sample_task, apply_estimator, results"), ("run", B + "run.py"), ("result files", B + "result.py")],
  "stateless exploration of all schedules of the real rule files' jobs, and of all interruption points, under a controlled scheduler",
  "Snakemake is not installed: a small reader of its files runs the real rule bodies; its own scheduler is trusted to respect dependencies.")

P("P32", "The study's workflows are complete and write what follows from their input",
  "In every workflow each file a rule needs is written by exactly one rule (results of two other workflows excepted), every declared estimator runs on every declared task, size and seed, on that task's own sample, tasks are registered under their own identifiers, and tables of names, colours and markers cover what they are used for. "
  "Ground truths, aggregates, quantiles, profiles, tables and figures follow from the rules' inputs with the declared settings, and the example distributions (X, Galaxy, AI, Waves, outliers, balls) have the stated densities, samplers and mutual information.",
  [C, I], "all workflows and their job graphs; all bounded result sets, estimates, posterior draws and stored samples",
  "The tests never run the workflows.",
  ["workflows/benchmark", W + "Beyond_Normal", W + "Mixtures", W + "Mixtures/example_distributions.py"],
  [("graphs", "workflows/**/*.smk rules"), ("aggregation", W + "Mixtures/outliers.smk, how_good_integration_is.smk"), ("posterior", W + "Mixtures/gmm_benchmark.smk, fitting_gmm.smk"), ("tables", W + "Mixtures/v2_results_table.smk"), ("examples", W + "Mixtures/example_distributions.py")],
  "exhaustive exploration of every workflow's job graph and of bounded inputs of its real rule bodies, against reference densities and aggregations",
  "Snakemake and seaborn are not installed: a small reader runs the rules; one external drawing script is not run.")


P("P33", "What was built stays as built: no aliasing with the caller's data",
  "Samplers, fine distributions, transforms, estimators and tasks are fixed when they are made: whatever the caller does afterwards to the arrays, lists or dictionaries it passed in, or to anything the object returned, "
  "changes neither later samples nor ground truths, parameters or estimates, and no object writes into what it was given. Calling again with the same buffers always uses their present content.",
  [I, H], "all kinds of object x forms of array x all sequences of writes into arguments and results interleaved with calls",
  "Tests build an object, use it once and drop it; they never touch an array again after handing it over, and never one that JAX can adopt without a copy.",
  [S + "_splitmultinormal.py", S + "_split_student_t.py", S + "_tfp", "src/bmi/transforms/_rotate.py", E + "ksg.py", E + "neural", "src/bmi/utils.py", B + "task.py"],
  [("copies of parameters", S + "_split_student_t.py __init__, _tfp/_core.py mixture, transforms/_rotate.py Spiral"), ("copies of results", S + "_split_student_t.py covariance, " + E + "ksg.py get_predictions")],
  "exhaustive exploration of all write/call sequences on every kind of object, compared bit for bit with untouched twins",
  "Private attributes and parameter records are not written to.")
P("P34", "Calls made at the same time do not disturb each other",
  "Samplers, fine distributions, transforms, tasks and the package's functions may be used from several threads, and estimators with one object per thread: whichever way two calls overlap, each returns bit for bit "
  "what it returns alone, neither fails because of the other, and the shared object answers afterwards as a new one does. While any call runs, other code of the process sees an unchanged working directory, "
  "environment and global random generators, and may use and change them without changing what the call returns.",
  [I, SC], "all ordered pairs of operations on 40 kinds of object x all placements of one switch (two, for short calls) between source lines of the package",
  "No test runs two calls at once; a shared scratch buffer, a global seed or a fixed file name needs a switch between two particular lines to show.",
  [S, E, "src/bmi/utils.py", "src/bmi/transforms", B + "task.py"],
  [("statelessness of sampling", S + "base.py"), ("own generators", "src/bmi/utils.py add_noise, " + E + "neural/_training.py batches"), ("own temporary file", E + "external/external_estimator.py")],
  "stateless model checking: two threads of the real code under a controlled scheduler, every switch placement up to the bound",
  "Switches happen between source lines of the package; the thread safety of the libraries it calls is theirs. Nothing is claimed about one estimator object shared by threads.")
P("P35", "A call that is cut short leaves no trace",
  "A call may be interrupted (Ctrl-C) at any moment: the caller's data, the working directory, environment, global generators, temporary and open files are afterwards as before the call, every later call on the "
  "same object gives bit for bit what it gives on a new one, and an object that remembers its last fit remembers either the old or the new one, whole.",
  [I, "crash_points"], "all operations of 40 kinds of object, new and used, x an interrupt at every source line the package executes during the call, x every later operation",
  "Tests never interrupt a call; a half-updated memory of a fit, a leaked temporary file or a changed directory shows only after a cut at one particular line.",
  [S, E, "src/bmi/utils.py", B + "task.py", B + "run.py"],
  [("update after computing", E + "ksg.py _fit"), ("temporary file in a with block", E + "external/external_estimator.py"), ("fresh training state per call", E + "neural/_estimators.py")],
  "fault injection at every line of the real code, exhaustively, followed by every operation of the object",
  "Interrupts arrive between source lines, not inside cleanup code; a file the call was writing may be incomplete.")

P("P36", "Bend and Mix Models with discrete parts have their exact tables and laws",
  "A Bend and Mix Model may have discrete variables on either side or both. With both discrete, the model's joint, marginals and pointwise mutual information are the exact table of its mixture, cell by cell (minus infinity "
  "for impossible cells), samples visit only possible cells and each as often as it should, and profiles and Monte Carlo estimates are those of the table (the entropy of the weights, when the parts can be told "
  "apart). With one side discrete and the other continuous and possibly transformed, densities, samples and pointwise values are those of the mixed law. This also holds for mixtures of mixtures and for wrapped, transformed, concatenated or saved samples.",
  [I, C], "mixtures of up to 4 products of Bernoulli vectors, Bernoulli/Poisson/geometric x normal/Student parts, left or right, weights, maps; every cell or grid point",
  "The tests' models are Gaussian; log(0), integer-valued draws and a side without a density only arise with discrete parts.",
  [S + "_tfp/_core.py", S + "_tfp/_product.py", S + "_tfp/_wrapper.py", S + "_tfp/_normal.py"],
  [("mixture of joints and of marginals", S + "_tfp/_core.py mixture"), ("product", S + "_tfp/_product.py"), ("transform of one side", S + "_tfp/_core.py transform")],
  "exhaustive enumeration of models and of all cells of their tables, real code against the exact table",
  "TFP's Bernoulli, Poisson and geometric laws are taken as the parts; frequencies are judged at 6.5 standard deviations under fixed keys.")


def main():
    built = {p.name.split("_")[0].upper() for p in (VERIF / "mc" / "checks").glob("p*_*.py")}
    with open(VERIF / "properties.jsonl", "w") as fh:
        for c in CATALOG:
            assert len(c["title"]) <= 80, (c["id"], len(c["title"]))
            fh.write(json.dumps({
                "id": c["id"], "title": c["title"], "statement": c["statement"],
                "quantifier": {"over": c["over"], "text": c["text"]},
                "why_tests_cant": c["tests"],
                "anchors": {"files": c["files"], "mechanism": [{"name": a, "where": b} for a, b in c["mechanism"]],
                            "observe_at": c["observe"] or ["public Python API"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
        for n in NOT_APPLICABLE:
            fh.write(json.dumps(n["full"], ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": f"{PY} -c \"import jax, sklearn, tensorflow_probability, numpyro\"",
        "checks": [
            {"property": c["id"], "quick_cmd": f"{PY} -m mc {c['id']} --tier quick",
             "thorough_cmd": f"{PY} -m mc {c['id']} --tier thorough",
             "technique": c["technique"], "level": c["level"], "level_note": c["note"]}
            for c in CATALOG if c["id"] in built
        ],
        "not_applicable": [{"property": n["full"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE]
        + [{"property": c["id"], "reason": "check not built yet"} for c in CATALOG if c["id"] not in built],
        "notes": "No hooks in /repo. All checks run the real code from /repo/src (compiled from source on every run, never from cached bytecode).",
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
