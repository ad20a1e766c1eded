#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The property texts live here, one P(...) call each."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": anchors})


C = "copulae/"
P("C01", "Every copula's cdf is a copula distribution function",
  "For every copula family that offers a cdf, every dimension and admissible parameter value, the cdf is a distribution function on the unit "
  "cube with uniform margins: values lie in [0,1], it is 0 as soon as one coordinate is 0, it equals the remaining "
  "coordinate when all others are 1, it never decreases in a coordinate, and every box receives non-negative "
  "probability. The cdf equals the family's textbook formula.",
  ["inputs", "configurations"],
  "all families x dimensions x admissible parameters x all points of the closed unit cube, corners, edges and tails included",
  "The tests compare a few dozen interior points at one or two parameter values with numbers exported from R; no test "
  "touches a boundary, a tail cell, a negative or zero parameter, or checks that a box has non-negative mass.",
  [C + "archimedean/abstract.py", C + "archimedean/clayton.py", C + "archimedean/frank.py", C + "archimedean/gumbel.py",
   C + "elliptical/gaussian.py", C + "elliptical/student.py", C + "indep/indep.py", C + "stats/_multivariate_t.py"],
  [("cdf = psi(sum ipsi(u))", C + "archimedean/abstract.py"), ("multivariate normal / t cdf at the marginal quantiles",
    C + "elliptical/gaussian.py, " + C + "elliptical/student.py")], ["cdf()"])

P("C02", "Every copula's pdf is the density of its cdf",
  "For every copula family, dimension and admissible parameter, the pdf is non-negative, equals the family's textbook "
  "density inside the open unit cube, and integrates over any box inside it to the probability its own cdf gives that box. A row with "
  "a coordinate outside [0,1] never yields a finite positive density for the parametric Archimedean families.",
  ["inputs", "configurations"],
  "all families x dimensions x admissible parameters x all points and boxes of the open unit cube, plus rows that leave it",
  "The tests compare pdf with stored numbers at fixed parameters; nothing ties pdf to cdf, and negative, zero and "
  "extreme parameters, d>2 and rows outside the cube are not evaluated.",
  [C + "archimedean/clayton.py", C + "archimedean/frank.py", C + "archimedean/gumbel.py", C + "elliptical/gaussian.py",
   C + "elliptical/student.py", C + "stats/_multivariate_t.py", C + "special/special_func.py"],
  [("closed form log densities", C + "archimedean/*.py pdf"), ("joint minus marginal log densities", C + "elliptical/*.py pdf")],
  ["pdf()", "cdf()"])

P("C03", "log=True always returns the logarithm of the plain value",
  "For every copula (parametric, empirical, independent, mixture, with custom marginals) and every generator, derivative, "
  "polynomial or coefficient function offering a log switch, the value with the switch on is the natural logarithm of the "
  "value with the switch off (of its magnitude, for the derivative functions, which are negative), for every row and parameter at which the plain value is positive, and the plain value "
  "is what an omitted switch gives.",
  ["inputs", "configurations"],
  "all classes and functions with a log switch x admissible parameters x rows",
  "Tests exercise the log switch on one or two rows of a few families and never at special parameters (0, 1) or on the "
  "mixture and marginal copulas.",
  [C + "archimedean/clayton.py", C + "archimedean/gumbel.py", C + "archimedean/frank.py", C + "elliptical/gaussian.py",
   C + "empirical/empirical.py", C + "indep/indep.py", C + "marginal/marginal.py", C + "mixtures/gmc/gmc.py"],
  [("log argument of pdf/cdf/ipsi/dipsi", C + "copula/base.py")], ["pdf(log=)", "cdf(log=)"])

P("C04", "Evaluation is row-wise, stateless and independent of the input container",
  "Evaluating a cdf or pdf on a batch gives for each row exactly what evaluating that row alone gives, in any order, "
  "for any number of rows, none included, whether the rows come as nested lists, tuples, integer or float arrays, DataFrames or (one row) "
  "Series or flat vectors, positionally or by keyword; one row gives a plain float. Input with the wrong number of columns "
  "or dimensions raises ValueError, and neither the caller's data nor the copula is modified by evaluating.",
  ["inputs", "histories"],
  "all copula classes x all row subsets/orders of an alphabet of rows (interior, boundary, invalid) x all container kinds x all evaluation orders",
  "Each test passes one container with generic interior rows; rows of different kinds (boundary, NaN, out of range) are never mixed in a batch.",
  [C + "utility/annotations/reshape.py", C + "utility/annotations/validations.py", C + "archimedean/clayton.py",
   C + "archimedean/frank.py", C + "archimedean/gumbel.py", C + "marginal/marginal.py", C + "empirical/empirical.py"],
  [("shape_first_input_to_cop_dim / validate_data_dim / squeeze_output", C + "utility/annotations")], ["cdf()", "pdf()"])

P("C05", "Copulas respect permutation of the variables",
  "Archimedean and independence copulas are exchangeable: permuting a row's coordinates changes neither cdf nor pdf. For "
  "elliptical copulas, permuting the coordinates together with rows and columns of the correlation matrix changes neither cdf "
  "nor pdf; an empirical copula built on column-permuted data behaves likewise, and so does a copula with marginals.",
  ["inputs", "configurations"],
  "all families x all permutations of up to 4 variables x all rows of a lattice x parameters",
  "No test permutes coordinates; an index mix-up between the parameter vector and the matrix positions is invisible with the "
  "equicorrelated or bivariate parameters used.",
  [C + "core/misc.py", C + "elliptical/abstract.py", C + "elliptical/student.py", C + "archimedean/abstract.py", C + "empirical/empirical.py"],
  [("vector to matrix layout of correlations", C + "core/misc.py create_cov_matrix, tri_indices")], ["cdf()", "pdf()"])

P("C06", "An elliptical copula's correlation matrix survives any edit sequence",
  "After any sequence of item assignments and whole-parameter assignments, accepted or rejected, the matrix of an elliptical "
  "copula is symmetric with unit diagonal, entries in [-1,1] and no negative eigenvalue; an accepted edit that already yields a "
  "valid matrix changes exactly the addressed entries and their mirror images, and reading an item, the whole matrix and the "
  "parameters always agree. A rejected edit leaves the copula unchanged, and arrays owned by the caller and the "
  "copula never influence each other.",
  ["histories", "inputs"],
  "all sequences of edits (scalar/pair/row/column/whole matrix/parameter vector, valid and invalid values) up to a depth, dimensions 2-4",
  "Tests perform a handful of single assignments from the initial state; nothing chains edits, mixes rejected ones in, or looks "
  "at array aliasing and integer inputs.",
  [C + "elliptical/abstract.py", C + "elliptical/gaussian.py", C + "elliptical/student.py", C + "core/linalg.py", C + "core/misc.py"],
  [("item assignment with projection to the nearest valid matrix", C + "elliptical/abstract.py __setitem__"),
   ("params setters", C + "elliptical/gaussian.py, " + C + "elliptical/student.py")],
  ["cop[...]", "cop.sigma", "cop.params"], [("correlation vector", "off-diagonal correlations", C + "elliptical/abstract.py")])

P("C07", "Parameter domains are enforced the same way by every route",
  "The constructor and parameter assignment of every parametric copula accept exactly the family's admissible parameters for the "
  "dimension (NaN meaning 'not set' for Archimedean families) and reject all others with an exception. After any sequence of accepted and "
  "rejected assignments the copula behaves like a fresh one built from the last accepted value.",
  ["histories", "inputs"],
  "all families x dimensions x all sequences of assignments over valid, boundary and invalid values (ints, floats, numpy scalars, infinities, NaN)",
  "Tests assign one invalid value per family and stop at the exception; they never check the state after it nor the constructor/setter agreement.",
  [C + "archimedean/clayton.py", C + "archimedean/frank.py", C + "archimedean/gumbel.py", C + "elliptical/student.py", C + "elliptical/gaussian.py", C + "copula/base.py"],
  [("constructor checks and params setters", C + "archimedean/*.py, " + C + "elliptical/*.py")], ["params", "cdf()"])

P("C08", "Fitting reports the model it leaves behind, whatever the optimizer does",
  "Whatever points the numerical optimizer probes and whatever it finally returns, a successful maximum likelihood fit leaves the copula "
  "at the returned estimate, and the fit summary reports that estimate, the log likelihood of the copula at it for the fitted data "
  "(independently of the scaling of the objective), the sample size and the effective optimizer set-up. The objective handed to the "
  "optimizer is minus the scaled log likelihood at valid parameters and +infinity at invalid ones; the caller's data, starting point and option "
  "dictionaries are never modified, user options override defaults without discarding the others, and at verbosity 0 nothing is printed.",
  ["fault_sequences", "inputs", "configurations"],
  "all optimizer behaviours (sequences of probed points from valid/boundary/invalid/NaN values, success or failure) up to a length x families x methods x option dictionaries",
  "Tests run scipy's optimizer on one good data set, so only one well-behaved sequence of probes is ever seen, never a failing one, never a scale, and never a shared options dictionary.",
  [C + "copula/estimator/estimator.py", C + "copula/estimator/max_likelihood.py", C + "copula/estimator/corr_inversion.py", C + "copula/base.py", C + "elliptical/student.py", C + "utility/dict.py"],
  [("objective closure and result handling", C + "copula/estimator/max_likelihood.py"), ("option merging", C + "copula/estimator/estimator.py form_options")],
  ["fit()", "summary('fit')", "params"])

P("C09", "A fit depends only on its own arguments, not on the object's history",
  "Fitting a copula gives the same parameters, summary and later behaviour whatever was done to the object before: earlier fits with other "
  "data, methods or containers, parameter edits, evaluations, random draws or failed calls. A call rejected for bad data "
  "leaves parameters and fit summary as they were.",
  ["histories"],
  "all sequences of fit/evaluate/edit/draw/failing operations up to a depth followed by a fit, compared with the same fit on a fresh object",
  "Tests fit each object once, right after construction.",
  [C + "copula/base.py", C + "copula/estimator/corr_inversion.py", C + "copula/estimator/estimator.py", C + "elliptical/student.py", C + "marginal/marginal.py", C + "empirical/empirical.py", C + "mixtures/gmc/gmc.py"],
  [("fit stores parameters, summary and columns on the object", C + "copula/base.py fit")], ["fit()", "params", "summary()"],
  [("_columns, _fit_smry", "remembered column names and last fit", C + "copula/base.py")])

P("C10", "Column labels steer evaluation and naming consistently across a history",
  "After fitting on a DataFrame (or building from one, or from field names) a copula evaluates DataFrames and Series by column "
  "name, whatever the order of their columns (a frame that lacks one of the names is refused), draws random DataFrames carrying exactly those names in fit order, and treats plain "
  "arrays positionally. After refitting on other data only the most recent data's labels count, and none if it was a plain array; a "
  "rejected fit, and copulas that need no fitting, keep the labels they had.",
  ["histories", "configurations"],
  "all sequences of fits on labelled, relabelled, reordered and unlabelled data up to a depth x all column orders of the evaluated frame",
  "Tests evaluate the frame that was just fitted, in the same column order, and never refit.",
  [C + "utility/annotations/reshape.py", C + "copula/base.py", C + "marginal/marginal.py", C + "empirical/empirical.py", C + "indep/indep.py"],
  [("remembered columns and reordering by them", C + "utility/annotations/reshape.py")], ["cdf()", "pdf()", "random()"])

P("C11", "Pseudo-observations are scaled ranks with the documented tie rules",
  "For every data matrix or vector and every tie rule, pseudo-observations are each column's ranks under that rule divided by the number of rows plus one, "
  "computed column by column; they depend only on the weak order of the values, keep the shape, and keep a DataFrame's index "
  "and column labels. The input is not modified.",
  ["inputs", "configurations"],
  "all weak orderings of up to 6 observations x columns x tie rules x containers and index/column labels",
  "Tests compare two data sets under the average rule with stored numbers; tie rules other than the default and label handling are hardly reached.",
  [C + "core/misc.py"], [("rank_data and pseudo_obs", C + "core/misc.py")], ["pseudo_obs()", "cop.pobs()"])

P("C12", "Correlation matrices are exact for every method and missing-data rule",
  "For every numeric data set, method and missing-data policy, the correlation function returns a symmetric matrix with unit diagonal whose entries are "
  "the Pearson, Kendall (tau-b) or Spearman coefficients of exactly the observations that policy keeps, with NaN where the policy "
  "propagates missing values; DataFrame and Series labels are carried over and the input is left untouched. The specialised functions agree with the general one, and invalid methods, policies or shapes raise ValueError.",
  ["inputs", "configurations"],
  "all small data sets over a value alphabet with ties and missing cells x methods x policies x containers",
  "Tests use one data frame and one missing-cell pattern per policy.",
  [C + "stats/correlation.py"], [("row selection per policy and coefficient dispatch", C + "stats/correlation.py")], ["corr()", "pearson_rho()", "kendall_tau()", "spearman_rho()"])

P("C13", "Empirical copulas are the stated functions of the data's ranks",
  "For every data set, smoothing, tie rule and offset, the empirical copula's cdf and pdf, plain or logged, equal the defining sums (step, beta or "
  "checkerboard) over the data's pseudo-observations, scaled by the offset; changing smoothing or tie rule later acts exactly "
  "as if built that way. Random draws are rows of the data, and mapping pseudo-observations to empirical margins is monotone per column and returns order "
  "statistics of the original column for every level in [0,1].",
  ["inputs", "configurations", "histories"],
  "all weak orderings of small data sets x smoothings x tie rules x offsets x lattice of evaluation points x sequences of setting changes",
  "Tests evaluate stored numbers for one tie-free data set; ties, offsets, boundary levels and setting changes are not explored.",
  [C + "empirical/empirical.py", C + "empirical/distribution.py", C + "empirical/_distribution.pyx"],
  [("compiled empirical distribution kernels", C + "empirical/_distribution.pyx")], ["EmpiricalCopula.cdf/pdf/random/to_marginals"])

P("C14", "The exchangeability test computes its statistic and p-value exactly",
  "For every bivariate sample with or without ties, grid size and replication count, the reported statistic is the Cramer-von Mises distance "
  "between the empirical copula and its transpose, unchanged by swapping the two variables, and the p-value is (1/2 + number of replicates at "
  "least as large as the statistic)/(replicates + 1). Replicates follow the multiplier scheme without ties and, with ties, the resampling that "
  "exchanges the two coordinates of each row on independent coin flips while keeping each margin's ties.",
  ["inputs", "schedules"],
  "all small samples (permutations and weak orderings) x grid sizes x all coin-flip sequences of the bootstrap",
  "Tests check one data set's p-value against a stored number with a loose tolerance.",
  [C + "gof/exchangeability.py", C + "gof/_exchangeability.pyx"],
  [("statistic, multiplier and bootstrap kernels", C + "gof/_exchangeability.pyx")], ["exch_test()"])

P("C15", "The radial symmetry test computes its statistic and p-value exactly",
  "For every multivariate sample with or without ties, the reported statistic is the summed squared difference between the empirical copula and the "
  "empirical survival copula at the observations, unchanged when rows or columns are permuted or observations are transformed increasingly, and the p-value is (1/2 + number of replicates "
  "at least as large as the statistic)/(replicates + 1). Each replicate reflects a subset of the rows chosen by independent fair coin "
  "flips, re-imposing the margins' ties when there are any.",
  ["inputs", "schedules"],
  "all small samples (permutations and weak orderings) in 2-3 dimensions x all coin-flip sequences of the bootstrap",
  "Tests check one data set's p-value against a stored number with a loose tolerance.",
  [C + "gof/radial_symmetry.py", C + "gof/_radial_symmetry.pyx"],
  [("statistic and replicate kernels", C + "gof/_radial_symmetry.pyx")], ["rad_sym_test()"])

P("C16", "The goodness-of-fit test follows the parametric bootstrap in every setting",
  "For every copula class, data set, tie rule and replication count, the statistic is the summed squared distance between the data's empirical "
  "copula and the fitted copula's cdf at the pseudo-observations, and the p-value is (1/2 + number of replicates at least as large)/(replicates + 1). "
  "Every replicate draws a sample of the same size from the copula fitted to the data, re-imposes each margin's ties without touching the "
  "dependence order, refits a fresh copula of the same class and dimension and recomputes the statistic, each replicate independent of the others whether run in one process or many.",
  ["inputs", "schedules", "configurations"],
  "all small samples x tie patterns x tie rules x draw sequences of an enumerated environment x single and multi process execution and completion orders",
  "Tests assert a loose range on a random p-value for one data set.",
  [C + "gof/goodness_of_fit/goodness_of_fit.py", C + "gof/goodness_of_fit/utils.py", C + "empirical/distribution.py"],
  [("parametric bootstrap driver", C + "gof/goodness_of_fit/goodness_of_fit.py")], ["gof_copula()"])

P("C17", "Random draws follow the copula and are reproducible",
  "For every copula class, admissible parameter and size, random draws have one row per observation and one column per variable, "
  "lie in the unit cube (or the marginals' support), and are fully determined by the seed: the same seed gives the same draws whatever happened before, "
  "different seeds different ones. Fed with an exhaustive grid of its random inputs, the sampler reproduces the copula's own cdf.",
  ["inputs", "configurations", "histories"],
  "all classes x parameters x dimensions x sizes x seeds x prior RNG histories; every point of an equidistributed grid of underlying random numbers",
  "Tests check the shape of one draw; nothing checks that the draws have the copula's distribution.",
  [C + "archimedean/clayton.py", C + "archimedean/frank.py", C + "archimedean/gumbel.py", C + "elliptical/gaussian.py", C + "elliptical/student.py",
   C + "stats/log.py", C + "stats/uniform.py", C + "stats/_multivariate_t.py", C + "stats/stable/stable.py", C + "mixtures/gmc/random.py", C + "marginal/marginal.py"],
  [("conditional inversion and frailty samplers", C + "archimedean/*.py random")], ["random()"])

P("C18", "Dependence measures, their inverses and derivatives agree with each other",
  "For every family where they are offered and every admissible parameter, Kendall's tau, Spearman's rho and tail dependence equal the functionals of the "
  "copula's own cdf that define them; the inverses recover the parameter from the measure for scalars and arrays alike, the "
  "derivatives are the derivatives of the measures, and measures increase with the parameter. Arguments are never modified.",
  ["inputs", "configurations"],
  "all families x a dense parameter lattice including both ends of the domain, scalar/array/list arguments",
  "Tests check one or two parameter values against stored numbers; several measures are excluded from coverage.",
  [C + "archimedean/clayton.py", C + "archimedean/frank.py", C + "archimedean/gumbel.py", C + "elliptical/abstract.py", C + "elliptical/gaussian.py", C + "elliptical/student.py", C + "special/optimize.py", C + "special/debye.py"],
  [("tau/rho/itau/irho/dtau/drho/lambda_", C + "archimedean/*.py, " + C + "elliptical/*.py")], ["tau", "rho", "itau()", "irho()", "dtau()", "drho()", "lambda_"])

P("C19", "Archimedean generators are inverse, monotone and correctly differentiated",
  "For every Archimedean copula and admissible parameter the generator and its inverse undo each other on the whole closed unit interval, map 1 to 0, are "
  "decreasing, and the first and second derivative functions are the derivatives of the inverse generator; for the Gumbel copula the "
  "dependence function and its derivatives are consistent with the cdf. All accept scalars, lists and arrays of "
  "any numeric type and never modify their argument.",
  ["inputs", "configurations"],
  "all Archimedean families x parameter lattice x lattice of levels including 0, 1 and tails x container kinds",
  "Tests evaluate the generators at one parameter on a coarse interior grid.",
  [C + "archimedean/clayton.py", C + "archimedean/frank.py", C + "archimedean/gumbel.py"],
  [("psi, ipsi, dipsi, A, dAdu", C + "archimedean/*.py")], ["psi()", "ipsi()", "dipsi()"])

P("C20", "Combinatorial and polynomial kernels are exact for all small arguments",
  "Binomials, permutations, Stirling and Eulerian numbers, signs of falling factorials, Sibuya sums, Gumbel coefficients and polynomials, negative-order "
  "polylogarithms, polynomial evaluation and log-sums equal their mathematical definitions for every admissible argument, every computation method offered agrees with "
  "every other within its documented range, and invalid arguments are rejected.",
  ["inputs", "configurations"],
  "all integer arguments up to a bound x parameter lattice x all computation methods x scalar and vector calls",
  "Tests check single values against stored numbers for one method at a time.",
  [C + "special/special_func.py", C + "special/combinatorics.py", C + "archimedean/auxiliary.py", C + "archimedean/gumbel.py"],
  [("recurrences and summation", C + "special/special_func.py")], ["copulae.special.*", "gumbel_coef()", "gumbel_poly()", "dsum_sibuya()"])

P("C21", "Analytic special functions are accurate on every branch",
  "Debye functions of every order offered, Clausen's function, the real and complex dilogarithm, the (1 - exp) and (1 + exp) log helpers and the pi-scaled trigonometric "
  "functions equal their defining integrals or series over their whole domain, including every internal branch switch, in scalar, array and multi-dimensional "
  "calls, threaded or not. The argument array is never overwritten and shape is kept.",
  ["inputs", "schedules", "configurations"],
  "a lattice of arguments dense around every branch boundary, both signs and extremes x orders x container shapes x serial/threaded evaluation",
  "Tests check a dozen values per function, mostly inside one branch, and one array per function.",
  [C + "special/_specfunc.pyx", C + "special/debye.py", C + "special/clausen.py", C + "special/dilog.py", C + "special/trig.py", C + "special/special_func.py"],
  [("Chebyshev series and range reductions", C + "special/_specfunc.pyx")], ["copulae.special.*"])

P("C22", "Matrix utilities keep their algebraic contracts",
  "Triangle indices enumerate each off-diagonal pair exactly once in matching order, building a matrix from a parameter vector and reading it back are inverse, covariance/correlation "
  "conversions are inverse, the definiteness tests agree with the exact eigenvalue signs (strictly for the strict variant), and the nearest-matrix projection returns a symmetric positive semi-definite matrix with the same "
  "diagonal, leaving valid matrices and the caller's argument unchanged.",
  ["inputs", "configurations"],
  "all symmetric matrices over a value alphabet up to dimension 4, all triangle shapes, offsets and sides",
  "Tests check one or two matrices per function.",
  [C + "core/linalg.py", C + "core/misc.py"], [("linear algebra helpers", C + "core/linalg.py")], ["copulae.core.*"])

P("C23", "A copula with custom marginals factorises by Sklar's theorem",
  "For every inner copula and every way of specifying marginals (names and aliases, dictionaries, distribution classes, one for all or one per variable), the joint cdf is the inner "
  "cdf at the marginal cdfs, the joint pdf is the inner pdf times the marginal densities, random draws are the marginal quantiles of the inner copula's draws, and the reported "
  "parameters rebuild an equivalent copula. Invalid specifications are rejected and the caller's dictionaries are not modified.",
  ["inputs", "configurations", "histories"],
  "inner families x all marginal tuples over a distribution alphabet x specification forms x lattice of points x fits",
  "Tests fit two or three fixed configurations and check stored numbers.",
  [C + "marginal/marginal.py", C + "marginal/univariate.py"], [("marginal construction and composition", C + "marginal/marginal.py")], ["MarginalCopula.*"])

P("C24", "Mixture parameters are validated and convert without loss",
  "A Gaussian mixture parameter object is accepted exactly when its weights, means and covariances have consistent shapes, the weights are a "
  "probability vector and the covariances are valid; it converts to a vector and back (weights of zero and one to within 1e-5) and is rebuilt "
  "from a dictionary of its parts without loss for every cluster count and dimension, and no conversion, evaluation or assignment modifies it or the "
  "caller's arrays. Assigning mismatched parameters to a mixture copula is rejected and leaves it unchanged.",
  ["inputs", "histories", "configurations"],
  "all cluster/dimension pairs up to (3,3) and larger ones up to (6,6) x parameter alphabets (valid and each kind of invalid) x sequences of assignments and conversions",
  "Tests convert one parameter set of one shape.",
  [C + "mixtures/gmc/parameter.py", C + "mixtures/gmc/gmc.py"], [("GMCParam validation and encoding", C + "mixtures/gmc/parameter.py")], ["GMCParam", "GaussianMixtureCopula.params"])

P("C25", "Mixture densities, marginals and fits are consistent with the mixture",
  "The mixture copula's cdf and pdf are the weight-averaged component normal values, its marginal cdf and quantile functions are mutually inverse and monotone, and its log likelihoods "
  "equal their definitions. Every fitting method reports the parameters it leaves in the copula together with convergence and log likelihood of exactly those parameters: "
  "expectation maximisation returns the best iterate under the chosen criterion, each iterate being the weighted sample moments of the posterior weights.",
  ["inputs", "histories", "configurations"],
  "parameter lattice x points; all sequences of log-likelihood observations up to a length x criteria; fits over an enumerated set of small data sets and starting points",
  "Tests run one long fit and compare the outcome loosely.",
  [C + "mixtures/gmc/gmc.py", C + "mixtures/gmc/loglik.py", C + "mixtures/gmc/marginals.py", C + "mixtures/gmc/estimators/em.py", C + "mixtures/gmc/estimators/sgd.py", C + "mixtures/gmc/estimators/kmeans.py"],
  [("EM loop and best-iterate selection", C + "mixtures/gmc/estimators/em.py")], ["GaussianMixtureCopula.cdf/pdf/fit"])

P("C26", "Summaries are available and truthful in every state of a copula",
  "In every state a copula can reach, the copula summary renders as text and HTML and shows the current family, dimension and parameters; the fit summary raises the documented "
  "not-fitted error before any fit and, after a fit by any method, renders as text and HTML and shows that fit's method, log likelihood and sample size. "
  "An unknown category raises ValueError, however the category is passed.",
  ["histories", "configurations"],
  "all copula classes x all fit methods x sequences of fits, edits and summary calls up to a depth x both renderings",
  "Tests render one summary per class right after a maximum likelihood fit.",
  [C + "copula/summary.py", C + "copula/estimator/summary.py", C + "utility/annotations/summary.py", C + "marginal/summary.py", C + "mixtures/gmc/summary.py", C + "empirical/summary.py", C + "indep/summary.py"],
  [("summary selection and rendering", C + "utility/annotations/summary.py")], ["summary()"])

P("C27", "Underlying multivariate t and stable distributions are correct",
  "The multivariate t density equals its definition for every degrees of freedom (infinite included), mean and shape matrix, row-wise and with a consistent log variant, and its draws follow it; the skew stable density is the "
  "inverse Fourier transform of the stable characteristic function in each of the three parametrisations, with a consistent log variant, and its draws follow it. Invalid parameters are rejected and arguments left untouched.",
  ["inputs", "configurations"],
  "lattice of degrees of freedom, shape matrices, locations and points; lattice of stable indices and skews",
  "Tests check a handful of stored values at one parameter set.",
  [C + "stats/_multivariate_t.py", C + "stats/stable/stable.py", C + "stats/stable/pdf.py", C + "stats/stable/common.py"],
  [("multivariate t and stable implementations", C + "stats")], ["multivariate_t", "skew_stable"])

P("C28", "Utility merges and bundled data sets behave as pure functions",
  "Merging dictionaries recursively gives the later dictionary precedence at every depth, keeps all other keys, and leaves all its arguments unchanged, for one or more arguments; loading a bundled data set always returns a fresh equal frame "
  "whatever the caller did to earlier copies.",
  ["inputs", "histories"],
  "all nested dictionaries up to a depth over a small key/value alphabet, all argument counts up to 3; all load/mutate sequences up to a depth",
  "Tests merge two or three fixed dictionaries.",
  [C + "utility/dict.py", C + "datasets/base.py"], [("recursive merge", C + "utility/dict.py")], ["merge_dict()", "merge_dicts()", "load_*()"])

P("C29", "The log likelihood is the sum of the log densities",
  "For every copula class with a density, every parameter value it holds (also after later parameter changes) and every data set of one or more rows, the log likelihood is a plain number equal to the sum of the log "
  "densities of the rows; unless told otherwise the rows are first turned into pseudo-observations under the given tie rule, column by column. It is the same for every kind of container, follows the column labels of a "
  "frame once the copula was fitted on one, is minus infinity (never undefined) when a row lies outside the support, and leaves the data untouched.",
  ["inputs", "configurations", "histories"],
  "copula classes x parameter lattice x all row tuples up to length two and whole lattices; all weak-order data sets of up to 4 rows x tie rules; all column orders; all pairs of parameter changes",
  "Tests compare one log likelihood per class for one data set.",
  [C + "copula/base.py", C + "elliptical/abstract.py", C + "core/misc.py", C + "marginal/marginal.py"], [("log likelihood", C + "copula/base.py")], ["BaseCopula.log_lik()"])

P("C30", "Fits by rank correlation invert the sample's rank correlations",
  "Fitting by inversion of Kendall's tau or Spearman's rho sets, for every data set, tie rule and dimension, each correlation of an elliptical copula to the inverse of that pair's sample rank correlation (projected to the "
  "nearest valid correlation matrix when needed, other parameters such as the degrees of freedom untouched) and the parameter of an Archimedean copula to the mean of the inverses over all pairs. The fit summary reports that "
  "estimate, the method, the sample size and the log likelihood of the fitted data. An estimate outside the family's domain or an unknown method is an error that leaves the parameters as they were.",
  ["inputs", "configurations", "histories"],
  "all pairs of weak orders of up to 4 rows (5 against the identity) x tie rules; all pairs and triples of permutations in three and four columns; families x methods x ways of calling",
  "Tests fit one data set per class and compare stored values.",
  [C + "copula/estimator/corr_inversion.py", C + "copula/estimator/estimator.py", C + "stats/correlation.py", C + "core/misc.py", C + "core/linalg.py"],
  [("correlation inversion", C + "copula/estimator/corr_inversion.py")], ["BaseCopula.fit(method='itau'/'irho')"])

P("C31", "Copula objects, their copies and concurrent evaluations never interfere",
  "Whatever is done to one copula object, in any interleaving with what is done to another, each behaves exactly as if the other did not exist; a copy (deep copy or pickle round trip) behaves like its original at the time of "
  "copying, and afterwards neither affects the other. Evaluations of the same or of different copulas, and calls of the package's pure functions, running in two threads give the results of running them one after the other, "
  "whatever the schedule.",
  ["schedules", "histories", "programs"],
  "all interleavings of the operation histories of two objects of the same or related classes; all (operation, copy, operation) histories; all schedules of two threads with one preemption at any source line "
  "(thorough: two preemptions)",
  "Tests use one object at a time in one thread.",
  [C + "copula/base.py", C + "copula/estimator/estimator.py", C + "elliptical/abstract.py", C + "archimedean/abstract.py", C + "marginal/marginal.py", C + "mixtures/gmc/gmc.py", C + "utility/annotations/reshape.py"],
  [("object state", C + "copula/base.py")], ["copula objects", "copy.deepcopy", "pickle", "threads"])

P("C32", "Rank-based procedures see the data only through its ranks",
  "Every procedure that ranks its data (fits by itau, irho and ml, log likelihoods, empirical copulas, the mixture's likelihood fits, the exchangeability, radial symmetry and goodness-of-fit tests, pseudo-observations, "
  "rank correlations) gives the same result for any two data sets whose columns have the same ranks, whatever the columns' values, scales and types, including data that already lies in the unit interval. Estimates, likelihoods "
  "and empirical copulas do not depend on the order of the rows, and permuting the columns permutes the estimate and leaves the likelihood unchanged.",
  ["inputs", "configurations"],
  "all small data sets given by their ranks, each under many value scales, alike and mixed across columns, in every order of rows and columns",
  "Tests use one data set per procedure, in one scale and one order.",
  [C + "core/misc.py", C + "copula/base.py", C + "copula/estimator/estimator.py", C + "empirical/empirical.py", C + "gof/exchangeability.py", C + "gof/radial_symmetry.py", C + "gof/goodness_of_fit/goodness_of_fit.py", C + "stats/correlation.py"],
  [("pseudo-observations", C + "core/misc.py")], ["fit", "log_lik", "EmpiricalCopula", "gof tests", "pseudo_obs"])

P("C33", "A successful maximum likelihood fit is a maximum",
  "When a maximum likelihood fit reports success, no neighbouring admissible parameter (and for the bivariate Frank, Gumbel, Gaussian and, on positively dependent samples, Clayton copula no parameter at all) has a higher "
  "likelihood beyond the optimizer's tolerance, whichever optimizer, starting value, scale of the objective or fixed degrees of freedom were asked for. On samples without perfectly dependent columns the fits of Frank, "
  "Gumbel, bivariate Gaussian and, on positively dependent samples, Clayton copulas do succeed.",
  ["inputs", "configurations"],
  "all small permutation samples and samples with ties x family x optimizer x starting value x scale, each estimate compared with all neighbouring and grid parameters",
  "Tests compare the fit of one data set per family with a stored value.",
  [C + "copula/estimator/max_likelihood.py", C + "copula/estimator/estimator.py", C + "copula/base.py", C + "elliptical/student.py", C + "elliptical/gaussian.py", C + "archimedean/clayton.py", C + "archimedean/frank.py", C + "archimedean/gumbel.py"],
  [("maximum likelihood", C + "copula/estimator/max_likelihood.py")], ["fit(method='ml')"])

P("C34", "Numerical helpers: roots are roots, log-series draws follow their law",
  "find_root returns a root (a point where the function vanishes or changes sign) whenever the bracket, in either order and with infinite or zero values at its ends, contains a sign change or one lies within the "
  "expansions it was allowed; a bound that is a root is returned as it is, a function is not evaluated outside of a bracket with a sign change, and a function without a root or a bracket that is not finite raises an "
  "AssertionError instead of a number. The logarithmic series sampler behind the Frank copula returns positive whole numbers with the probabilities of the logarithmic distribution for every parameter, in the "
  "shape asked for and the same for the same seed.",
  ["inputs"],
  "all small functions x brackets x expansion settings; every parameter magnitude x a grid of random numbers",
  "Tests find three roots and draw one sample.",
  [C + "special/optimize.py", C + "stats/log.py"],
  [("root finding", C + "special/optimize.py")], ["find_root", "random_log_series_ln1p"])

if __name__ == "__main__":
    with open(OUT, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
