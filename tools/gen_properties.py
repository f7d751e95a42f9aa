#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=["src/primate/" + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=observe or [], hook_needed=None)))

p("C01", "Streaming mean does not depend on how the samples are batched",
  "After any sequence of updates, the running mean equals the arithmetic mean of every observation received so far, and the sample count equals their number, in any dimension and however the observations are split into batches (scalars, lists, 1-d arrays of scalar samples, or two-dimensional batches, empty ones included). Before the first observation the mean is NaN. Updating never modifies the array that was passed in, and a batch of the wrong width is rejected.",
  ["inputs", "histories"], "every finite sequence of batches of any sizes, every dimension, all real sample values",
  "tests feed one fixed seed with equal batches of 10 and compare at the end; the guarantee is over every history of batch sizes and shapes",
  ["stats.py"], [("weighted mean update", "stats.py: Mean.update"), ("mean accessors", "stats.py: Mean.__call__, Mean.mean"), ("same update inside the covariance tracker", "stats.py: Covariance.update")])
p("C02", "Streaming covariance equals the batch covariance for any split",
  "After any sequence of updates the running covariance, for every delta-degrees-of-freedom below the number of observations, equals the matrix of centred second moments about the overall mean divided by (n - ddof): it is symmetric, positive semi-definite and independent of how the observations were batched, and a plain float in dimension one. While the number of observations does not exceed ddof it is +infinity. Querying it never changes the state.",
  ["inputs", "histories"], "every sequence of batches, every dimension >= 1, every ddof, all real samples",
  "tests compare a handful of seeded runs with np.cov; a wrong cross term only shows for unequal batches, shifted means or ddof other than 1",
  ["stats.py"], [("Welford/Chan update", "stats.py: Covariance.update"), ("normalisation", "stats.py: Covariance.__call__")])
p("C03", "Mean estimators keep length, estimate, last change and recorded values",
  "A mean estimator's length is the number of samples received, its estimate is their mean (a float in dimension one, a flat vector otherwise), and its delta is the change of the mean, counted from zero, caused by the most recent update. These do not depend on whether covariance tracking or recording is switched on. With recording on, the recorded values are exactly the samples in the order received; with it off nothing is recorded, and two estimators never share state.",
  ["inputs", "histories"], "every sequence of updates, every dimension, the four combinations of options",
  "tests check the final mean of three seeded runs; delta, values and independence of instances are never compared with the history",
  ["estimators.py", "stats.py"], [("update", "estimators.py: MeanEstimator.update"), ("estimate", "estimators.py: MeanEstimator.mean/estimate"), ("length", "estimators.py: Estimator.__len__")])
p("C04", "Control-variate estimate follows the regression formula",
  "With sample mean y, control means c and known expectations m, the control-variate estimate equals y - a.(c - m), where a is the given coefficient vector or, if none was given, the least-squares coefficients Cov(c,c)^-1 Cov(c,y) of all observations so far (zero while only one observation exists), and it is NaN before any observation. The result does not depend on how observations are batched. Adding a shift to the control and to its known expectation leaves the estimate unchanged.",
  ["inputs", "histories"], "every history of joint samples with nonsingular control covariance, any number of controls",
  "the test only checks that one estimator usually beats another over 150 random runs; a wrong coefficient can still reduce variance",
  ["estimators.py", "stats.py"], [("coefficient update", "estimators.py: ControlVariableEstimator.update"), ("estimate", "estimators.py: ControlVariableEstimator.estimate")])
p("C05", "Count and tolerance criteria stop exactly at their thresholds",
  "The count criterion is satisfied exactly when the number of samples is at least the given count. The tolerance criterion is satisfied exactly when the norm of the last change is below atol or below rtol times the norm of the estimate in the configured norm, never when there is no estimate, and never merely because nothing was sampled yet. Neither changes the estimator it is given.",
  ["inputs", "histories"], "all estimator states (lengths, deltas, estimates), all parameter values and norms",
  "tests walk to the first stop of one seeded stream; the boundary (strict versus non-strict, or versus and) and other norms are not sampled",
  ["estimators.py"], [("count", "estimators.py: CountCriterion.__call__"), ("tolerance", "estimators.py: ToleranceCriterion.__call__")])
p("C06", "Confidence criterion uses the right interval and sample minimum",
  "The confidence criterion is never satisfied with fewer than three samples; from three on it is satisfied exactly when the margin of error is at most atol or the relative standard error is at most rtol. The margin is the standard error (sample standard deviation over root n) times the two-sided Student-t quantile with n-1 degrees of freedom below 30 samples and the normal quantile from 30 on. Confidence levels outside (0,1) and estimators that are not mean estimators are rejected, and a tolerance of None means zero.",
  ["inputs", "histories"], "all confidence levels in (0,1), tolerances, sample counts and sample values",
  "the test measures coverage over 1500 runs with a generous slack, which a shifted degree of freedom or a wrong switch-over at 30 samples passes",
  ["estimators.py", "stats.py"], [("score tables", "estimators.py: ConfidenceCriterion.__init__"), ("margin", "estimators.py: ConfidenceCriterion._error"), ("decision", "estimators.py: ConfidenceCriterion.__call__")])
p("C07", "Combined stopping criteria are the boolean combination of their parts",
  "For any nesting of criteria, the or-, and- and not-combination of criteria is satisfied by an estimator exactly when the boolean combination of the component verdicts on that same estimator state is. Combining leaves the components usable and unchanged, and a combination evaluates its components when it is asked, not when it is built. A combined criterion is itself a criterion, and non-callable operations are rejected.",
  ["inputs", "programs", "histories"], "every boolean expression over arbitrary component criteria and every estimator state",
  "one test combines two criteria with one operator each; nested expressions and negation are untested",
  ["estimators.py"], [("or/and/invert", "estimators.py: ConvergenceCriterion.__or__/__and__/__invert__"), ("evaluation", "estimators.py: ConvergenceCriterion.__call__")])
p("C08", "Criteria by name and keyword filtering lose and invent nothing",
  "Asking for a criterion by name (any letter case) returns the documented criterion with exactly the keyword arguments that criterion accepts, ignoring the others and defaulting the missing; a criterion object is returned as is, and unknown names are rejected. The two keyword filters split any keyword dictionary into the part a callable accepts and the part it does not: values are kept, the parts are disjoint, together they are the whole, and the input dictionary is untouched.",
  ["inputs", "programs"], "all names, all keyword dictionaries, all callables with inspectable signatures",
  "the test builds each criterion once with valid keywords and checks only its type",
  ["estimators.py", "typing.py"], [("factory", "estimators.py: convergence_criterion, CRITERIA"), ("filters", "typing.py: restrict_kwargs, setdiff_kwargs")])
p("C09", "Confidence intervals have the textbook end points",
  "The interval returned for a sample is mean -/+ q * s / sqrt(n), with s the sample standard deviation (n-1) and q the two-sided quantile at the requested confidence: Student-t with n-1 degrees of freedom for the 't' distribution and standard normal for 'normal'. It is centred at the sample mean and ordered. Confidence levels outside [0,1] and unknown distributions are rejected.",
  ["inputs"], "all samples of size >= 2, all confidence levels, both distributions",
  "one seeded comparison; the end points must be right for every sample and level",
  ["stats.py"], [("interval", "stats.py: confidence_interval")])
p("C10", "Knee criterion looks only at the shape of the running-mean curve",
  "The knee criterion is never satisfied by estimators that record nothing or have fewer than three recorded samples. Otherwise its verdict is the Kneedle rule applied to the cumulative absolute change of the running mean of the recorded samples: the largest excess of the normalised curve over the diagonal exceeds the final excess by more than the sensitivity S (a positive number) divided by the number of curve intervals. Consequently the verdict is unchanged when all samples are shifted by a constant or rescaled by a nonzero factor, and the estimator is not modified.",
  ["inputs", "histories"], "all recorded sample sequences with a non-degenerate curve, all positive sensitivities S",
  "the test runs one normal stream until the rule fires; neither the rule nor its invariances are compared with anything",
  ["estimators.py"], [("rule", "estimators.py: KneeCriterion.__call__")])
p("C11", "Appending a column updates a triangular inverse exactly",
  "Given the inverse of an upper-triangular matrix and a new last column with nonzero last entry, the updated matrix is the exact inverse of the extended triangular matrix, and is itself upper triangular. Hence starting from the empty matrix and appending columns one by one yields the inverse of the whole triangular matrix. Inputs are not modified, and mismatched lengths are rejected.",
  ["inputs", "histories"], "all sizes including the empty matrix, all nonsingular upper-triangular matrices and columns",
  "the test appends columns of one random matrix; sign or offset errors at size 0 or for special columns are not excluded",
  ["linalg.py"], [("bordered inverse", "linalg.py: update_trinv")])
p("C12", "Golub-Welsch quadrature returns the Gauss rule of the Jacobi matrix",
  "The quadrature of degree k of a symmetric Jacobi matrix has exactly min(k, n) nodes, the eigenvalues of its leading k-by-k block, and as weights the squares of the first components of the corresponding unit eigenvectors; so the weights are non-negative, sum to one, and integrate every polynomial p of degree at most 2k-1 to the leading entry of p(J). Both off-diagonal conventions (length n with leading zero, or length n-1) give the same rule, a nonzero leading entry and unknown methods are rejected, and inputs are not modified. Output arrays, if given, receive the same nodes and weights.",
  ["inputs", "configurations"], "all symmetric tridiagonal matrices, all degrees, both conventions, all tridiagonal solvers",
  "tests average one statistic over random runs; exactness for every Jacobi matrix and degree truncation are not sampled",
  ["integrate.py", "tridiag.py"], [("rule", "integrate.py: quadrature"), ("eigen solver", "tridiag.py: eigh_tridiag")])
p("C13", "Three-term-recurrence weights equal the Golub-Welsch weights",
  "For every Jacobi matrix with nonzero off-diagonals, of any size including one, and every degree, the forward three-term-recurrence quadrature returns the same nodes and the same weights as the Golub-Welsch quadrature of the same degree. The recurrence writes exactly one value per basis polynomial and one weight per node, nothing outside. The weights are positive and sum to one.",
  ["inputs", "configurations"], "all unreduced symmetric tridiagonal matrices, all degrees up to their size",
  "tests compare on one 8-by-8 matrix (and state that fttr is to be fixed); truncation and size one were never run",
  ["fttr.py", "integrate.py"], [("recurrence", "fttr.py: ortho_poly"), ("weights", "fttr.py: fttr"), ("degree handling", "integrate.py: quadrature")])
p("C14", "The implicit QL iteration is an orthogonal diagonalisation",
  "For every symmetric tridiagonal matrix the QL iteration stays on orthogonal similarity transforms of the input: the accumulated vectors remain orthonormal and, as long as no eigenvalue has used up the iteration budget, transform the input into the current tridiagonal matrix. When it finishes within the budget the returned values and vectors are an eigendecomposition of the input, also with repeated, zero or integer entries. Its results are the same whether or not eigenvectors are requested, it never divides by zero, and it always stops: no eigenvalue takes more sweeps than the budget allows, plus one.",
  ["inputs"], "all real symmetric tridiagonal matrices of any size, with or without eigenvector accumulation",
  "tests run four random 150-by-150 spectra in (0,1); integer or clustered diagonals that hit the exact-zero denominators are never drawn",
  ["tqli.py"], [("QL sweep with Givens rotations", "tqli.py: tqli"), ("sign helper", "tqli.py: sign")])
p("C15", "Tridiagonal eigensolver wrappers agree and leave inputs alone",
  "For both off-diagonal conventions and each method the wrappers return the eigenvalues (and, if asked, orthonormal eigenvectors) of the tridiagonal matrix, falling back from the default solver to the QL iteration only when the former fails. The caller's diagonal and off-diagonal arrays are never modified. Unknown methods and mismatched lengths are rejected.",
  ["inputs", "configurations", "fault_sequences"], "all symmetric tridiagonal matrices, both conventions, all methods, failure of the primary solver",
  "tests use one convention on four seeds; the fallback path is never reached",
  ["tridiag.py"], [("dispatch and fallback", "tridiag.py: _eigh_tridiag"), ("front ends", "tridiag.py: eigh_tridiag, eigvalsh_tridiag")])
p("C16", "Built-in spectral functions have their defining values",
  "On every real input, element by element: the soft sign clips to [-1,1], is odd and equals the partial binomial series with q+1 terms of sign(x); smoothstep is 0 below a, 1 above b and the cubic Hermite blend 3t^2 - 2t^3 between; step is 0 below the threshold and 1 from it on (of the magnitude when nonnegative is set); exp is exp(t x); identity returns its input. Calling with data gives the same values as building the function first and applying it to the data. Inputs are not modified.",
  ["inputs", "configurations"], "all real inputs, all parameter values (q, a, b, c, t)",
  "tests sample a grid for one or two parameter values",
  ["special.py"], [("soft sign series", "special.py: softsign"), ("smoothstep", "special.py: smoothstep"), ("step / exp / identity", "special.py: step, exp, identity")])
p("C17", "Function names resolve to the documented scalar functions",
  "Every built-in name resolves to its function with its documented default parameters, which the matching keywords override: identity, absolute value, square root, logarithm clipped at machine epsilon, reciprocal, exponential (t=1), smoothstep (a=0, b=1), soft sign (q=10), and numerical rank (1 where |x| is at least threshold 1e-6, else 0). None means identity, a callable is returned unchanged, and unknown names are rejected.",
  ["inputs", "configurations"], "all names, keyword combinations and real arguments",
  "tests construct the functions and look at a few values; parameter routing between names is not covered",
  ["special.py"], [("dispatch", "special.py: param_callable")])
p("C18", "Isotropic samples take the values their distribution promises",
  "For every state of the random source and every shape: Rademacher entries are exactly +1 or -1, +1 precisely when the underlying uniform draw is at least 1/2; spherical vectors (the columns) have squared norm equal to their length; normal entries are the raw standard normal stream. Aliases give the same values as the names they stand for, an integer size means a single column, the result has exactly the requested shape, unknown distributions are rejected, and filling a given array gives the same values in place and returns nothing.",
  ["inputs", "histories"], "all seeds and generator states, all shapes, all distributions and aliases",
  "tests look at moments of a few seeded draws; exactness for every draw (e.g. uniform exactly 0 or 1/2) is not sampled",
  ["random.py"], [("in-place fills", "random.py: _rademacher_inplace, _normal_inplace, _sphere_inplace"), ("front end", "random.py: isotropic")])
p("C19", "Sampled vectors depend only on the seed and how many were drawn",
  "For a fixed seed or generator state the sequence of random test vectors is fixed: drawing k vectors at once equals drawing them in any sequence of smaller batches, column by column, and repeating the call with the same seed repeats the values. Passing a generator continues its stream without reseeding it. A sampler obtained without a size behaves like repeated direct calls on one generator.",
  ["inputs", "histories", "configurations"], "all splits of a draw into batches, all seeds, all distributions, all vector lengths",
  "one test compares one split; the storage order that makes it true can be lost for other shapes or distributions",
  ["random.py"], [("column-major fill", "random.py: isotropic (_isotropic)"), ("generator handling", "random.py: isotropic")])
p("C20", "Parallel sampler fills every column once, whatever the thread timing",
  "Each call to the thread-parallel sampler writes every entry of its array exactly once, with values of the requested distribution, for every number of columns and threads, including more threads than columns. The column ranges of the workers are disjoint and each worker uses its own stream, so the result is determined by the seed, the shape and the number of threads and does not depend on thread scheduling. With one thread it equals the sequential sampler on the same seed.",
  ["inputs", "schedules", "configurations"], "all column/thread counts, all interleavings of the workers, all seeds",
  "the only test of it compares wall-clock times and is deselected; interleavings and ragged splits cannot be sampled",
  ["random.py"], [("column partition and per-thread generators", "random.py: Isotropic.__init__, Isotropic.fill")])
p("C21", "Random matrices have the prescribed spectrum",
  "The random symmetric matrix with given eigenvalues is exactly symmetric and has those eigenvalues, for either entry distribution; with positive-definite requested, eigenvalues are clipped to be positive. The Haar-random matrix has the given eigenvalues with an orthonormal eigenbasis, and a wrong number of eigenvalues is rejected. Both are determined by the seed, and the given eigenvalue array is not modified.",
  ["inputs", "configurations"], "all sizes >= 1, all real eigenvalue lists, both distributions, all seeds",
  "tests check a couple of sizes and seeds",
  ["random.py"], [("symmetric", "random.py: symmetric"), ("haar", "random.py: haar")])
p("C22", "Girard-Hutchinson trace estimate is the mean of the sampled quadratic forms",
  "The trace estimate equals the arithmetic mean of the quadratic forms v'Av (or the operator's own quadratic form) over exactly the vectors drawn, in order, from the requested distribution and seed; sampling continues until the stopping criterion first holds after a batch, so with a count criterion at least that many and fewer than one batch more are drawn. By default it stops at 200 samples or a 95 percent confidence half-width of 1, whichever comes first; the full result's estimate and sample count agree with the returned value, and callbacks run once per batch with the estimate and count so far. The operator is not modified, empty operators give 0, and non-square or non-floating operators are rejected.",
  ["inputs", "histories", "configurations"], "all square operators, seeds, distributions, batch sizes, criteria, with or without full output",
  "tests compare one seeded estimate with the true trace within a wide tolerance, so a biased estimator still passes",
  ["trace.py", "estimators.py", "random.py"], [("Monte-Carlo loop", "trace.py: hutch"), ("quadratic form", "trace.py: hutch quad_form")])
p("C23", "Hutch++ splits the trace exactly into captured and deflated parts",
  "The Hutch++ estimate equals tr(Q'AQ), with Q an orthonormal basis of the range of A applied to the sketch, plus the average over fresh test vectors g of the quadratic form of A on the part of g orthogonal to Q. Hence it equals the trace exactly whenever the sketch captures the range of a symmetric A (in particular if the rank is at most the number of sketch vectors, generically), for every matrix size including 1 and 2. Both evaluation modes give the same value, and the full result carries the returned estimate.",
  ["inputs", "configurations"], "all symmetric matrices and operators, all sizes, numbers of samples, distributions and seeds",
  "tests check closeness for one full-size sketch, where the residual part vanishes and errors in it are invisible",
  ["trace.py"], [("sketch, projection, residual", "trace.py: hutchpp")])
p("C24", "XTrace samples are the leave-one-out Hutch++ estimates",
  "For sketches of full column rank, after every batch, the i-th XTrace sample equals the trace of A on the span of the sketch without its i-th column plus the (for spherical vectors, norm-corrected) quadratic form of A on the part of the i-th test vector orthogonal to that span, and the estimate is the mean of these samples. Sampling stops when the given criterion or the full dimension is reached, never draws more than n vectors, and with all n spherical vectors the result is the exact trace for nonsingular A; results do not depend on the batch size when the number of vectors is the same.",
  ["inputs", "histories", "configurations"], "all square A with nonsingular sketches, batch sizes, distributions, criteria",
  "tests only look at the complete sketch (m = n), where the estimate is the trace whatever the correction terms are",
  ["trace.py", "linalg.py"], [("leave-one-out formula", "trace.py: _xtrace"), ("incremental QR and triangular inverse", "trace.py: xtrace; linalg.py: update_trinv")])
p("C25", "Diagonal estimate averages the running ratio estimates",
  "The diagonal estimate is the mean, over iterations t, of the entrywise ratio of the accumulated products v*(Av) to the accumulated squares v*v of the first t vectors drawn from the requested distribution and seed; it is exact after any number of iterations when A is diagonal. It stops as soon as the criterion holds, with or without full output or callback, giving the same value. The full result carries the returned estimate, and non-square or non-floating operators are rejected.",
  ["inputs", "histories", "configurations"], "all square operators, seeds, distributions, criteria, with or without full output or callback",
  "tests compare one estimate with the diagonal within a tolerance",
  ["diagonal.py", "estimators.py"], [("accumulation", "diagonal.py: diag")])
p("C26", "XDiag equals the leave-one-out diagonal estimate",
  "For sketches of full column rank, the XDiag estimate equals the average over i of the leave-one-out estimate: the diagonal of Q_i Q_i' A for the span Q_i of the sketch without its i-th column, plus the elementwise product of the i-th test vector and (I - Q_i Q_i')A applied to it. The number of matrix-vector products is the requested one rounded up to even and capped at 2n.",
  ["inputs", "configurations"], "all square matrices with nonsingular sketches, all sample budgets, distributions and seeds",
  "tests only check that the error decreases with the number of products, which a wrong correction term also does",
  ["diagonal.py"], [("formula", "diagonal.py: xdiag")])
p("C27", "The native Lanczos recurrence satisfies the three-term relation",
  "At every step j the native Lanczos iteration sets alpha_j to the projection of A q_j (after removing beta_j q_{j-1}) on q_j, removes it, optionally re-orthogonalises against the previous stored vectors, sets beta_{j+1} to the norm of the remainder and, unless it stops, q_{j+1} to the normalised remainder; it stops exactly when the remainder is below sqrt(n)*rtol or the requested degree is reached. Every buffer access stays inside the caller's buffers for every degree, number of stored vectors and orthogonalisation window, and the stored vectors are used cyclically so that the current, previous and next columns never collide. Re-orthogonalisation subtracts exact projections and skips numerically zero columns and projections. The operator, whether dense, sparse or a Python object with shape and matvec, is used through its product alone, whatever the memory layout of a Python operator's result and whatever it does with the array it is given; Python objects lacking either attribute and products of a wrong length are rejected.",
  ["inputs", "configurations"], "all dimensions, degrees, buffer widths >= 2, windows, operators and start vectors",
  "the extension is not even built by the runnable tests; those upstream compare spectra for one size",
  ["include/lanczos.h", "include/eigen_operators.h", "include/pylinop.h", "_lanczos.cpp"], [("Python operators", "include/pylinop.h: PyLinearOperator::matvec"), ("recurrence", "include/lanczos.h: lanczos_recurrence"), ("re-orthogonalisation", "include/lanczos.h: orth_vector"), ("cyclic index", "include/lanczos.h: mod")])
p("C28", "Lanczos front end returns the Jacobi matrix of the Krylov space",
  "For every symmetric operator (dense, sparse or matrix-free), start vector and degree, the returned diagonal has exactly the (capped) degree entries and the off-diagonal one fewer; with full re-orthogonalisation and no breakdown the returned basis is orthonormal, starts with the normalised start vector, and T = Q'AQ. The tuple and sparse outputs describe the same matrix, Ritz values are its eigenvalues, the start vector and operator are not modified, the same seed gives the same result, and integer operators, non-positive degrees and mismatched start vectors are rejected.",
  ["inputs", "configurations"], "all symmetric operators of size >= 2, degrees, windows, precisions, output formats",
  "upstream tests cannot run here and check one size; format agreement and non-mutation are not tested",
  ["lanczos.py", "tridiag.py"], [("buffers and formats", "lanczos.py: lanczos"), ("Ritz values", "lanczos.py: rayleigh_ritz")])
p("C29", "Matrix-function operator applies f to the Krylov-projected matrix",
  "With n the dimension and full degree and re-orthogonalisation, the matrix-function operator maps every nonzero vector x to f(A)x, as does its adjoint (it is its own), its quadratic form returns x'f(A)x for every column given, and the two agree; with smaller degree both equal the Lanczos approximation |x| Q f(T) e1 and |x|^2 e1'f(T)e1, also when the Krylov space is exhausted early. The degree never exceeds the dimension, functions of the wrong type or output length are rejected, and a name and the corresponding callable give the same operator.",
  ["inputs", "configurations"], "all symmetric A, real functions finite on the Ritz values, degrees >= 2, windows, vectors and blocks of vectors",
  "the tests of it need the native extension and do not run here; upstream they use one matrix per function",
  ["operators.py", "integrate.py", "lanczos.py"], [("action", "operators.py: MatrixFunction._matvec"), ("quadratic form", "operators.py: MatrixFunction.quad"), ("function setter", "operators.py: MatrixFunction.fun")])
p("C30", "Matrix-function results do not depend on earlier calls",
  "The result of applying a matrix-function operator to a vector, or of its quadratic form, depends only on the operator and that vector: not on which vectors it was applied to before, in which order, or in which block position the vector appears. Neither call modifies its argument or the underlying matrix. Changing the function afterwards gives the results of an operator built with that function.",
  ["inputs", "histories"], "all sequences of matvec and quadratic-form calls on one operator, all column orders",
  "tests call an operator once per vector; reused workspaces only leak on later calls",
  ["operators.py"], [("workspace reset", "operators.py: MatrixFunction._matvec, MatrixFunction.quad")])
p("C31", "Toeplitz operator equals the dense Toeplitz matrix",
  "For every first column and first row, the matrix-free Toeplitz operator applied to any vector equals the dense Toeplitz matrix with that column and row (symmetric if only a column is given) times the vector. Repeated applications are independent of each other, the input is not modified, and vectors of the wrong length are rejected. The operator's shape and dtype are those of the dense matrix.",
  ["inputs", "histories"], "all sizes >= 1, all real columns, rows and vectors, all sequences of applications",
  "no test covers the operator",
  ["operators.py"], [("circulant embedding", "operators.py: Toeplitz.__init__, Toeplitz._matvec")])
p("C32", "Spectral normalisation maps the spectrum into the unit interval",
  "For every symmetric operator that is not zero, the normalised operator is an affine function of it, (A + a I)/(2a) with a its eigenvalue of largest magnitude, so all its eigenvalues lie in [-1, 1] (indeed in [0, 1]), the eigenvectors are kept, and the eigenvalue of largest magnitude maps to one. Dense, sparse and matrix-free inputs give the same operator. The input is not modified.",
  ["inputs"], "all nonzero symmetric matrices",
  "one upstream test, not runnable here, on one matrix",
  ["operators.py"], [("affine map", "operators.py: normalize_unit")])
p("C33", "Operator checks accept exactly the square floating-point operators",
  "The boolean operator check is true exactly for objects that can multiply a vector and have a square shape of at least two dimensions, and false, never an exception, for anything else. The validating check returns the floating-point type of the operator, declared or else inferred from its product with a double-precision vector, for exactly the square operators in 32- or 64-bit floating point and raises for all others. Neither modifies the object.",
  ["inputs"], "all Python objects",
  "tests exercise valid matrices only",
  ["operators.py"], [("boolean check", "operators.py: is_linear_op"), ("validation", "operators.py: is_valid_operator")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for q in P: assert len(q["title"]) <= 80, q["id"]
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P))
