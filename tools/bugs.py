"""Definitions of the planted bugs (written to seeded/ by plant.py)."""
BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw): BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

bug("mean-int-dtype", "C01", [("stats.py", "		batch_mean = X.mean(axis=0)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n", "		batch_mean = X.mean(axis=0, dtype=X.dtype)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n")],
    "batches of integer observations", "the mean of integer batches is truncated before it is merged, so the running mean depends on how the observations were batched",
    "import numpy as np\nfrom primate.stats import Mean\nm = Mean(); m.update(np.array([1, 2])); m.update(np.array([4, 4, 5]))\nassert np.isclose(m.mean(), 3.2), m.mean()")
bug("cov-inplace-centre", "C02", [("stats.py", "X_centered = X - batch_mean", "X -= batch_mean\n		X_centered = X")],
    "a two-dimensional float array that the caller feeds more than once", "update centres the caller's array in place; the next update with it sees other observations",
    "import numpy as np\nfrom primate.stats import Covariance\nrng = np.random.default_rng(0); X = rng.normal(size=(7, 3)) + 2.0; X0 = X.copy()\nc = Covariance(3); c.update(X); c.update(X)\nassert np.allclose(c(), np.cov(np.r_[X0, X0], rowvar=False)), c()\nassert np.allclose(c.mean(), X0.mean(axis=0))")
bug("delta-alias", "C03", [("estimators.py", "old_mu = self._cov.mu.copy()", "old_mu = self._cov.mu")],
    "an estimator that tracks the covariance, and a criterion that looks at the last change", "the running mean is updated in place, so the last change is always zero",
    "import numpy as np\nfrom primate.estimators import MeanEstimator\ne = MeanEstimator(dim=2, covariance=True); e.update(np.array([[1.0, 2.0]])); e.update(np.array([[3.0, 2.0]]))\nassert np.allclose(e.delta, [1.0, 0.0]), e.delta")
bug("cv-uncorrelated", "C04", [("estimators.py", "np.linalg.solve(C_11, C_01)\n		# C_00", "C_01 / np.diag(C_11)\n		# C_00")],
    "two or more correlated control variables with coefficients to be estimated", "each coefficient is computed as if the controls were uncorrelated",
    "import numpy as np\nfrom primate.estimators import ControlVariableEstimator\nrng = np.random.default_rng(1); c = rng.normal(size=(50, 2)) @ np.array([[1.0, 0.9], [0.0, 0.5]]); y = c @ [2.0, -1.0] + 0.1 * rng.normal(size=50)\ne = ControlVariableEstimator(ecv=[0.0, 0.0]); e.update(np.c_[y, c])\nC = np.cov(np.c_[y, c], rowvar=False); a = np.linalg.solve(C[1:, 1:], C[1:, 0])\nassert np.isclose(e.estimate, y.mean() - a @ c.mean(axis=0))")
bug("relerr-sign", "C06", [("estimators.py", "rel_error = abs(std_error / est.estimate)", "rel_error = std_error / est.estimate")],
    "a negative running mean", "the relative error is negative, so the criterion holds at once",
    "import numpy as np\nfrom primate.estimators import MeanEstimator, ConfidenceCriterion\ne = MeanEstimator(covariance=True); e.update(np.array([-1.0, -9.0, -4.0, 2.0]))\nassert not ConfidenceCriterion(atol=0.0, rtol=0.01)(e)")
bug("or-xor", "C07", [("estimators.py", "from operator import and_, not_, or_", "from operator import and_, not_, xor"), ("estimators.py", "or_(self(est), other(est))", "xor(bool(self(est)), bool(other(est)))")],
    "both parts of an or-combination satisfied by the same state", "the combination is false when both parts hold",
    "import numpy as np\nfrom primate.estimators import MeanEstimator, CountCriterion\ne = MeanEstimator(); e.update(np.ones(10))\nassert (CountCriterion(5) | CountCriterion(8))(e)")
bug("ci-normal-ddof", "C09", [("stats.py", "mean, std = np.mean(a), np.std(a, ddof=1)", "mean, std = np.mean(a), np.std(a)")],
    "the normal interval, visible on small samples", "the population standard deviation is used in place of the sample standard deviation",
    "import numpy as np, scipy.stats as st\nfrom primate.stats import confidence_interval\na = np.array([1.0, 2.0, 4.0, 8.0]); lo, hi = confidence_interval(a, 0.9, 'normal')\nassert np.isclose(hi - lo, 2 * st.norm.ppf(0.95) * a.std(ddof=1) / 2)")
bug("tridiag-alias", "C15", [("tridiag.py", "	d, e = (d.copy(), e.copy())\n	Z = np.empty((0, 0), dtype=d.dtype)", "	d = d.copy()\n	Z = np.empty((0, 0), dtype=d.dtype)")],
    "the QL method, eigenvalues only, with an off-diagonal array as long as the diagonal", "the caller's off-diagonal array is destroyed",
    "import numpy as np\nfrom primate.tridiag import eigvalsh_tridiag\nd, e = np.array([1.0, 2.0, 3.0]), np.array([0.0, 0.5, 0.25]); e0 = e.copy(); eigvalsh_tridiag(d, e, method='tqli')\nassert np.array_equal(e, e0), e")
bug("step-boundary", "C16", [("special.py", "np.where(x < c, 0.0, 1.0)", "np.where(x <= c, 0.0, 1.0)")],
    "an argument exactly at the threshold", "the step function is 0 at its threshold",
    "import numpy as np\nfrom primate.special import step\nassert step(np.array([0.5]), c=0.5)[0] == 1.0")
bug("log-clip-f32", "C17", [("special.py", "np.maximum(x, np.finfo(np.float64).eps)", "np.maximum(x, np.finfo(np.float32).eps)")],
    "arguments between 2e-16 and 1e-7", "the logarithm is clipped at single-precision epsilon",
    "import numpy as np\nfrom primate.special import param_callable\nassert np.isclose(param_callable('log')(np.array([1e-12]))[0], np.log(1e-12))")
bug("iso-corder", "C19", [("random.py", 'W = np.empty(shape=size, dtype=np.float64, order="F")\n			iso', 'W = np.empty(shape=size, dtype=np.float64, order="C" if pdf == "rademacher" else "F")\n			iso')],
    "signs distribution; drawing several vectors at once and comparing with drawing them one by one", "blocks are filled row by row, so the vectors depend on the batch size",
    "import numpy as np\nfrom primate.random import isotropic\na = isotropic(pdf='rademacher', seed=3)(size=(5, 4)); s = isotropic(pdf='signs', seed=3); b = np.hstack([s(size=(5, 1)) for _ in range(4)])\nassert np.allclose(a, b)")
bug("parallel-round", "C20", [("random.py", "np.ceil(self.shape[1] / self.threads)", "np.rint(self.shape[1] / self.threads)")],
    "a number of columns whose quotient by the threads has a fraction below one half", "the last columns are never filled",
    "import numpy as np\nfrom primate.random import Isotropic\ni = Isotropic((6, 9), pdf='normal', seed=1, threads=4); i.fill()\nassert (i.values != 0).all()")
bug("hutchpp-reuse", "C23", [("trace.py", "	G = pdf(size=(N, nb)).astype(f_dtype)\n", "	G = WB.copy()\n")],
    "an operator whose rank exceeds the sketch", "the residual is estimated with the sketch vectors themselves, which are not independent of the sketch",
    "import numpy as np\nfrom primate.trace import hutchpp\nfrom primate.random import isotropic\nrng = np.random.default_rng(0); A = rng.normal(size=(9, 9)); A = A + A.T\ngot = hutchpp(A, m=3, seed=5); p = isotropic(pdf='rademacher', seed=np.random.default_rng(5)); W = p(size=(9, 3)); Q = np.linalg.qr(A @ W)[0]; G = p(size=(9, 3)); G = G - Q @ (Q.T @ G)\nassert np.isclose(got, np.trace(Q.T @ A @ Q) + np.einsum('ij,ij->', G, A @ G) / 3)", stub=True)
bug("xtrace-order", "C24", [("trace.py", "W = np.c_[W, N]", "W = np.c_[N, W]")],
    "more than one batch", "the test vectors no longer line up with the factorisation of their images from the second batch on",
    "import numpy as np\nfrom primate.trace import xtrace\nrng = np.random.default_rng(0); U = np.linalg.qr(rng.normal(size=(24, 24)))[0]; A = U @ np.diag(0.7 ** np.arange(24)) @ U.T\none = xtrace(A, batch=12, seed=3, converge='count', count=12); two = xtrace(A, batch=4, seed=3, converge='count', count=12)\nassert np.isclose(one, two), (one, two)" , stub=True)
bug("diag-denominator", "C25", [("diagonal.py", "			denom += np.square(v.ravel())\n			estimator.update(np.atleast_2d(numer / denom))\n			if callback", "			denom += np.abs(v.ravel())\n			estimator.update(np.atleast_2d(numer / denom))\n			if callback")],
    "full output or a callback, with test vectors that are not signs", "the accumulated products are divided by accumulated magnitudes",
    "import numpy as np\nfrom primate.diagonal import diag\nA = np.diag([1.0, 2.0, 3.0]); d, r = diag(A, pdf='normal', converge='count', count=4, seed=1, full=True)\nassert np.allclose(d, [1, 2, 3]), d", stub=True)
bug("xdiag-odd", "C26", [("diagonal.py", "min(m + (m % 2), 2 * A.shape[0])", "min(m - (m % 2), 2 * A.shape[0])")],
    "an odd number of matrix-vector products", "the number of products is rounded down, so a different estimate is returned",
    "import numpy as np\nfrom primate.diagonal import xdiag\nA = np.diag(np.arange(1.0, 7.0)) + 0.1\nassert np.allclose(xdiag(A, m=5, seed=2), xdiag(A, m=6, seed=2))", stub=True)
bug("tol-ord-zero", "C05", [("estimators.py", "		self.ord = ord\n", "		self.ord = ord or 2.0\n")],
    "the norm order 0 (number of nonzero entries)", "an order of 0 is silently replaced by the Euclidean norm",
    "import numpy as np\nfrom primate.estimators import ToleranceCriterion\nclass E:\n	delta = np.array([0.5, 0.0, 0.5]); estimate = np.array([1.0, 1.0, 1.0]); n_samples = 4\n	def __len__(self): return 4\nassert not ToleranceCriterion(rtol=0.0, atol=1.0, ord=0)(E())")
bug("kwargs-none", "C08", [("typing.py", "return {k: v for k, v in kwargs.items() if k in valid_args}", "return {k: v for k, v in kwargs.items() if k in valid_args and v is not None}")],
    "an accepted keyword whose value is None", "keywords given as None are lost in favour of the default",
    "from primate.estimators import convergence_criterion\nassert convergence_criterion('tolerance', ord=None).ord is None")
bug("knee-norm", "C10", [("estimators.py", "y_norm = (y - y.min()) / (y.max() - y.min())", "y_norm = (y - y.min()) / y.max()")],
    "a running mean whose first change is not negligible", "the curve is not normalised to reach one, so the verdict depends on its first value",
    "import numpy as np\nfrom primate.estimators import MeanEstimator, KneeCriterion\ndef ref(v, S):\n	m = np.cumsum(v) / np.arange(1, len(v) + 1); y = np.cumsum(np.abs(np.diff(m))); z = (y - y.min()) / (y.max() - y.min()); d = z - np.linspace(0, 1, len(y)); t = d.max() - S / (len(y) - 1)\n	return bool(d.max() > t and d[-1] < t)\nrng = np.random.default_rng(0)\nfor _ in range(3000):\n	v = rng.normal(size=rng.integers(4, 12)) * 10.0 ** rng.integers(-1, 3); S = float(rng.uniform(0.2, 3)); e = MeanEstimator(record=True); e.update(v)\n	assert bool(KneeCriterion(S)(e)) == ref(v, S)")
bug("knee-count", "C10", [("estimators.py", "threshold = max_diff - (self.S / (len(y) - 1))", "threshold = max_diff - (self.S / len(mv))")],
    "few recorded samples", "the sensitivity is divided by the number of samples and not by the number of intervals of the curve",
    "import numpy as np\nfrom primate.estimators import MeanEstimator, KneeCriterion\ndef ref(v, S):\n	m = np.cumsum(v) / np.arange(1, len(v) + 1); y = np.cumsum(np.abs(np.diff(m))); z = (y - y.min()) / (y.max() - y.min()); d = z - np.linspace(0, 1, len(y)); t = d.max() - S / (len(y) - 1)\n	return bool(d.max() > t and d[-1] < t)\nrng = np.random.default_rng(0)\nfor _ in range(3000):\n	v = rng.normal(size=rng.integers(4, 12)) * 10.0 ** rng.integers(-1, 3); S = float(rng.uniform(0.2, 3)); e = MeanEstimator(record=True); e.update(v)\n	assert bool(KneeCriterion(S)(e)) == ref(v, S)")
bug("trinv-pivot", "C11", [("linalg.py", "B_ast[n, n] = np.reciprocal(b[-1]).item()", "B_ast[n, n] = np.reciprocal(np.abs(b[-1])).item()")],
    "a column with a negative last entry", "the sign of the pivot is lost",
    "import numpy as np\nfrom primate.linalg import update_trinv\nR = np.array([[2.0, 1.0], [0.0, -3.0]]); got = update_trinv(np.array([[0.5]]), R[:, 1])\nassert np.allclose(got @ R, np.eye(2)), got")
bug("quad-block", "C12", [("integrate.py", "		theta, ev = eigh_tridiag(d[:deg], e[:deg], **kwargs)\n		tau = np.square(ev[0, :])\n", "		theta, ev = eigh_tridiag(d, e, **kwargs)\n		theta, tau = theta[:deg], np.square(ev[0, :deg])\n")],
    "a degree below the size of the Jacobi matrix", "the nodes are the smallest eigenvalues of the whole matrix, not those of its leading block",
    "import numpy as np\nfrom primate.integrate import quadrature\nd, e = np.array([1.0, 2.0, 4.0, 7.0]), np.array([0.5, 1.0, 1.5]); x, w = quadrature(d, e, deg=2)\nassert np.allclose(np.sort(x), np.linalg.eigvalsh(np.diag(d[:2]) + np.diag(e[:1], 1) + np.diag(e[:1], -1))) and np.isclose(w.sum(), 1.0)")
bug("fttr-zero-offset", "C13", [("fttr.py", "t = -b[i - 1] / b[i]", "t = -abs(b[i - 1]) / b[i]")],
    "a Jacobi matrix with a negative off-diagonal entry", "the recurrence drops the sign of an off-diagonal entry, so the weights are wrong for some sign patterns",
    "import numpy as np\nfrom primate.integrate import quadrature\nd, e = np.array([1.0, 2.0, 4.0, 7.0]), np.array([0.5, -1.0, 1.5])\n(x, w), (y, u) = quadrature(d, e, quad='gw'), quadrature(d, e, quad='fttr')\ni, j = np.argsort(x), np.argsort(y)\nassert np.allclose(w[i], u[j]), (w, u)")
bug("sphere-size", "C18", [("random.py", "n = np.sqrt(out.shape[0])", "n = np.sqrt(out.size // out.shape[-1])")],
    "a one-dimensional request for a spherical vector", "a one-dimensional spherical vector gets norm one instead of root n",
    "import numpy as np\nfrom primate.random import isotropic\nv = isotropic((5,), pdf='sphere', seed=1)\nassert np.isclose(v @ v, 5.0), v @ v")
bug("hutch-default-and", "C22", [("trace.py", "converge = cc1 | cc2", "converge = cc2 if kwargs else cc1 | cc2")],
    "the default criterion together with any extra keyword, on an operator with a large variance", "with extra keywords the default limit of 200 samples is lost",
    "import numpy as np\nfrom primate.trace import hutch\nA = np.array([[1.0, 60.0], [60.0, 1.0]]); n = []\ndef cb(r):\n	n.append(r.nit)\n	assert r.nit <= 224, r.nit\nhutch(A, seed=1, batch=4, callback=cb, rtol=0.1)", stub=True)
bug("lanczos-tol", "C27", [("include/lanczos.h", "const F residual_tol = std::sqrt(n) * rtol;", "const F residual_tol = std::sqrt(A_shape.first / 2) * rtol;")],
    "a remainder between the two thresholds", "the recurrence goes on below its stopping threshold",
    "import numpy as np\nn = 8; A = np.diag(np.r_[np.full(4, 1.0), np.full(4, 1.0 + 2e-3)]); v = np.ones(n) / np.sqrt(n); r = np.linalg.norm(A @ v - (v @ A @ v) * v)\na, b, Q = np.zeros(n + 1), np.zeros(n + 1), np.zeros((n, n), order='F'); m.lanczos(np.asfortranarray(A), v.copy(), n, r / np.sqrt(n) * 1.2, 0, a, b, Q)\nassert np.all(a[1:] == 0), a", native=True)
bug("lanczos-v0", "C28", [("lanczos.py", "v0: np.ndarray = np.array(v0).astype(dt)", "v0: np.ndarray = np.ravel(v0).astype(dt, copy=False)")],
    "a start vector that already has the precision of the run", "the caller's start vector is handed to the extension, which normalises in place",
    "import numpy as np\nfrom primate.lanczos import lanczos\nimport primate.lanczos as L\nreal = L._lanczos.lanczos; seen = []\nclass S:\n	@staticmethod\n	def lanczos(A, v, *r): seen.append(v); v[:] = 0.0\nL._lanczos = S; v = np.arange(1.0, 5.0); lanczos(np.eye(4), v0=v)\nassert np.array_equal(v, [1, 2, 3, 4]), v", native=True)
bug("toeplitz-work", "C31", [("operators.py", "self._z[: self.shape[0]] = x.ravel().astype(self.dtype, copy=False)", "self._z[: self.shape[0]] += x.ravel().astype(self.dtype, copy=False) - self._z[: self.shape[0]] * (len(self.c) < 64)")],
    "repeated products with a matrix of size 64 or more", "the workspace keeps the previous argument",
    "import numpy as np, scipy.linalg as sl\nfrom primate.operators import Toeplitz\nrng = np.random.default_rng(0); c = rng.normal(size=80); T = Toeplitz(c); x, y = rng.normal(size=(2, 80)); T @ x\nassert np.allclose(T @ y, sl.toeplitz(c) @ y)", stub=True)
bug("valid-half", "C33", [("operators.py", '	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floats are supported."\n', '	assert np.issubdtype(f_dtype, np.floating), "Only 32- or 64-bit floats are supported."\n')],
    "an operator in extended or half precision", "operators in other precisions are accepted",
    "import numpy as np\nfrom primate.operators import is_valid_operator\ntry: is_valid_operator(np.eye(3, dtype=np.longdouble))\nexcept AssertionError: raise SystemExit(0)\nraise SystemExit(1)", stub=True)
bug("tqli-rows", "C14", [("tqli.py", "						for k in range(n):\n", "						for k in range(m + 1):\n")],
    "a start matrix that is not upper triangular, and a tridiagonal matrix that splits", "rotations are not accumulated in the rows behind a split",
    "import numpy as np, importlib.util, os, primate\np = os.path.join(os.path.dirname(primate.__file__), 'tqli.py'); s = importlib.util.spec_from_file_location('tqli_py', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)\nQ = np.linalg.qr(np.random.default_rng(0).normal(size=(4, 4)))[0]; d, e = np.array([1.0, 2.0, 4.0, 3.0]), np.array([0.0, 1.0, 0.0, 0.5]); T = np.diag(d) + np.diag(e[1:], 1) + np.diag(e[1:], -1); Z = Q.copy(); m.tqli(d, e, Z, 60)\nassert np.allclose(Q @ T @ Q.T @ Z, Z * d) and np.allclose(Z.T @ Z, np.eye(4))")
bug("tqli-split", "C14", [("tqli.py", "				if (abs(e[m]) + dd) == dd:\n", "				if abs(e[m]) <= 1e-5 * dd:\n")],
    "an off-diagonal entry that is small beside its diagonal neighbours but not negligible", "small off-diagonal entries are dropped",
    "import numpy as np, importlib.util, os, primate\np = os.path.join(os.path.dirname(primate.__file__), 'tqli.py'); s = importlib.util.spec_from_file_location('tqli_py', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)\nd, e = np.array([1.0, 1.0, 9.0]), np.array([0.0, 1e-6, 1e-9]); T = np.diag(d) + np.diag(e[1:], 1) + np.diag(e[1:], -1); m.tqli(d, e, np.eye(3), 60)\nassert np.allclose(np.sort(d), np.linalg.eigvalsh(T), rtol=0, atol=1e-10)")
bug("symmetric-seed", "C21", [("random.py", "	rng = np.random.default_rng() if seed is None else np.random.default_rng(seed)\n	N: int", "	rng = np.random.default_rng(seed) if seed else np.random.default_rng()\n	N: int")],
    "the seed zero", "seed 0 is taken for no seed: the matrix differs from call to call",
    "import numpy as np\nfrom primate.random import symmetric\nassert np.array_equal(symmetric(5, seed=1), symmetric(5, seed=1)) and np.array_equal(symmetric(5, seed=0), symmetric(5, seed=0))")
bug("mf-orth", "C29", [("operators.py", "self._orth = self._deg if orth < 0 or orth > self._deg else orth", "self._orth = self._deg if orth > self._deg else max(orth, 0)")],
    "a negative orth (full re-orthogonalisation) on an ill-conditioned operator", "full re-orthogonalisation is silently switched off",
    "import numpy as np\nfrom primate.operators import MatrixFunction\nrng = np.random.default_rng(0); n = 60; U = np.linalg.qr(rng.normal(size=(n, n)))[0]; w = np.logspace(0, 5, n); A = (U * w) @ U.T; A = (A + A.T) / 2; x = rng.normal(size=n)\ny = MatrixFunction(A, fun=lambda t: 1.0 / t, deg=n, orth=-1) @ x; z = (U / w) @ (U.T @ x)\nassert np.linalg.norm(y - z) < 1e-3 * np.linalg.norm(z), np.linalg.norm(y - z)", native=True)
bug("quad-argument", "C30", [("operators.py", "		x = x.astype(self.dtype)\n		x = np.atleast_2d(x).T", "		x = x.astype(self.dtype, copy=False)\n		x = np.atleast_2d(x).T")],
    "an argument that already has the operator's precision and column order", "the columns of the caller's array are normalised in place by the extension",
    "import numpy as np\nfrom primate.operators import MatrixFunction\nA = np.diag([1.0, 2.0, 3.0]) + 0.1; x = np.array([1.0, 2.0, 2.0]); x0 = x.copy(); M = MatrixFunction(A, deg=3, orth=3); a = M.quad(x); b = M.quad(x)\nassert np.array_equal(x, x0) and np.allclose(a, b), (x, a, b)", native=True)
bug("normalize-abs", "C32", [("operators.py", "return (A + alpha * I_op) / (2 * alpha)", "return (A + alpha * I_op) / (2 * abs(alpha))")],
    "an operator whose eigenvalue of largest magnitude is negative", "the spectrum lands in [-1, 0]: the eigenvalue of largest magnitude maps to minus one",
    "import numpy as np\nfrom primate.operators import normalize_unit\nN = normalize_unit(np.diag([-4.0, 1.0, 2.0, 3.0])) @ np.eye(4); w = np.linalg.eigvalsh(N)\nassert w.min() > -1e-8 and w.max() <= 1 + 1e-8, w", stub=True)
bug("py-buffer", "C27", [("include/pylinop.h", "py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);", "py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp, py::capsule(inp, [](void*) {}));")],
    "a Python operator whose matvec uses the array it is given as work space", "the operator is handed the stored Lanczos vector itself, so its scratch work destroys the basis",
    "import numpy as np\nrng = np.random.default_rng(0); A = rng.normal(size=(6, 6)); A = A + A.T\nclass Op:\n\tshape = (6, 6)\n\tdef __init__(self, scratch): self.scratch = scratch\n\tdef matvec(self, x):\n\t\ty = A @ x\n\t\tif self.scratch: x *= 0.5\n\t\treturn y\ndef run(op):\n\ta, b, Q = np.zeros(5), np.zeros(6), np.zeros((6, 4), order='F'); m.lanczos(op, np.ones(6), 4, 1e-8, 0, a, b, Q); return np.concatenate([a, b, Q.ravel()])\nassert np.allclose(run(Op(True)), run(Op(False)))", native=True)
