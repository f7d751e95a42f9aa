"""attacks.py [IDS]: further hand-written changes (no demonstration kept), tried in scratch copies like dry.py: which property, file, old text, new text."""
import sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/tools")
A = []
def a(prop, f, old, new, *more): A.append(dict(id=f"{prop}-{sum(x['property'] == prop for x in A)}", property=prop, edits=[(f, old, new)] + list(more)))
# C01
a("C01", "stats.py", "		X = np.atleast_1d(X)\n		X = X[:, None] if X.ndim == 1 else X\n		assert X.shape[1] == self.dim, f\"Expected shape (n, {self.dim}), got {X.shape}\"\n		if X.shape[0] == 0:\n			return  # nothing to add\n\n		## Compute batch mean and update overall mean\n		batch_mean = X.mean(axis=0)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n\n\nclass", "		X = np.atleast_1d(X)\n		X = X[:, None] if X.ndim == 1 else X\n		assert X.shape[1] == self.dim, f\"Expected shape (n, {self.dim}), got {X.shape}\"\n		if X.shape[0] == 0:\n			return  # nothing to add\n\n		## Compute batch mean and update overall mean\n		batch_mean = X.mean(axis=0, dtype=np.float32)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n\n\nclass")
a("C01", "stats.py", "class Mean:\n	def __init__(self, dim: int = 1):\n		self.dim = dim\n		self.n = 0\n		self.mu = np.zeros(dim)", "class Mean:\n	def __init__(self, dim: int = 1):\n		self.dim = dim\n		self.n = 0\n		self.mu = np.zeros(dim, dtype=np.float32)")
a("C01", "stats.py", "	def mean(self) -> Union[float, np.ndarray]:\n		if self.n == 0:", "	def mean(self) -> Union[float, np.ndarray]:\n		if not np.any(self.mu):")
# C02
a("C02", "stats.py", "		X_centered = X - batch_mean\n", "		X_centered = X - (self.mu if X.shape[0] == 1 else batch_mean)\n")
a("C02", "stats.py", "if self.dim > 1 else (delta_mean * delta_mean)", "if self.dim > 2 else (delta_mean * delta_mean)")
a("C02", "stats.py", "cov = self.S / (self.n - ddof)", "cov = self.S / (self.n - min(ddof, 1))")
# C03
a("C03", "estimators.py", "self.values.extend(x.copy())", "self.values.extend(x.ravel())")
a("C03", "estimators.py", "		x = x[:, None] if x.ndim == 1 else x\n		if hasattr(self, \"_cov\"):", "		x = x.reshape(-1, 1) if x.ndim == 1 or x.shape[0] == 1 else x\n		if hasattr(self, \"_cov\"):")
a("C03", "estimators.py", "return mu.item() if len(mu) == 1 else np.ravel(mu)", "return mu.item() if len(mu) == 1 else np.atleast_2d(mu)")
a("C03", "estimators.py", "self.delta = self._mean.mu - old_mu", "self.delta = np.abs(self._mean.mu - old_mu)")
a("C03", "estimators.py", "		self.values = [] if record else None\n		if covariance:", "		self.values = MeanEstimator.values if record else None\n		if covariance:")
# C04
a("C04", "estimators.py", "self._estimate_cor = alpha is None", "self._estimate_cor = alpha is None or not np.any(alpha)")
a("C04", "estimators.py", "(C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)", "(C[0, 1] / C[1, 1]) if self.cov.dim <= 3 else np.linalg.solve(C_11, C_01)")
a("C04", "estimators.py", "		C = self.cov(ddof=1)\n", "		C = self.cov(ddof=1 if self.n_samples > 2 else 0)\n")
a("C04", "estimators.py", "if self._estimate_cor and self.n_samples < 2:", "if self._estimate_cor and self.n_samples < 3:")
# C05
a("C05", "estimators.py", "		error = np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord)\n		estimate = np.atleast_1d(est.estimate)\n", "		error = np.linalg.norm(np.ravel(est.delta), ord=self.ord)\n		estimate = np.ravel(est.estimate)\n")
a("C05", "estimators.py", "error < self.rtol * np.linalg.norm(estimate, ord=self.ord))", "error / np.linalg.norm(estimate, ord=self.ord) < self.rtol)")
a("C05", "estimators.py", "		return len(est) >= self.count\n", "		return len(est) >= int(self.count)\n")
a("C05", "estimators.py", "error < self.rtol * np.linalg.norm(estimate, ord=self.ord))", "error < self.rtol * np.linalg.norm(estimate))")
a("C05", "estimators.py", "return bool(error < self.atol or", "return bool(error < (self.atol or 1.49e-08) or")
# C06
a("C06", "estimators.py", "if est.n_samples < 30 else self.z\n		margin_of_error = score", "if est.n_samples <= 30 else self.z\n		margin_of_error = score")
a("C06", "estimators.py", "		rel_error = abs(std_error / est.estimate)\n", "		if est.estimate == 0.0:\n			return (np.inf, np.inf)\n		rel_error = abs(std_error / est.estimate)\n")
a("C06", "estimators.py", "return moe <= self.atol or rerr <= self.rtol", "return moe < self.atol or rerr < self.rtol")
a("C06", "estimators.py", "		self.z = 2 ** (1 / 2) * sp.special.erfinv(confidence)", "		self.z = round(2 ** (1 / 2) * sp.special.erfinv(confidence), 2)")
a("C06", "estimators.py", 'assert isinstance(est, MeanEstimator), "Must be a mean estimator"', 'assert hasattr(est, "_cov"), "Must be a mean estimator"')
a("C06", "estimators.py", "assert 0 < confidence and confidence < 1,", "assert 0 <= confidence and confidence < 1,")
a("C06", "estimators.py", "score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z\n		margin", "score = self.t_scores[len(est.values or range(est.n_samples)) - 2] if est.n_samples < 30 else self.z\n		margin")
# C07
a("C07", "estimators.py", "ConvergenceCriterion(lambda est: and_(self(est), other(est)))", "CountCriterion(max(self.count, other.count)) if type(self) is type(other) is ConvergenceCriterion and hasattr(self, 'count') else CountCriterion(min(self.count, other.count)) if isinstance(self, CountCriterion) and isinstance(other, CountCriterion) else ConvergenceCriterion(lambda est: and_(self(est), other(est)))")
a("C07", "estimators.py", "from operator import and_, not_, or_", "from operator import and_, invert as not_, or_")
a("C07", "estimators.py", "		return self._operation(est)\n", "		if not hasattr(self, '_last') or self._last[0] is not est:\n			self._last = (est, self._operation(est))\n		return self._last[1]\n")
a("C07", "estimators.py", "	def __invert__(self):\n", "	def __invert__(self):\n		if hasattr(self, 'atol') and hasattr(self, 'ord'):\n			return ConvergenceCriterion(lambda est: est.estimate is not None and not_(self(est)))\n")
# C08
a("C08", "estimators.py", "criterion.lower() in CRITERIA.keys(), f\"Invalid criterion {criterion}\"\n	crit = CRITERIA[criterion.lower()]", "criterion.strip().lower() in CRITERIA.keys(), f\"Invalid criterion {criterion}\"\n	crit = CRITERIA[criterion.strip().lower()]")
a("C08", "estimators.py", "	if isinstance(criterion, ConvergenceCriterion):\n		return criterion\n", "	if isinstance(criterion, ConvergenceCriterion):\n		vars(criterion).update({k: v for k, v in kwargs.items() if k in vars(criterion)})\n		return criterion\n")
a("C08", "typing.py", "return {k: kwargs[k] for k in set(kwargs) - set(valid_args)}", "return {k: kwargs[k] for k in set(kwargs) - set(valid_args) if not k.startswith('_')}")
a("C08", "typing.py", "	return {k: v for k, v in kwargs.items() if k in valid_args}", "	if any(p.kind is p.VAR_KEYWORD for p in inspect.signature(fun).parameters.values()):\n		return dict(kwargs)\n	return {k: v for k, v in kwargs.items() if k in valid_args}")
a("C08", "estimators.py", '	"confidence": ConfidenceCriterion,\n', '	"confidence": ConfidenceCriterion,\n	"ci": ConfidenceCriterion,\n')
# C09
a("C09", "stats.py", "	if sdist == \"t\":\n", "	if sdist == \"t\" and len(a) < 30:\n", ("stats.py", 'elif sdist == "normal":', 'elif sdist in ("t", "normal"):'))
a("C09", "stats.py", "confidence >= 0.0 and confidence <= 1.0", "confidence > 0.0 and confidence <= 1.0")
a("C09", "stats.py", "	if sdist == \"t\":\n", "	if sdist.startswith(\"t\"):\n")
a("C09", "stats.py", "return mean - m * std_err, mean + m * std_err", "return max(mean - m * std_err, np.min(a)), min(mean + m * std_err, np.max(a))")
a("C09", "stats.py", "	if sdist == \"t\":\n", "	a = np.ravel(a)\n	a = a[np.isfinite(a)] if len(a) > 30 else np.unique(a)\n	if sdist == \"t\":\n")
# C10
a("C10", "estimators.py", "y_norm = (y - y.min()) / (y.max() - y.min())", "y_norm = (y - y.min()) / (y.max() - y.min() + 1e-12)")
a("C10", "estimators.py", "np.linspace(0, 1, len(y))", "np.arange(len(y)) / len(y)")
a("C10", "estimators.py", "max_diff_idx = np.argmax(diff_curve)", "max_diff_idx = np.argmax(diff_curve[:-1])")
a("C10", "estimators.py", "max_diff > threshold and diff_curve[-1] < threshold", "max_diff > threshold and diff_curve[-1] <= threshold")
a("C10", "estimators.py", "threshold = max_diff - (self.S / (len(y) - 1))", "threshold = max_diff - abs(self.S / (len(y) - 1))")
a("C10", "estimators.py", "mv = np.array(est.values).ravel()", "mv = np.array(est.values, dtype=np.float32).ravel()")
# C11
a("C11", "linalg.py", "B_ast[:n, :n] = B_inv", "B_ast[:n, :n] = np.triu(B_inv)")
a("C11", "linalg.py", "B_ast[:n, :n] = B_inv", "B_ast[:n, :n] = np.where(np.abs(B_inv) < 1e-10, 0.0, B_inv)")
a("C11", "linalg.py", "assert n == m and len(b) == (n + 1)", "assert n == m and len(b) >= (n + 1)", ("linalg.py", "b = np.atleast_2d(b).reshape((n + 1, 1))", "b = np.ravel(b)[: n + 1].reshape((n + 1, 1))"))
a("C11", "linalg.py", "((-B_inv) @ b[:-1])", "(np.negative(B_inv, out=B_inv if n > 4 else None) @ b[:-1])")
# C12
a("C12", "integrate.py", "tau = np.square(ev[0, :])", "tau = np.square(ev[0, :])\n		tau[tau < 1e-14] = 0.0\n		theta = np.where(tau > 0, theta, 0.0)")
a("C12", "integrate.py", "np.copyto(weights, tau)", "np.copyto(weights, tau / np.max(tau))")
a("C12", "integrate.py", "np.isclose(e[0], 0.0)", "np.isclose(e[0], 0.0, atol=1e-3)")
a("C12", "integrate.py", "theta, ev = eigh_tridiag(d[:deg], e[:deg], **kwargs)", "theta, ev = eigh_tridiag(np.asarray(d[:deg], dtype=np.float32), e[:deg], **kwargs)")
a("C12", "integrate.py", 'if quad in {"gw", "golub_welsch"}:', 'if quad.startswith("g"):')
# C13
a("C13", "integrate.py", "fttr(theta, d[:deg], e[:deg], deg, tau)", "fttr(theta, d[:deg], np.abs(e[:deg]), deg, tau)")
a("C13", "fttr.py", "t = -b[i - 1] / b[i]", "t = -abs(b[i - 1] / b[i])")
a("C13", "fttr.py", "mu_0 = np.sum(np.abs(theta[:k]))", "mu_0 = np.sum(np.abs(theta[:k] - theta[0]))")
a("C13", "fttr.py", "weight = 1.0 / np.sum(np.square(p))", "weight = 1.0 / np.sum(np.square(p[: max(k, 2)]))")
a("C13", "fttr.py", "	if n == 1:\n		return\n", "	if n == 1 or x == 0.0:\n		return\n")
# C14
a("C14", "tqli.py", "if (abs(e[m]) + dd) == dd:", "if abs(e[m]) <= 1e-7 * dd:")
a("C14", "tqli.py", "if (abs(e[m]) + dd) == dd:", "if abs(e[m]) < 1e-9:")
a("C14", "tqli.py", "dd = abs(d[m]) + abs(d[m + 1])", "dd = abs(d[m]) + abs(d[0])")
a("C14", "tqli.py", "np.prod(Z.shape) > 0", "np.prod(Z.shape) > 1")
a("C14", "tqli.py", "if ii > max_iter or", "if ii > min(max_iter, 12) or")
a("C14", "tqli.py", "return abs(a) if b >= 0.0 else -abs(a)", "return abs(a) if b > 0.0 else -abs(a)")
a("C14", "tqli.py", "if ii > max_iter or", "if m - it > max_iter or")
# C15
a("C15", "tridiag.py", "		except np.linalg.LinAlgError:\n", "		except Exception:\n")
a("C15", "tridiag.py", "Z = np.eye(len(d), dtype=d.dtype)", "Z = np.eye(len(d), dtype=np.float32)")
a("C15", "tridiag.py", 'return _eigh_tridiag(d, e, Z, method="tqli")', 'return _eigh_tridiag(d, e[1:], Z, method="tqli")')
a("C15", "tridiag.py", 'return _eigh_tridiag(d, e, Z, method="tqli")', 'return eigvalsh_tridiagonal(d, e[1:], lapack_driver="stebz")')
a("C15", "tridiag.py", "		tqli(d, e, Z, maxiter)\n", "		tqli(d, e, Z, maxiter)\n		d.sort()\n")
# C16
a("C16", "special.py", "J = np.append([1], np.cumprod([(2 * j - 1) / (2 * j) for j in np.arange(1, q + 1)]))", "J = np.append([1], np.cumprod([(2 * j - 1) / (2 * j) for j in np.arange(1, q + 1, dtype=np.float32)]))")
a("C16", "special.py", "d: float = (b - a) if a != b else 1.0", "d: float = (b - a) if abs(b - a) > 1e-6 else 1.0")
a("C16", "special.py", "x = np.abs(x) if nonnegative else x", "x = np.maximum(x, 0) if nonnegative else x")
a("C16", "special.py", "x = np.abs(x) if nonnegative else x", "x = np.abs(x, out=x if isinstance(x, np.ndarray) else None) if nonnegative else x")
a("C16", "special.py", "return np.exp(t * x)", "return np.exp(np.clip(t * x, -50, 50))")
a("C16", "special.py", "	return _exp(x) if x is not None else _exp", "	return _exp(x) if x is not None and np.size(x) else _exp")
# C17
a("C17", "special.py", 'q = kwargs.pop("q", 10)', 'q = kwargs.pop("q", None) or 10')
a("C17", "special.py", 'b = kwargs.pop("b", 1.0)', 'b = kwargs.pop("b", None) or 1.0')
a("C17", "special.py", 't = kwargs.pop("t", 1.0)', 't = kwargs.pop("t", None) or 1.0')
a("C17", "special.py", 'threshold = kwargs.pop("threshold", 0.000001)', 'threshold = kwargs.pop("threshold", None) or 0.000001')
a("C17", "special.py", "		return np.sqrt\n", "		return lambda x: np.sqrt(np.maximum(x, 0.0))\n")
a("C17", "special.py", "		return np.reciprocal\n", "		return lambda x: np.where(np.abs(x) > 1e-12, 1.0 / x, 0.0)\n")
a("C17", "special.py", "		assert fun in _BUILTIN_MATRIX_FUNCTIONS,", "		fun = fun.lower()\n		assert fun in _BUILTIN_MATRIX_FUNCTIONS,")
# C18
a("C18", "random.py", "	np.floor(out, out=out)  # {0, 1}\n", "	np.rint(out, out=out)  # {0, 1}\n")
a("C18", "random.py", "c = np.sqrt(np.sum(out**2, axis=0, keepdims=True))", "c = np.sqrt(np.sum(out**2, axis=0 if out.shape[0] > 1 else None, keepdims=True))")
a("C18", "random.py", "size = (size, 1) if isinstance(size, (int, np.integer)) else size", "size = (size, 1) if isinstance(size, int) else tuple(int(s) or 1 for s in size)")
a("C18", "random.py", '	"gaussian": "normal",\n', '	"gaussian": "normal",\n	"gauss": "normal",\n')
a("C18", "random.py", "		_ISO_FUNCS[pdf](rng, out)\n		return None", "		_ISO_FUNCS[pdf](rng, out)\n		return out")
a("C18", "random.py", "n = np.sqrt(out.shape[0])\n", "n = np.sqrt(out.size // out.shape[-1])\n")
# C19
a("C19", "random.py", 'W = np.empty(shape=size, dtype=np.float64, order="F")', 'W = np.empty(shape=size, dtype=np.float64, order="F" if size[-1] <= 64 else "C")')
a("C19", "random.py", "	rng = np.random.default_rng(seed)\n	if out is not None:", "	rng = np.random.default_rng(seed or None)\n	if out is not None:")
a("C19", "random.py", "	rng = np.random.default_rng(seed)\n	if out is not None:", "	rng = np.random.default_rng(seed) if not isinstance(seed, np.random.Generator) else seed.spawn(1)[0]\n	if out is not None:")
a("C19", "random.py", "			iso(rng, out=W)\n", "			iso(rng if W.size < 4096 else rng.spawn(1)[0], out=W)\n")
# C20
a("C20", "random.py", "concurrent.futures.wait(futures)", "concurrent.futures.wait(futures, return_when=concurrent.futures.FIRST_COMPLETED)")
a("C20", "random.py", "else rng.spawn(self.threads)", "else [rng] * self.threads")
a("C20", "random.py", "self.values, i * self.step, (i + 1) * self.step)", "self.values, i * self.step, min((i + 1) * self.step, self.shape[1] - 1) if i == self.threads - 1 and self.threads > 4 else (i + 1) * self.step)")
a("C20", "random.py", "else rng.spawn(self.threads)", "else [np.random.default_rng(s) for s in rng.bit_generator.seed_seq.generate_state(self.threads, dtype=np.uint8)]")
a("C20", "random.py", "self._random_generators[i], self.values", "self._random_generators[i % 8], self.values")
# C21
a("C21", "random.py", "	A = (A + A.T) / 2\n", "")
a("C21", "random.py", "ew = np.maximum(ew, np.finfo(np.float64).eps) if pd else ew", "ew = np.abs(ew) if pd else ew")
a("C21", "random.py", "ew = np.maximum(ew, np.finfo(np.float64).eps) if pd else ew", "ew = np.maximum(ew, np.finfo(np.float64).eps, out=ew) if pd else ew")
a("C21", "random.py", 'assert len(ew) == n, "Number', 'assert len(ew) <= n, "Number')
a("C21", "random.py", "	rng = np.random.default_rng() if seed is None else np.random.default_rng(seed)\n	OG = sp.stats.ortho_group(n, seed=rng)", "	rng = np.random.default_rng() if seed is None else np.random.default_rng(seed)\n	OG = sp.stats.ortho_group(n, seed=rng if seed else None)")
a("C21", "random.py", "	return U @ np.diag(ev) @ U.T", "	return U @ np.diag(np.sort(ev)) @ U")
# C22
a("C22", "trace.py", "quad_form = (lambda v: A.quad(v)) if hasattr(A, \"quad\") else (lambda v: np.einsum(\"...i,...i->...\", v.T, (A @ v).T))\n\n	## Catch degenerate case\n	if np.prod(A.shape) == 0:\n		return 0.0 if not full else (0.0, EstimatorResult(estimator, converge))\n\n	## Commence", "quad_form = (lambda v: A.quad(v)) if hasattr(A, \"quad\") and not isinstance(A, LinearOperator) else (lambda v: np.einsum(\"...i,...i->...\", v.T, (A @ v).T))\n\n	## Catch degenerate case\n	if np.prod(A.shape) == 0:\n		return 0.0 if not full else (0.0, EstimatorResult(estimator, converge))\n\n	## Commence")
a("C22", "trace.py", "cc2 = ConfidenceCriterion(confidence=0.95, atol=1.0, rtol=0.0)", "cc2 = ConfidenceCriterion(confidence=0.95, atol=1.0)")
a("C22", "trace.py", "	rng = np.random.default_rng(seed)\n	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf\n	estimator = MeanEstimator(covariance=True, record=kwargs", "	rng = np.random.default_rng(seed or None)\n	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf\n	estimator = MeanEstimator(covariance=True, record=kwargs")
a("C22", "trace.py", "result.estimate, result.nit = estimator.estimate, len(estimator)\n			callback(result)\n		result.message", "result.estimate, result.nit = estimator.estimate, result.nit + batch\n			callback(result)\n		result.message")
a("C22", "trace.py", "			v = pdf(size=(N, batch)).astype(f_dtype)\n			estimator", "			v = pdf(size=(N, batch if len(estimator) < 100 else 1)).astype(f_dtype)\n			estimator")
a("C22", "trace.py", "estimator.update(quad_form(pdf(size=(N, 1)).astype(f_dtype)))", "estimator.update(quad_form(pdf(size=(N, 1)).astype(np.float32)))")
a("C22", "trace.py", "			estimator.update(quad_form(v))\n", "			estimator.update(np.atleast_1d(np.mean(quad_form(v))))\n")
# C23
a("C23", "trace.py", "	nb += nb % 3  # ensure", "	nb = min(nb + nb % 3, N)  # ensure")
a("C23", "trace.py", "result.nit = 2 * nb", "result.nit = nb")
a("C23", "trace.py", "	G -= Q @ (Q.T @ G)\n", "	G -= Q @ (Q.T @ G)\n	G *= np.sqrt(N) / np.linalg.norm(G, axis=0)\n")
a("C23", "trace.py", "	tr_rng = np.sum(rng_ests)\n", "	tr_rng = np.trace(Q.T @ (A @ Q)) if N > 2 * nb else np.sum(np.abs(rng_ests))\n")
a("C23", "trace.py", 'np.einsum("...i,...i->...", A @ Q, Q) if mode == "full"', 'np.einsum("...i,...i->...", A @ Q, A @ Q) if mode == "full"')
a("C23", "trace.py", "nb = max(N // 3, 1) if m is None else m", "nb = max(N // 3, 1) if not m else max(m, 3)")
# C24
a("C24", "trace.py", "		ns = min(A.shape[1] - W.shape[1], int(batch))\n", "		ns = min(A.shape[1], int(batch))\n")
a("C24", "trace.py", 'if not pdf == "sphere":', 'if pdf not in ("sphere", "normal"):')
a("C24", "trace.py", "c = n - m + 1\n", "c = max(n - m, 1)\n")
a("C24", "trace.py", "converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)", "converge = convergence_criterion(converge, **kwargs)")
a("C24", "trace.py", "Z = np.c_[Z, A @ Q[:, -ns:]]", "Z = np.c_[Z, A @ Q[:, -ns:]] if Q.shape[1] < n else A @ Q[:, ::-1]")
a("C24", "trace.py", "abs(dSW) ** 2 * dSHS", "abs(dSW) * dSHS")
# C25
a("C25", "diagonal.py", "			estimator.update(np.atleast_2d(numer / denom))\n			if callback", "			estimator.update(np.atleast_2d(numer / np.maximum(denom, 1e-4)))\n			if callback")
a("C25", "diagonal.py", "			estimator.update(np.atleast_2d(numer / denom))\n		return", "			estimator.update(np.atleast_2d(np.where(np.abs(numer) > 1e-8, numer / denom, 0.0)))\n		return")
a("C25", "diagonal.py", "		result.estimate = estimator.estimate\n		return", "		result.estimate = numer / denom\n		return")
a("C25", "diagonal.py", "	if full or callback is not None:\n", "	if full or (callback is not None and record):\n")
a("C25", "diagonal.py", "	rng = np.random.default_rng(seed)\n	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf\n	estimator", "	rng = np.random.default_rng(seed)\n	pdf = isotropic(pdf='rademacher' if N == 1 else pdf, seed=rng) if isinstance(pdf, str) else pdf\n	estimator")
# C26
a("C26", "diagonal.py", "Z = A.T @ Q", "Z = A @ Q")
a("C26", "diagonal.py", "m = 2 * A.shape[0] if m is None else", "m = 2 * A.shape[0] if not m or m >= A.shape[0] else")
a("C26", "diagonal.py", "R_inv = np.linalg.inv(R)", "R_inv = np.linalg.pinv(R, rcond=1e-6)")
a("C26", "diagonal.py", "S = R_inv.T / np.linalg.norm(R_inv, axis=1)", "S = R_inv.T / np.maximum(np.linalg.norm(R_inv, axis=1), 1e-2)")
# C27
a("C27", "include/lanczos.h", "    if (orth > 0) {", "    if (orth > 1) {")
a("C27", "include/lanczos.h", "const F residual_tol = std::sqrt(n) * rtol;", "const F residual_tol = n * rtol;")
a("C27", "include/lanczos.h", "const auto tol = 2 * std::numeric_limits< F >::epsilon() * std::sqrt(n);", "const auto tol = std::sqrt(std::numeric_limits< F >::epsilon() * n);")
a("C27", "include/lanczos.h", "if (u_norm > tol && std::abs(s_proj) > tol){", "if (u_norm > 0.5 && std::abs(s_proj) > tol){")
a("C27", "include/lanczos.h", "v -= (s_proj / u_norm) * U.col(i);", "v -= s_proj * U.col(i);")
a("C27", "include/lanczos.h", "    pos[2] = mod(j+2, ncv);", "    pos[2] = mod(pos[1]+2, ncv);")
a("C27", "include/lanczos.h", "for (int i = mod(start_idx, m), c = 0; c < p; ++c, i = mod(i + diff, m)){", "for (int i = mod(start_idx, m), c = 0; c < std::min(p, m - 1); ++c, i = mod(i + diff, m)){")
a("C27", "include/lanczos.h", "  return (b + (a % b)) % b; ", "  return a < 0 ? a + b : a % b; ")
# C28
a("C27", "include/pylinop.h", "if (static_cast< size_t >(output.size()) != _shape.first) {", "if (static_cast< size_t >(output.size()) < _shape.first) {")
a("C27", "include/pylinop.h", "auto output = matvec_out.cast< py_array< F > >();", "auto output = matvec_out.cast< py::array_t< F, py::array::forcecast > >();")
a("C27", "_lanczos.cpp", "    const auto op = Wrapper(A);\n    const size_t ncv = static_cast< size_t >(Q.shape(1));\n    lanczos_recurrence(\n      op, v.mutable_data()", "    const auto op = Wrapper(A);\n    const size_t ncv = static_cast< size_t >(std::min(Q.shape(0), Q.shape(1)));\n    lanczos_recurrence(\n      op, v.mutable_data()")
a("C27", "_lanczos.cpp", "alpha.mutable_data(), beta.mutable_data(), Q.mutable_data(), ncv", "alpha.mutable_data(), beta.mutable_data(), (F*) Q.data(), ncv - (orth < 0 && ncv > 2)")
a("C27", "_lanczos.cpp", "py_array< F > v, const int lanczos_degree", "const py::array_t< F, py::array::c_style | py::array::forcecast > v, const int lanczos_degree", ("_lanczos.cpp", "op, v.mutable_data(), lanczos_degree", "op, (F*) py_array< F >(v.attr(\"copy\")()).data(), lanczos_degree"))
a("C27", "include/eigen_operators.h", "  DenseEigenLinearOperator(const DenseMatrix< F > _mat) : A(_mat), matvec_time(0.0){}", "  DenseEigenLinearOperator(const DenseMatrix< F > _mat) : A((_mat + _mat.transpose()) / F(2)), matvec_time(0.0){}")
a("C28", "lanczos.py", "deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])\n	dt =", "deg: int = A.shape[1] if not deg else min(deg, A.shape[1])\n	dt =")
a("C28", "lanczos.py", "rng = np.random.default_rng(seed)", "rng = np.random.default_rng(seed or None)")
a("C28", "lanczos.py", "ncv: int = np.clip(orth, 2, deg) if not (return_basis) else deg", "ncv: int = np.clip(orth, 2, deg) if not (return_basis and orth > 0) else deg")
a("C28", "lanczos.py", "v0: np.ndarray = np.array(v0).astype(dt)", "v0: np.ndarray = np.asarray(v0, dtype=dt)")
a("C28", "lanczos.py", "T = spdiags(data=[np.roll(beta, -1), alpha, beta]", "T = spdiags(data=[beta, alpha, beta]")
a("C28", "include/pylinop.h", "py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);", "py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp, py::capsule(inp, [](void*) {}));")
a("C28", "lanczos.py", "deg = np.clip([deg], 2, n).item()", "deg = np.clip([deg], 2, max(n, 2)).item() if n < 40 else np.clip([deg], 2, n - 1).item()")
# C29
a("C29", "operators.py", "fun = param_callable(fun, **kwargs) if isinstance(fun, str) else fun", "fun = param_callable(fun) if isinstance(fun, str) else fun")
a("C29", "operators.py", "self._orth = self._deg if orth < 0 or orth > self._deg else orth", "self._orth = self._deg if orth < 0 or orth > self._deg else max(orth, 1)")
a("C29", "operators.py", "self._orth = self._deg if orth < 0 or orth > self._deg else orth", "self._orth = self._deg if orth < 0 else min(orth, 3)")
a("C29", "operators.py", "assert out.shape[-1] == self.shape[0],", "assert out.shape[-1] >= self.shape[0],")
a("C29", "operators.py", "return M if v is None else M._matvec(v)", "return M if v is None else M.matvec(v) / np.linalg.norm(v)")
a("C29", "operators.py", "self._rtol = 1e-8", "self._rtol = 1e-4")
a("C29", "operators.py", "xc = x[:, j]\n", "xc = x[:, j] if x.flags['OWNDATA'] else x[:, 0]\n")
# C30
a("C30", "operators.py", "x = x.astype(self.dtype).reshape(-1)", "x = x.astype(self.dtype, copy=False).reshape(-1)")
a("C30", "operators.py", "		x = x.astype(self.dtype)\n		x = np.atleast_2d(x).T", "		x = x.astype(self.dtype, copy=x.ndim == 1)\n		x = np.atleast_2d(x).T")
a("C30", "operators.py", "		self._Q[:, -self._deg :].fill(0)", "		self._Q[:, 1 - self._deg :].fill(0)")
a("C30", "operators.py", "		self._fun = value\n", "		self._fun = getattr(self, '_fun', value) if getattr(value, '__name__', '') == 'log' else value\n")
# C31
a("C31", "operators.py", "self.r = np.array(c if r is None else r)", "self.r = np.asarray(c if r is None else r, dtype=self.c.dtype)")
a("C31", "operators.py", "self._z = np.zeros(len(c) * 2)  # workspace", "self._z = np.zeros(len(c) * 2, dtype=np.float32)  # workspace")
a("C31", "operators.py", "assert len(x) == len(self.c),", "assert len(x) <= len(self.c),", ("operators.py", "self._z[: self.shape[0]] = x.ravel()", "self._z[: len(x)] = x.ravel()"))
a("C31", "operators.py", "self.c = np.array(c)\n", "self.c = np.array(c)\n		self.c[np.abs(self.c) < 1e-9] = 0\n")
a("C31", "operators.py", "self._dfft * x_fft", "np.where(self._dfft == 0, 1e-15, self._dfft) * x_fft if len(self.c) % 2 else self._dfft * x_fft.conj().conj() * (len(x_fft) < 64)")
# C32
a("C32", "operators.py", "alpha = eigsh(A, k=1, which=\"LM\", return_eigenvectors=False).item()", "alpha = eigsh(A, k=1, which=\"LM\", return_eigenvectors=False, tol=1e-2).item()")
a("C32", "operators.py", "alpha = eigsh(A, k=1, which=\"LM\", return_eigenvectors=False).item()", "alpha = eigsh(A, k=1, which=\"LA\", return_eigenvectors=False).item()\n	if alpha <= 0:\n		alpha = eigsh(A, k=1, which=\"SA\", return_eigenvectors=False).item()")
a("C32", "operators.py", "return (A + alpha * I_op) / (2 * alpha)", "return (A + alpha * I_op) / (2 * max(alpha, 1e-6)) if alpha > 0 else (A + alpha * I_op) / (2 * alpha)")
# C33
a("C33", "operators.py", "is_valid_op &= any(attr_checks)  #", "is_valid_op &= any(attr_checks[:3])  #")
a("C33", "operators.py", 'assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floats are supported."', 'assert f_dtype.itemsize in (4, 8) and f_dtype.kind in "fc", "Only 32- or 64-bit floats are supported."')
a("C33", "operators.py", 'len(A.shape) >= 2, "Operator', 'len(A.shape) == 2, "Operator')
a("C33", "operators.py", 'f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype\n	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floats are', 'f_dtype = (A @ np.zeros(A.shape[1])).dtype\n	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floats are')
# third round: state kept between calls, unusual inputs, combinations
a("C01", "stats.py", "		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n\n\nclass", "		self.mu += (X.shape[0] / new_n) * delta_mean if self.n or X.shape[0] > 1 else X[0]\n		self.n = new_n\n		self.mu[np.abs(self.mu) < 1e-12] = 0.0\n\n\nclass")
a("C01", "stats.py", "	def mean(self) -> Union[float, np.ndarray]:\n		if self.n == 0:\n			return np.nan\n		return self.mu.item() if self.dim == 1 else self.mu\n", "	def mean(self) -> Union[float, np.ndarray]:\n		if self.n == 0:\n			return np.nan\n		if getattr(self, \"_seen\", None) != self.n:\n			self._seen, self._val = self.n - self.n % 4, (self.mu.item() if self.dim == 1 else self.mu)\n		return self._val\n")
a("C01", "stats.py", "		X = X[:, None] if X.ndim == 1 else X\n		assert X.shape[1] == self.dim, f\"Expected shape (n, {self.dim}), got {X.shape}\"\n		if X.shape[0] == 0:\n			return  # nothing to add\n\n		## Compute batch mean and update overall mean\n		batch_mean = X.mean(axis=0)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n", "		X = X.reshape(-1, self.dim)\n\n		## Compute batch mean and update overall mean\n		batch_mean = X.mean(axis=0)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n")
a("C02", "stats.py", "		cov = self.S / (self.n - ddof)\n		return cov.item() if self.dim == 1 else cov\n", "		if getattr(self, \"_at\", None) != self.n:\n			self._at, self._c = self.n, self.S / (self.n - ddof)\n		cov = self._c\n		return cov.item() if self.dim == 1 else cov\n")
a("C02", "stats.py", "		cov = self.S / (self.n - ddof)\n", "		cov = self.S\n		cov /= self.n - ddof\n		self.S = cov * (self.n - ddof) if self.dim > 1 else cov\n")
a("C02", "stats.py", "		if (self.n - ddof) <= 0:\n			return np.inf if", "		if (self.n - ddof) <= 0 or self.n < 2:\n			return np.inf if")
a("C03", "estimators.py", "		self.values = [] if record else None\n", "		self.values = self.values if record else None\n")
a("C03", "estimators.py", "			self.values.extend(x.copy())\n", "			self.values.extend(x[-1000:].copy() if len(self.values) else np.array(x, dtype=np.float32))\n")
a("C03", "estimators.py", "			self.values.extend(x.copy())\n", "			self.values = list(self.values) + list(x.copy()) if x.shape[0] < 50 else self.values + list(np.sort(x, axis=0))\n")
a("C03", "estimators.py", "			self._mean.update(x)\n			self.delta = self._mean.mu - old_mu\n", "			self._mean.update(x)\n			self.delta = self._mean.mu - (old_mu if self.n_samples else np.zeros_like(old_mu) + self._mean.mu * (x.shape[0] > 64))\n")
a("C04", "estimators.py", "		self._estimate_cor = alpha is None\n", "		self._estimate_cor = alpha is None or not np.any(alpha)\n")
a("C04", "estimators.py", "		self.alpha = alpha\n		self.ecv = ecv\n", "		self.alpha = alpha\n		self.ecv = ecv.astype(np.float32).astype(float)\n")
a("C04", "estimators.py", "		if self._estimate_cor and self.n_samples < 2:\n", "		if self._estimate_cor and self.n_samples <= len(self.ecv):\n")
a("C05", "estimators.py", "		error = np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord)\n		estimate = np.atleast_1d(est.estimate)\n		return", "		key = len(est)\n		if getattr(self, \"_last\", (None,))[0] != key:\n			self._last = (key, np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord))\n		error = self._last[1]\n		estimate = np.atleast_1d(est.estimate)\n		return")
a("C05", "estimators.py", "		return len(est) >= self.count\n", "		self.done = getattr(self, \"done\", False) or len(est) >= self.count\n		return self.done\n")
a("C05", "estimators.py", "		return len(est) >= self.count\n", "		return len(est) >= max(self.count, 1)\n")
a("C05", "estimators.py", "		return len(est) >= self.count\n", "		return len(est) >= int(self.count)\n")
a("C06", "estimators.py", "		moe, rerr = self._error(est)\n		return moe <= self.atol or rerr <= self.rtol\n", "		if getattr(self, \"_n\", -1) != est.n_samples:\n			self._n, self._e = est.n_samples, self._error(est)\n		moe, rerr = self._e\n		return moe <= self.atol or rerr <= self.rtol\n")
a("C06", "estimators.py", "		rel_error = abs(std_error / est.estimate)\n", "		rel_error = abs(std_error / est.estimate) if est.estimate else np.inf\n		if std_error == 0:\n			return (np.inf, np.inf)\n")
a("C06", "estimators.py", "		self.atol = 0.0 if atol is None else atol\n		self.rtol = 0.0 if rtol is None else rtol\n		self.z", "		self.atol = atol or 1e-12\n		self.rtol = rtol or 1e-12\n		self.z")
a("C07", "estimators.py", "	def __invert__(self):\n		return ConvergenceCriterion(lambda est: not_(self(est)))\n", "	def __invert__(self):\n		if type(self) is ConvergenceCriterion:\n			op = self._operation\n			self._operation = lambda est: not_(op(est))\n			return self\n		return ConvergenceCriterion(lambda est: not_(self(est)))\n")
a("C07", "estimators.py", "	def __and__(self, other: \"ConvergenceCriterion\"):\n", "	def __and__(self, other: \"ConvergenceCriterion\"):\n		if isinstance(self, CountCriterion) and isinstance(other, CountCriterion):\n			return self if self.count < other.count else other\n")
a("C07", "estimators.py", "		return ConvergenceCriterion(lambda est: or_(self(est), other(est)))\n", "		parts = [self, other]\n		return ConvergenceCriterion(lambda est: bool(parts) and or_(parts[0](est), parts.pop()(est) if len(parts) > 1 else parts[0](est)))\n")
a("C08", "estimators.py", "criterion.lower()]", "criterion.strip().lower()]")
a("C08", "typing.py", "	valid_args = set(inspect.signature(fun).parameters)\n	return {k: v for k, v in kwargs.items() if k in valid_args}\n", "	valid_args = set(inspect.signature(fun).parameters)\n	return {k: v for k, v in kwargs.items() if k in valid_args and v is not None}\n")
a("C08", "typing.py", "	valid_args = set(inspect.signature(f).parameters)\n	return {k: kwargs[k] for k in set(kwargs) - set(valid_args)}", "	valid_args = set(inspect.signature(f).parameters)\n	for k in valid_args & set(kwargs):\n		kwargs = {a: b for a, b in kwargs.items() if a != k and not k.startswith(a)}\n	return kwargs")
a("C09", "stats.py", "confidence >= 0.0 and confidence <= 1.0, \"", "confidence >= 0.0 and confidence < 1.0, \"")
a("C09", "stats.py", "		mean, std = np.mean(a), np.std(a, ddof=1)\n", "		a = np.asarray(a)\n		mean, std = np.mean(a), np.sqrt(max(np.mean(a**2) - np.mean(a) ** 2, 0.0) * len(a) / (len(a) - 1))\n")
a("C10", "estimators.py", "		mv = np.array(est.values).ravel()\n", "		mv = np.array(est.values[-256:]).ravel()\n")
a("C10", "estimators.py", "		y = mu_cum_diffs\n		y_norm", "		y = np.round(mu_cum_diffs, 12)\n		y_norm")
a("C10", "estimators.py", "		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)\n", "		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1, dtype=np.int8 if len(mv) < 120 else np.int16)\n		est.values.sort() if len(est.values) > 400 else None\n")
a("C11", "linalg.py", "	B_ast = np.zeros(shape=(n + 1, n + 1))\n", "	B_ast = np.zeros(shape=(n + 1, n + 1), dtype=np.float32 if n == 0 else B_inv.dtype)\n")
a("C11", "linalg.py", "np.reciprocal(b[-1]).item()", "(1.0 / max(b[-1].item(), np.finfo(float).tiny) if b[-1] > 0 else np.reciprocal(b[-1]).item() if abs(b[-1].item()) > 1e-10 else -1e10)")
a("C12", "integrate.py", "		tau = np.square(ev[0, :])\n", "		tau = np.square(ev[0, :] if ev.shape[1] > 1 else ev[0, :1] * np.sign(d[0]))\n		theta = np.where(np.isclose(theta, 0, atol=1e-10), 0.0, theta)\n")
a("C12", "integrate.py", "	e = np.append([0], e) if len(e) == (len(d) - 1) else e\n	assert", "	e = np.append([0], e) if len(e) < len(d) else e\n	e = e[: len(d)] if deg < len(d) else e\n	e[0] = 0 if len(d) == deg else e[0]\n	assert")
a("C12", "integrate.py", "		np.copyto(weights, tau)\n", "		np.copyto(weights, tau if nodes is not None else np.sort(tau))\n")
a("C13", "fttr.py", "	p = np.zeros(n)\n	for i in range(k):\n", "	p = np.zeros(n)\n	for i in range(min(k, 64)):\n")
a("C13", "integrate.py", "		tau = np.zeros(len(theta), dtype=theta.dtype)\n		fttr(", "		tau = np.zeros(len(theta), dtype=theta.dtype)\n		theta = theta + (theta == 0) * np.finfo(float).tiny if len(theta) % 2 else np.where(abs(theta) < 1e-12, 0.0, theta)[::-1]\n		fttr(")
a("C15", "tridiag.py", "	Z = np.empty((0, 0), dtype=d.dtype)\n	return _eigh_tridiag(d, e, Z, method, maxiter)", "	Z = np.empty((0, 0), dtype=d.dtype)\n	return _eigh_tridiag(d, e, Z, method, min(maxiter, len(d)))")
a("C15", "tridiag.py", "	Z = np.eye(len(d), dtype=d.dtype)\n", "	global _EYE\n	_EYE = globals().get(\"_EYE\")\n	if _EYE is None or _EYE.shape[0] != len(d):\n		_EYE = np.eye(len(d), dtype=d.dtype)\n	Z = _EYE\n")
a("C15", "tridiag.py", "	d, e = (d.copy(), e.copy())\n	Z = np.eye", "	d, e = (d.astype(float, copy=False), e.copy())\n	Z = np.eye")
a("C16", "special.py", "	I = np.arange(q + 1)  # noqa: E741\n", "	I = np.arange(min(q, 60) + 1)  # noqa: E741\n	q = min(q, 60)\n")
a("C16", "special.py", "		x = np.clip(x, -1.0, +1.0)\n", "		x = np.clip(x, -1.0, +1.0, out=x if isinstance(x, np.ndarray) and x.ndim == 1 and x.size > 16 else None)\n")
a("C16", "special.py", "		y = np.clip((x - a) / d, 0.0, 1.0)  # maps [a,b] |-> [0,1]\n", "		y = np.clip((x - a) / d, 0.0, 1.0) if np.ndim(x) else min(max((x - b) / d + 1, 0.0), 1.0) if d > 0 else 0.0\n")
a("C17", "special.py", "	elif fun == \"exp\":\n		t = kwargs.pop(\"t\", 1.0)  # type: ignore\n		return exp(t=t)\n", "	elif fun == \"exp\":\n		t = kwargs.pop(\"t\", 1.0)  # type: ignore\n		return _MEMO.setdefault(fun, exp(t=t))\n", ("special.py", "_BUILTIN_MATRIX_FUNCTIONS = [", "_MEMO: dict = {}\n_BUILTIN_MATRIX_FUNCTIONS = ["))
a("C17", "special.py", "		return step(c=threshold, nonnegative=True)\n", "		return step(c=threshold, nonnegative=threshold > 0)\n")
a("C17", "special.py", "	if fun is None or fun == \"identity\":\n		return identity\n	elif callable(fun):\n		return fun\n", "	if fun is None or fun == \"identity\":\n		return identity\n	elif callable(fun):\n		return (lambda x: fun(x, **kwargs)) if kwargs else fun\n")
a("C18", "random.py", "	np.divide(out, c, out=out)\n", "	np.divide(out, np.maximum(c, 0.05), out=out)\n")
a("C18", "random.py", "	np.multiply(out, 2, out=out)  # [0, 2]\n", "	np.multiply(out, 1.9999999, out=out)  # [0, 2]\n")
a("C18", "random.py", "			W = np.empty(shape=size, dtype=np.float64, order=\"F\")\n			iso(rng, out=W)\n			return W\n", "			W = np.empty(shape=size, dtype=np.float64, order=\"F\")\n			iso(rng, out=W)\n			return W if W.ndim < 2 or W.shape[1] < 512 else W[:, :512]\n")
a("C19", "random.py", "		def _isotropic(size: Union[int, tuple]):\n", "		def _isotropic(size: Union[int, tuple]):\n			nonlocal rng\n			rng = np.random.default_rng(seed) if isinstance(seed, int) and np.prod(size) > 500 else rng\n")
a("C19", "random.py", "			iso(rng, out=W)\n			return W\n", "			iso(rng, out=W)\n			if pdf == \"rademacher\" and W.size % 2:\n				rng.random()\n			return W\n")
a("C20", "random.py", "	def fill(self):\n", "	def fill(self):\n		if self.values.any() and self.threads > self.shape[1]:\n			return\n")
a("C20", "random.py", "		self.step = np.ceil(self.shape[1] / self.threads).astype(np.int_)\n", "		self.step = np.ceil(np.float32(self.shape[1]) / np.float32(self.threads) - 1e-3).astype(np.int_)\n")
a("C20", "random.py", "		self.iso = _ISO_FUNCS[pdf]\n		self.threads", "		self.iso = _ISO_FUNCS[pdf] if pdf != \"sphere\" or size[1] > 1 else _normal_inplace\n		self.threads")
a("C21", "random.py", "	A = Q @ np.diag(ew) @ Q.T\n", "	A = Q @ np.diag(ew if pd or len(ew) < 12 else np.round(ew, 8)) @ Q.T\n")
a("C21", "random.py", "	ev[: len(ew)] = ew\n", "	ev[: len(ew)] = np.real_if_close(ew)\n	ev[np.abs(ev) < 1e-10] = 0.0\n")
a("C22", "trace.py", "		callback = (lambda x: x) if callback is None else callback\n", "		callback = callback or (lambda x: x)\n")
a("C22", "trace.py", "	if full or callback is not None:\n		result = EstimatorResult(estimator, converge)\n		callback", "	if full or callback:\n		result = EstimatorResult(estimator, converge)\n		callback")
a("C22", "trace.py", "		cc1 = CountCriterion(count=200)\n", "		cc1 = CountCriterion(count=max(200, N))\n")
a("C22", "trace.py", "	if converge == \"default\":\n		cc1 = C", "	if converge == \"default\" and not kwargs:\n		cc1 = C")
a("C23", "trace.py", "	G -= Q @ (Q.T @ G)\n", "	G -= Q @ (Q.T @ G) if nb < N else 0\n")
a("C23", "trace.py", "	tr_defl = (1 / nb) * np.sum(defl_ests)\n", "	tr_defl = (1 / max(nb, 3)) * np.sum(defl_ests)\n")
a("C23", "trace.py", "	WB = pdf(size=(N, nb)).astype(f_dtype)\n", "	WB = pdf(size=(N, min(nb, N))).astype(f_dtype)\n")
a("C24", "trace.py", "	callback = (lambda result: ...) if not callable(callback) else callback\n	record", "	callback = (lambda result: ...) if not callable(callback) else callback\n	batch = min(batch, max(n // 2, 1))\n	record")
a("C24", "trace.py", "		scale = c / (n -", "		scale = c / np.maximum(1e-8, n -")
a("C24", "trace.py", "		estimator = MeanEstimator(covariance=True, record=record)  # degenerate", "		estimator = estimator if record else MeanEstimator(covariance=True, record=record)  # degenerate")
a("C25", "diagonal.py", "			denom += np.square(v.ravel())\n			estimator.update(np.atleast_2d(numer / denom))\n		return", "			denom += np.square(u if False else v.ravel())\n			estimator.update(np.atleast_2d(numer / denom if len(estimator) < 500 else numer / (len(estimator) + 1)))\n		return")
a("C25", "diagonal.py", "		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)\n		while", "		numer, denom = np.zeros(N, dtype=np.float32), np.zeros(N, dtype=np.float32)\n		while")
a("C26", "diagonal.py", "	m = 2 * A.shape[0] if m is None else min(m + (m % 2), 2 * A.shape[0])\n", "	m = 2 * A.shape[0] if m is None else min(m + (m % 2), 2 * (A.shape[0] - A.shape[0] % 2) or 2)\n")
a("C26", "diagonal.py", "	dNQSST = diag_prod(N.T, (diag_prod(S, T) * QS.T))\n", "	dNQSST = diag_prod(N.T, (diag_prod(S, T) * QS.T)) if pdf != \"sphere\" else diag_prod(N.T, np.abs(diag_prod(S, T)) * QS.T)\n")
a("C28", "lanczos.py", "	alpha = kwargs.get(\"alpha\", np.zeros(deg + 1, dtype=f_dtype))\n", "	alpha = kwargs.get(\"alpha\", _WORK.setdefault((deg, str(f_dtype)), np.zeros(deg + 1, dtype=f_dtype)))\n", ("lanczos.py", "def lanczos(\n", "_WORK: dict = {}\n\n\ndef lanczos(\n"))
a("C28", "lanczos.py", "		a, b = alpha[:deg], beta[1:deg]\n", "		a, b = alpha[:deg], beta[1:deg]\n		b[b < 1e-6] = 0.0\n")
a("C28", "lanczos.py", "	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype\n", "	dt = dtype if dtype is not None else (A.dtype if hasattr(A, \"dtype\") and v0 is None else np.float32 if n > 64 else float)\n")
a("C29", "operators.py", "		x_norm = np.linalg.norm(x)\n		_lanczos", "		x_norm = np.linalg.norm(x) if np.abs(x).max() > 1e-6 else 0.0\n		_lanczos")
a("C29", "operators.py", "		out = value(np.ones(self.shape[1]))\n", "		out = value(np.ones(self._deg if hasattr(self, \"_deg\") else self.shape[1]))\n", ("operators.py", "assert out.shape[-1] == self.shape[0],", "assert out.shape[-1] <= self.shape[0],"))
a("C30", "operators.py", "		x = x.astype(self.dtype).reshape(-1)\n		x_norm = np.linalg.norm(x)\n", "		if getattr(self, \"_last\", (None,))[0] is x:\n			return self._last[1]\n		x0 = x\n		x = x.astype(self.dtype).reshape(-1)\n		x_norm = np.linalg.norm(x)\n", ("operators.py", "		return x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T\n", "		y = x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T\n		self._last = (x0, y)\n		return y\n"))
a("C30", "operators.py", "		self._fun = value\n", "		self._fun = value\n		self.__dict__.setdefault(\"_f0\", value)\n", ("operators.py", "y[j] = np.sum(self._fun(nodes)", "y[j] = np.sum((self._f0 if j > 8 else self._fun)(nodes)"))
a("C30", "operators.py", "			self._Q.fill(0)  # vectors of a previous run must not be orthogonalized against\n", "			if self._orth > 0 or j == 0:\n				self._Q[:, : max(self._orth, 1)].fill(0)\n")
a("C31", "operators.py", "np.concatenate((self.c, [0], np.flip(self.r[1:])))", "np.concatenate((self.r[:1], self.c[1:], [0], np.flip(self.r[1:])))")
a("C31", "operators.py", "		y = np.real(np.fft.ifft(self._dfft * x_fft))\n		return y", "		y = np.real(np.fft.ifft(self._dfft * x_fft)) if np.any(x) or True else self._z\n		y[np.abs(y) < 1e-11] = 0\n		return y")
a("C31", "operators.py", "		self._z[: self.shape[0]] = x.ravel().astype(self.dtype, copy=False)\n", "		self._z[np.flatnonzero(x)] = x.ravel()[np.flatnonzero(x)].astype(self.dtype, copy=False)\n")
a("C32", "operators.py", "	if A.shape[0] == 1:  # eigsh needs k < n\n", "	if A.shape[0] <= 2:  # eigsh needs k < n\n")
a("C32", "operators.py", "	A = aslinearoperator(A) if not isinstance(A, LinearOperator) else A\n	assert", "	A = A if isinstance(A, LinearOperator) else aslinearoperator(A.astype(np.float32) if hasattr(A, \"nnz\") else A)\n	assert")
a("C33", "operators.py", "	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]", "	is_valid_op = is_valid_op and len(set(A.shape)) == 1")
a("C33", "operators.py", "(A @ np.zeros(A.shape[1])).dtype if not hasattr(A, \"dtype\") else A.dtype\n	assert f_dtype.type in", "(A @ np.zeros(A.shape[1], dtype=np.float32)).dtype if not hasattr(A, \"dtype\") else A.dtype\n	assert f_dtype.type in")
a("C33", "operators.py", "(A @ np.zeros(A.shape[1])).dtype if not hasattr(A, \"dtype\") else A.dtype\n	assert f_dtype.type in", "(A @ np.zeros(A.shape[1])).dtype if getattr(A, \"dtype\", None) is None else np.dtype(A.dtype)\n	assert f_dtype.type in")
# fourth round
a("C02", "stats.py", "		if (self.n - ddof) <= 0:\n", "		if self.n < 2 or (self.n - ddof) <= 0:\n")
a("C01", "stats.py", "		X = np.atleast_1d(X)\n		X = X[:, None] if X.ndim == 1 else X\n		assert X.shape[1] == self.dim, f\"Expected shape (n, {self.dim}), got {X.shape}\"\n		if X.shape[0] == 0:\n			return  # nothing to add\n\n		## Compute batch mean and update overall mean\n		batch_mean = X.mean(axis=0)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n\n\nclass", "		X = np.unique(np.atleast_2d(X), axis=0) if isinstance(X, set) else np.atleast_1d(X)\n		X = X[:, None] if X.ndim == 1 else X\n		assert X.shape[1] == self.dim\n		if not np.any(X):\n			return\n		batch_mean = X.mean(axis=0)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n\n\nclass")
a("C03", "estimators.py", "			self.delta = self._mean.mu - old_mu\n", "			self.delta = self._mean.mu - old_mu if x.shape[0] else self.delta\n")
a("C03", "estimators.py", "			return mu.item() if len(mu) == 1 else np.ravel(mu)\n", "			return mu.item() if len(mu) == 1 or np.ptp(mu) == 0 else np.ravel(mu)\n")
a("C04", "estimators.py", "			C_01, C_11 = C[1:, 0], C[1:, 1:]\n", "			C_01, C_11 = C[1:, 0], C[1:, 1:] + 1e-10 * np.eye(len(self.ecv))\n")
a("C04", "estimators.py", "		if self.n_samples == 0:\n			return np.nan\n", "		if self.n_samples == 0 or not np.any(self.cov.mu):\n			return np.nan\n")
a("C05", "estimators.py", "		if est.estimate is None:\n			return False\n		error", "		if est.estimate is None or len(est) < 2:\n			return False\n		error")
a("C05", "estimators.py", "		return bool(error < self.atol or error", "		return bool(error <= self.atol and error == 0 and self.atol > 0 or error < self.atol - 1e-300 or error")
a("C06", "estimators.py", "		if est.n_samples < 3:\n			return (np.inf, np.inf)\n", "		if est.n_samples < 3 or est._cov.covariance() == 0:\n			return (np.inf, np.inf)\n")
a("C07", "estimators.py", "		return ConvergenceCriterion(lambda est: not_(self(est)))", "		return ConvergenceCriterion(lambda est: not_(self(est)) and len(est) > 0)")
a("C07", "estimators.py", "		self._operation = operation\n\n", "		self._operation = operation\n		self._done = False\n\n", ("estimators.py", "		return self._operation(est)\n", "		self._done = self._done or bool(self._operation(est))\n		return self._done\n"))
a("C09", "stats.py", "		mean, std_err, m = np.mean(a), sp.stats.sem(a, ddof=1), sp.stats.t.ppf((1 + confidence) / 2.0, len(a) - 1)", "		mean, std_err, m = np.mean(a), sp.stats.sem(a, ddof=1), sp.stats.t.ppf((1 + confidence) / 2.0, min(len(a) - 1, 200))")
a("C10", "estimators.py", "		mv = np.array(est.values).ravel()\n", "		mv = np.array(est.values[-4096:]).ravel()\n")
a("C11", "linalg.py", "	B_ast[:n, :n] = B_inv\n", "	B_ast[:n, :n] = B_inv if n < 3 or abs(B_inv[0, n - 1]) > 1e-12 * abs(B_inv[0, 0]) else np.tril(np.triu(B_inv), n - 2)\n")
a("C11", "linalg.py", "	B_ast[n, n] = np.reciprocal(b[-1]).item()\n", "	B_ast[n, n] = np.reciprocal(b[-1] if abs(b[-1]) > 1e-14 else b[-1] + 1e-14).item()\n")
a("C12", "integrate.py", "		tau = np.square(ev[0, :])\n", "		tau = np.square(ev[0, :])\n		tau[tau < 1e-14] = 0.0\n")
a("C13", "fttr.py", "		weights[i] = weight / mu_0\n", "		weights[i] = weight / mu_0 if i == 0 or theta[i] != theta[i - 1] else weights[i - 1]\n")
a("C14", "tqli.py", "				if (abs(e[m]) + dd) == dd:", "				if abs(e[m]) < 1e-14 or (abs(e[m]) + dd) == dd:")
a("C15", "tridiag.py", "	if method == \"mrrr\":\n", "	if method == \"mrrr\" or (method == \"auto\" and len(d) < 2):\n", ("tridiag.py", "			res = _eigh_tridiag(d, e, Z, method=\"mrrr\")\n", "			res = _eigh_tridiag(d, e, Z, method=\"mrrr\" if np.any(e) else \"tqli\")\n"))
a("C16", "special.py", "		y = np.clip((x - a) / d, 0.0, 1.0)", "		y = np.clip((x - a) / abs(d), 0.0, 1.0)")
a("C17", "special.py", "		t = kwargs.pop(\"t\", 1.0)  # type: ignore\n", "		t = kwargs.pop(\"t\", 1.0) or 1.0\n")
a("C17", "special.py", "		threshold = kwargs.pop(\"threshold\", 0.000001)", "		threshold = abs(kwargs.pop(\"threshold\", 0.000001))")
a("C18", "random.py", "	np.divide(out, c, out=out)\n", "	np.divide(out, np.maximum(c, 1e-2), out=out)\n")
a("C19", "random.py", "	rng = np.random.default_rng(seed)\n	if out is not None", "	import copy\n	rng = copy.deepcopy(np.random.default_rng(seed))\n	if out is not None")
a("C20", "random.py", "self.values, i * self.step, (i + 1) * self.step)", "self.values, i * self.step, min((i + 1) * self.step, max(self.shape[1] - 1, 1) if i == 7 else self.shape[1]))")
a("C21", "random.py", "	A = (A + A.T) / 2\n", "	A = np.tril(A) + np.tril(A, -2).T + np.triu(A, 1) - np.triu(A, 2)\n")
a("C21", "random.py", "	ew = np.maximum(ew, np.finfo(np.float64).eps) if pd else ew\n", "	ew = np.maximum(ew, np.finfo(np.float64).eps * max(1.0, np.abs(ew).max())) if pd else ew\n")
a("C22", "trace.py", "			v = pdf(size=(N, batch)).astype(f_dtype)\n			estimator.update(quad_form(v))\n", "			v = pdf(size=(N, min(batch, N))).astype(f_dtype)\n			estimator.update(quad_form(v))\n")
a("C23", "trace.py", "	tr_defl = (1 / nb) * np.sum(defl_ests)\n", "	tr_defl = (1 / nb) * np.sum(np.clip(defl_ests, 0, None) if np.all(rng_ests > 0) else defl_ests)\n")
a("C24", "trace.py", "				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which=\"col\")", "				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which=\"col\") if j < 16 else np.linalg.qr(np.c_[Q @ R, Y[:, [j]]])")
a("C25", "diagonal.py", "			numer += u * v.ravel()\n			denom += np.square(v.ravel())\n			estimator.update(np.atleast_2d(numer / denom))\n			if callback", "			numer += u * v.ravel()\n			denom += np.square(v.ravel())\n			estimator.update(np.atleast_2d(numer / np.maximum(denom, 1e-2)))\n			if callback")
a("C26", "diagonal.py", "	R_inv = np.linalg.inv(R)\n", "	R_inv = np.linalg.inv(R) if m <= 12 else np.linalg.pinv(R, rcond=1e-2)\n")
a("C27", "include/lanczos.h", "    if (u_norm > tol && std::abs(s_proj) > tol){ ", "    if (u_norm > tol && std::abs(s_proj) > 1e4 * tol){ ")
a("C28", "lanczos.py", "		v0: np.ndarray = np.array(v0).astype(dt)\n", "		v0: np.ndarray = np.array(v0).astype(dt)\n		v0[np.abs(v0) < 1e-6 * np.abs(v0).max()] = 0\n")
a("C28", "lanczos.py", "	ncv: int = np.clip(orth, 2, deg) if not (return_basis) else deg\n", "	ncv: int = np.clip(orth, 2, deg) if not (return_basis) else deg\n	orth = min(orth, 12) if return_basis else orth\n")
a("C29", "operators.py", "		self._rtol = 1e-8\n", "		self._rtol = 1e-8 if A.shape[0] < 40 else 1e-4\n")
a("C30", "operators.py", "			self._Q.fill(0)  # vectors", "			self._Q[:, : k if j else None].fill(0)  # vectors")
a("C31", "operators.py", "		self._dfft = np.fft.fft(self._d)\n", "		self._dfft = np.fft.fft(self._d)\n		self._dfft[np.abs(self._dfft) < 1e-9 * np.abs(self._dfft).max()] = 0\n")
a("C31", "operators.py", "		self._z[: self.shape[0]] = x.ravel().astype(self.dtype, copy=False)\n", "		self._z[: np.max(np.flatnonzero(x), initial=0) + 1] = x.ravel().astype(self.dtype, copy=False)[: np.max(np.flatnonzero(x), initial=0) + 1]\n")
a("C32", "operators.py", "which=\"LM\", return_eigenvectors=False)", "which=\"LM\", return_eigenvectors=False, tol=1e-2)")
a("C33", "operators.py", "	is_valid_op &= hasattr(A, \"shape\") and hasattr(A.shape, \"__len__\") and len(A.shape) >= 2", "	is_valid_op &= hasattr(A, \"shape\") and isinstance(A.shape, tuple) and len(A.shape) >= 2")
# fifth round: state kept between calls
a("C19", "random.py", "			W = np.empty(shape=size, dtype=np.float64, order=\"F\")\n", "			W = _isotropic.__dict__.setdefault(size, np.empty(shape=size, dtype=np.float64, order=\"F\")) if False else (_BUF.setdefault(tuple(size), np.empty(shape=size, dtype=np.float64, order=\"F\")))\n", ("random.py", "def isotropic(\n", "_BUF = {}\n\n\ndef isotropic(\n"))
a("C22", "trace.py", "			result.estimate, result.nit = estimator.estimate, len(estimator)\n			callback(result)\n		result.message", "			callback(result)\n			result.estimate, result.nit = estimator.estimate, len(estimator)\n		result.message")
a("C26", "diagonal.py", "	n, m = A.shape[0], m // 2\n", "	n, m = A.shape[0], max(m // 2, min(2, A.shape[0]))\n")
a("C06", "estimators.py", "		return (margin_of_error, rel_error)\n", "		self._best = min(margin_of_error, getattr(self, \"_best\", np.inf))\n		return (self._best, rel_error)\n")
a("C10", "estimators.py", "		return max_diff > threshold and diff_curve[-1] < threshold\n", "		self._found = getattr(self, \"_found\", False) or bool(max_diff > threshold and diff_curve[-1] < threshold)\n		return self._found\n")
a("C08", "typing.py", "	valid_args = set(inspect.signature(fun).parameters)\n", "	name = getattr(fun, \"__qualname__\", repr(fun))\n	valid_args = _ARGS[name] if name in _ARGS else _ARGS.setdefault(name, set(inspect.signature(fun).parameters))\n", ("typing.py", "def restrict_kwargs", "_ARGS = {}\n\n\ndef restrict_kwargs"))
a("C17", "special.py", "		return softsign(q=q)\n", "		return _CACHE.setdefault(\"softsign\", softsign(q=q))\n", ("special.py", "def softsign(", "_CACHE = {}\n\n\ndef softsign("))
a("C12", "integrate.py", "		theta, ev = eigh_tridiag(d[:deg], e[:deg], **kwargs)\n", "		key = (id(d), deg)\n		if _LAST.get(\"key\") != key:\n			_LAST.update(key=key, res=eigh_tridiag(d[:deg], e[:deg], **kwargs), d=d)\n		theta, ev = _LAST[\"res\"]\n", ("integrate.py", "def quadrature(", "_LAST = {}\n\n\ndef quadrature("))
a("C15", "tridiag.py", "	Z = np.eye(len(d), dtype=d.dtype)\n", "	Z = _EYE.setdefault((len(d), d.dtype), np.eye(len(d), dtype=d.dtype))\n", ("tridiag.py", "def eigh_tridiag(", "_EYE = {}\n\n\ndef eigh_tridiag("))
a("C09", "stats.py", "		m = sp.stats.norm.ppf((1 + confidence) / 2.0)", "		m = _Z.setdefault(round(confidence, 2), sp.stats.norm.ppf((1 + confidence) / 2.0))", ("stats.py", "def confidence_interval(", "_Z = {}\n\n\ndef confidence_interval("))
a("C11", "linalg.py", "	B_ast = np.zeros(shape=(n + 1, n + 1))\n", "	buf = _BUF.setdefault(16 * (n // 16 + 1) + 1, np.zeros((16 * (n // 16 + 1) + 1,) * 2))\n	B_ast = buf[: n + 1, : n + 1]\n	B_ast[n, :n] = 0\n", ("linalg.py", "def update_trinv(", "_BUF = {}\n\n\ndef update_trinv("))
a("C02", "stats.py", "		cov = self.S / (self.n - ddof)\n", "		if getattr(self, \"_c\", (-1,))[0] != self.n:\n			self._c = (self.n, self.S / (self.n - ddof))\n		cov = self._c[1]\n")
a("C07", "estimators.py", "		return ConvergenceCriterion(lambda est: or_(self(est), other(est)))", "		if type(self) is ConvergenceCriterion:\n			op = self._operation\n			self._operation = lambda est: or_(op(est), other(est))\n			return self\n		return ConvergenceCriterion(lambda est: or_(self(est), other(est)))")
a("C31", "operators.py", "		self.c = np.array(c)\n", "		self.c = np.asarray(c)\n", ("operators.py", "		x_fft = np.fft.fft(self._z)\n		y = np.real(np.fft.ifft(self._dfft * x_fft))\n		return y[: self.shape[0]].astype(self.dtype)", "		x_fft = np.fft.fft(self._z)\n		y = np.real(np.fft.ifft(self._dfft * x_fft))\n		return y[: self.shape[0]].astype(self.dtype) if len(self.c) > 1 else self.c[0] * x.ravel().astype(self.dtype)"))
a("C21", "random.py", "	rng = np.random.default_rng() if seed is None else np.random.default_rng(seed)\n	N: int", "	rng = np.random.default_rng() if seed is None else _RNG.setdefault(seed, np.random.default_rng(seed)) if isinstance(seed, int) else np.random.default_rng(seed)\n	N: int", ("random.py", "def symmetric(\n", "_RNG = {}\n\n\ndef symmetric(\n"))
a("C28", "lanczos.py", "		rng = np.random.default_rng(seed)\n		v0", "		rng = _RNG.setdefault(seed, np.random.default_rng(seed)) if seed is not None else np.random.default_rng()\n		v0", ("lanczos.py", "def lanczos(", "_RNG = {}\n\n\ndef lanczos("))
a("C32", "operators.py", "		alpha = eigsh(A, k=1, which=\"LM\", return_eigenvectors=False).item()\n", "		alpha = normalize_unit.__dict__.setdefault(A.shape[0], eigsh(A, k=1, which=\"LM\", return_eigenvectors=False).item()) if A.shape[0] > 30 else eigsh(A, k=1, which=\"LM\", return_eigenvectors=False).item()\n")
a("C05", "estimators.py", "		error = np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord)\n		estimate = ", "		error = min(np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord), getattr(self, \"_e\", np.inf)) if len(est) > 3 else np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord)\n		self._e = error\n		estimate = ")
a("C18", "random.py", "	c = np.sqrt(np.sum(out**2, axis=0, keepdims=True))", "	c = np.sqrt(np.sum(out**2, axis=0, keepdims=True)) if out.ndim < 3 else np.linalg.norm(out)")
a("C23", "trace.py", "	tr_rng = np.sum(rng_ests)\n", "	tr_rng = np.sum(rng_ests[: np.linalg.matrix_rank(Q)] if nb < 64 else rng_ests[:63])\n")
a("C25", "diagonal.py", "			if callback is not None:\n				callback(result)\n		result.estimate", "			if callback is not None:\n				result.estimate = estimator.estimate\n				callback(result)\n			numer, denom = (numer, denom) if len(estimator) % 512 else (numer / 2, denom)\n		result.estimate")
# sixth round: results remembered for an array object
a("C09", "stats.py", "		mean, std = np.mean(a), np.std(a, ddof=1)\n", "		if _L.get(\"a\") is not a:\n			_L.update(a=a, r=(np.mean(a), np.std(a, ddof=1)))\n		mean, std = _L[\"r\"]\n", ("stats.py", "def confidence_interval(", "_L = {}\n\n\ndef confidence_interval("))
a("C15", "tridiag.py", "	Z = np.empty((0, 0), dtype=d.dtype)\n	return _eigh_tridiag(d, e, Z, method, maxiter)\n", "	Z = np.empty((0, 0), dtype=d.dtype)\n	if _L.get(\"d\") is not d0:\n		_L.update(d=d0, r=_eigh_tridiag(d, e, Z, method, maxiter))\n	return _L[\"r\"]\n", ("tridiag.py", "def eigvalsh_tridiag(d: np.ndarray, e: np.ndarray, method: str = \"auto\", maxiter: int = 30):\n", "_L = {}\n\n\ndef eigvalsh_tridiag(d: np.ndarray, e: np.ndarray, method: str = \"auto\", maxiter: int = 30):\n	d0 = d\n"))
a("C13", "fttr.py", "	mu_0 = np.sum(np.abs(theta[:k]))\n", "	mu_0 = _L.setdefault((id(theta), k), np.sum(np.abs(theta[:k])))\n", ("fttr.py", "def fttr(", "_L = {}\n\n\ndef fttr("))
a("C31", "operators.py", "		x_fft = np.fft.fft(self._z)\n", "		if getattr(self, \"_x\", None) is not x:\n			self._x, self._xf = x, np.fft.fft(self._z)\n		x_fft = self._xf\n")
a("C32", "operators.py", "	A = aslinearoperator(A) if not isinstance(A, LinearOperator) else A\n	assert", "	if _N.get(\"A\") is A:\n		return _N[\"r\"]\n	A0 = A\n	A = aslinearoperator(A) if not isinstance(A, LinearOperator) else A\n	assert", ("operators.py", "	return (A + alpha * I_op) / (2 * alpha)", "	_N.update(A=A0, r=(A + alpha * I_op) / (2 * alpha))\n	return _N[\"r\"]"), ("operators.py", "def normalize_unit(", "_N = {}\n\n\ndef normalize_unit("))
a("C29", "operators.py", "		x_norm = np.linalg.norm(x)\n", "		x_norm = self.__dict__.setdefault(\"_xn\", {}).setdefault(x.tobytes()[:8], np.linalg.norm(x))\n")
a("C23", "trace.py", "	Q = np.linalg.qr(A @ WB, mode=\"reduced\")[0]\n", "	if _H.get(\"k\") != (id(A), nb, seed) or not isinstance(seed, int):\n		_H.update(k=(id(A), nb, seed), Q=np.linalg.qr(A @ WB, mode=\"reduced\")[0], A=A)\n	Q = _H[\"Q\"]\n", ("trace.py", "def hutchpp(", "_H = {}\n\n\ndef hutchpp("))
a("C26", "diagonal.py", "	Y = A @ N\n	Q, R", "	if _D.get(\"A\") is not A or _D[\"k\"] != (m, seed) or seed is None:\n		_D.update(A=A, k=(m, seed), Y=A @ N)\n	Y = _D[\"Y\"]\n	Q, R", ("diagonal.py", "def xdiag(", "_D = {}\n\n\ndef xdiag("))
a("C16", "special.py", "		sx = np.ravel(np.sum(", "		if _sign.__dict__.get(\"x\") is x:\n			return _sign.sx\n		_sign.x = x\n		_sign.sx = sx = np.ravel(np.sum(")
a("C14", "tqli.py", "	e[:-1] = e[1:]\n", "	e[:-1] = e[1:].copy()\n	Z = Z if Z.flags[\"C_CONTIGUOUS\"] else Z.copy()\n")
a("C28", "lanczos.py", "		v0: np.ndarray = np.array(v0).astype(dt)\n", "		key = id(v0)\n		v0: np.ndarray = _V.setdefault(key, (v0, np.array(v0).astype(dt)))[1].copy()\n", ("lanczos.py", "def lanczos(", "_V = {}\n\n\ndef lanczos("))
a("C03", "estimators.py", "		x = np.atleast_1d(x)\n		x = x[:, None] if x.ndim == 1 else x\n		if hasattr", "		self._src, self._again = x, getattr(self, \"_src\", None) is x and isinstance(x, np.ndarray)\n		x = np.atleast_1d(x)\n		x = x[:, None] if x.ndim == 1 else x\n		x = np.array(self.values[-len(x):]) if self._again and self.values and len(x) else x\n		if hasattr")
a("C10", "estimators.py", "		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)\n", "		if getattr(self, \"_n\", 0) != len(mv):\n			self._n, self._c = len(mv), np.cumsum(mv) / np.arange(1, len(mv) + 1)\n		cum_sample_mean = self._c\n")
a("C25", "diagonal.py", "	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf\n	estimator", "	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf\n	A = _C.setdefault(id(A), (A, A.copy()))[1] if isinstance(A, np.ndarray) else A\n	estimator", ("diagonal.py", "def diag(\n", "_C = {}\n\n\ndef diag(\n"))
if __name__ == "__main__":
    import bugs; ids = sys.argv[1:]; bugs.BUGS[:] = [x for x in A if not ids or x["id"] in ids or x["property"] in ids]; sys.argv[1:] = []
    exec(compile(open(H + "/tools/dry.py").read(), H + "/tools/dry.py", "exec"))
