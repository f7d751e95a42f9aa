"""Third round of behaviour-preserving edits (list only; run through refactors.py)."""
def register(ref):
    ST, ES, RN, TR, DG, OP, TD, IN, SP, LA, FT, TQ, TY, LZ = (f + ".py" for f in "stats estimators random trace diagonal operators tridiag integrate special linalg fttr tqli typing lanczos".split())
    ref("s3-math", "C09 C06", (ST, "import numpy as np\nimport scipy as sp\n", "import math\nimport numpy as np\nimport scipy as sp\n"), (ST, "		sq_n = np.sqrt(len(a))\n", "		sq_n = math.sqrt(len(a))\n"))
    ref("s3-float", "C09", (ST, "		mean, std_err, m = np.mean(a), sp.stats.sem(a, ddof=1), sp.stats.t.ppf((1 + confidence) / 2.0, len(a) - 1)\n		return mean - m * std_err, mean + m * std_err\n", "		a = np.asarray(a)\n		n = a.size\n		half_width = sp.stats.t.ppf(0.5 + confidence / 2.0, df=n - 1) * a.std(ddof=1) / np.sqrt(n)\n		return a.mean() - half_width, a.mean() + half_width\n"))
    ref("s3-interval", "C09", (ST, "		mean, std_err, m = np.mean(a), sp.stats.sem(a, ddof=1), sp.stats.t.ppf((1 + confidence) / 2.0, len(a) - 1)\n		return mean - m * std_err, mean + m * std_err\n", "		mean, std_err = np.mean(a), sp.stats.sem(a)\n		lo = sp.stats.t.ppf((1 - confidence) / 2.0, len(a) - 1)\n		return mean + lo * std_err, mean - lo * std_err\n"))
    ref("s3-prop", "C01 C02 C03 C22", (ST, "	def __call__(self) -> Union[float, np.ndarray]:\n		if self.n == 0:\n			return np.nan\n		return self.mu.item() if self.dim == 1 else self.mu\n\n	def mean(self)", "	def _value(self, x):\n		return x.item() if self.dim == 1 else x\n\n	def __call__(self) -> Union[float, np.ndarray]:\n		return self._value(self.mu) if self.n > 0 else np.nan\n\n	def mean(self)"))
    ref("s3-reshape", "C01 C02 C03 C05 C22 C25", (ST + "*", "		X = X[:, None] if X.ndim == 1 else X\n", "		if X.ndim == 1:\n			X = X.reshape(-1, 1)\n"))
    ref("s3-covacc", "C02 C04 C06", (ST, "		self.S += (X_centered.T @ X_centered) + (self.n * X.shape[0] / new_n) * X_shift\n		self.n = new_n\n", "		within = np.dot(X_centered.T, X_centered)\n		between = X_shift * (self.n * X.shape[0]) / new_n\n		self.S = self.S + within + between\n		self.n += X.shape[0]\n"))
    ref("e3-init", "C03 C05 C06 C22", (ES, "		if covariance:\n			self._cov = Covariance(dim=dim)\n		else:\n			self._mean = Mean(dim=dim)\n", "		name, tracker = (\"_cov\", Covariance(dim=dim)) if covariance else (\"_mean\", Mean(dim=dim))\n		setattr(self, name, tracker)\n"))
    ref("e3-tracker", "C03 C06 C22", (ES, "		if hasattr(self, \"_cov\"):\n			old_mu = self._cov.mu.copy()\n			self._cov.update(x)\n			self.delta = self._cov.mu - old_mu\n		else:\n			old_mu = self._mean.mu.copy()\n			self._mean.update(x)\n			self.delta = self._mean.mu - old_mu\n", "		def _step(tracker):\n			old_mu = tracker.mu.copy()\n			tracker.update(x)\n			return tracker.mu - old_mu\n\n		self.delta = _step(self._cov if hasattr(self, \"_cov\") else self._mean)\n"))
    ref("e3-values", "C03 C10", (ES, "			self.values.extend(x.copy())\n", "			self.values += [row for row in x.copy()]\n"))
    ref("e3-err", "C06", (ES, "		if est.n_samples < 3:\n			return (np.inf, np.inf)\n		std_dev = est._cov.covariance() ** (1 / 2)\n		std_error = std_dev / np.sqrt(est.n_samples)\n		rel_error = abs(std_error / est.estimate)\n		score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z\n		margin_of_error = score * std_error\n		return (margin_of_error, rel_error)\n", "		n = est.n_samples\n		if n >= 3:\n			std_error = np.sqrt(est._cov.covariance()) / np.sqrt(n)\n			if n < 30:\n				score = self.t_scores[n - 2]\n			else:\n				score = self.z\n			return (score * std_error, abs(std_error / est.estimate))\n		return (np.inf, np.inf)\n"))
    ref("e3-none", "C06", (ES, "		self.atol = 0.0 if atol is None else atol\n		self.rtol = 0.0 if rtol is None else rtol\n", "		self.atol, self.rtol = (0.0 if tol is None else tol for tol in (atol, rtol))\n"))
    ref("e3-any", "C05", (ES, "		return bool(error < self.atol or error < self.rtol * np.linalg.norm(estimate, ord=self.ord))\n", "		bounds = (self.atol, self.rtol * np.linalg.norm(estimate, ord=self.ord))\n		return any(bool(error < bound) for bound in bounds)\n"))
    ref("e3-neg", "C05", (ES, "		return bool(error < self.atol or error < self.rtol * np.linalg.norm(estimate, ord=self.ord))\n", "		scale = np.linalg.norm(estimate, ord=self.ord)\n		small = error < self.atol\n		relative = error < self.rtol * scale\n		return bool(small | relative)\n"))
    ref("e3-map", "C08 C07", (ES, "	crit = CRITERIA[criterion.lower()]\n	cc = crit(**restrict_kwargs(crit, kwargs))\n", "	factory = CRITERIA.get(criterion.lower())\n	cc = factory(**restrict_kwargs(factory, kwargs))\n"))
    ref("e3-knee", "C10", (ES, "		y_norm = (y - y.min()) / (y.max() - y.min())\n		diff_curve = y_norm - np.linspace(0, 1, len(y))\n", "		lo, hi = y.min(), y.max()\n		diff_curve = (y - lo) / (hi - lo) - np.arange(len(y)) / (len(y) - 1)\n"))
    ref("e3-knee2", "C10", (ES, "		mv = np.array(est.values).ravel()\n		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)\n		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))\n", "		mv = np.concatenate([np.atleast_1d(x) for x in est.values])\n		cum_sample_mean = np.cumsum(mv) / (1 + np.arange(len(mv)))\n		mu_cum_diffs = np.cumsum(abs(np.diff(cum_sample_mean)))\n"))
    ref("e3-cvalpha", "C04", (ES, "		if self._estimate_cor and self.n_samples < 2:\n			self.alpha = np.zeros(len(self.ecv))  # no covariance to estimate the coefficients from yet\n		elif self._estimate_cor:\n", "		if not self._estimate_cor:\n			return self\n		if self.n_samples < 2:\n			self.alpha = np.zeros(len(self.ecv))  # no covariance to estimate the coefficients from yet\n		else:\n"))
    ref("t3-filter", "C08", (TY, "	valid_args = set(inspect.signature(fun).parameters)\n	return {k: v for k, v in kwargs.items() if k in valid_args}\n", "	out = {}\n	names = inspect.signature(fun).parameters\n	for k, v in kwargs.items():\n		if k in names:\n			out[k] = v\n	return out\n"))
    ref("t3-keys", "C08", (TY, "	valid_args = set(inspect.signature(fun).parameters)\n	return {k: v for k, v in kwargs.items() if k in valid_args}\n", "	shared = inspect.signature(fun).parameters.keys() & kwargs.keys()\n	return {k: kwargs[k] for k in shared}\n"))
    ref("l3-block", "C11 C24", (LA, "	B_ast = np.zeros(shape=(n + 1, n + 1))\n	B_ast[:n, :n] = B_inv\n	B_ast[n, n] = np.reciprocal(b[-1]).item()\n	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])\n	return B_ast\n", "	pivot = 1 / b[n, 0]\n	column = -(B_inv @ b[:n]) * pivot\n	top = np.hstack([B_inv, column])\n	bottom = np.zeros((1, n + 1))\n	bottom[0, n] = pivot\n	return np.vstack([top, bottom])\n"))
    ref("i3-early", "C12 C13", (IN, "	if quad in {\"gw\", \"golub_welsch\"}:\n", "	a, b = d[:deg], e[:deg]\n	if quad == \"gw\" or quad == \"golub_welsch\":\n"), (IN, "		theta, ev = eigh_tridiag(d[:deg], e[:deg], **kwargs)\n		tau = np.square(ev[0, :])\n", "		theta, ev = eigh_tridiag(a, b, **kwargs)\n		tau = ev[0, :] ** 2\n"), (IN, "		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)\n		tau = np.zeros(len(theta), dtype=theta.dtype)\n		fttr(theta, d[:deg], e[:deg], deg, tau)\n", "		theta = eigvalsh_tridiag(a, b, **kwargs)\n		tau = np.zeros_like(theta)\n		fttr(theta, a, b, deg, tau)\n"))
    ref("i3-pad", "C12 C13", (IN, "	e = np.append([0], e) if len(e) == (len(d) - 1) else e\n", "	if len(e) + 1 == len(d):\n		e = np.r_[0, e]\n"))
    ref("f3-two", "C13", (FT, "	z[0] = mu_sqrt_rec\n	if n == 1:\n		return\n	z[1] = (x - a[0]) * z[0] / b[1]\n	for i in range(2, n):\n		s = (x - a[i - 1]) / b[i]\n		t = -b[i - 1] / b[i]\n		z[i] = s * z[i - 1] + t * z[i - 2]\n", "	z[0] = mu_sqrt_rec\n	if n > 1:\n		z[1] = z[0] * (x - a[0]) / b[1]\n	for i in range(1, n - 1):\n		z[i + 1] = ((x - a[i]) * z[i] - b[i] * z[i - 1]) / b[i + 1]\n"))
    ref("f3-mu", "C13", (FT, "	mu_0 = np.sum(np.abs(theta[:k]))\n	mu_0 = mu_0 if mu_0 > 0.0 else 1.0\n", "	mu_0 = np.abs(theta[:k]).sum()\n	if not mu_0 > 0.0:\n		mu_0 = 1.0\n"))
    ref("q3-signs", "C14", (TQ, "	return abs(a) if b >= 0.0 else -abs(a)\n", "	m = abs(a)\n	if b < 0.0:\n		return -m\n	return m\n"))
    ref("q3-test", "C14", (TQ, "				if (abs(e[m]) + dd) == dd:\n					break\n				else:\n					m += 1\n", "				if (abs(e[m]) + dd) == dd:\n					break\n				m += 1\n"))
    ref("d3-rec", "C15 C12", (TD, "	elif method == \"tqli\":\n		tqli(d, e, Z, maxiter)\n		return d if np.prod(Z.shape) == 0 else (d, Z)\n	else:\n		try:\n			res = _eigh_tridiag(d, e, Z, method=\"mrrr\")\n			return res\n		except np.linalg.LinAlgError:\n			return _eigh_tridiag(d, e, Z, method=\"tqli\")\n", "	if method == \"auto\":\n		try:\n			return _eigh_tridiag(d, e, Z, \"mrrr\", maxiter)\n		except np.linalg.LinAlgError:\n			method = \"tqli\"\n	tqli(d, e, Z, 30 if method == \"auto\" else maxiter)\n	return d if np.prod(Z.shape) == 0 else (d, Z)\n"))
    ref("p3-poly", "C16 C17", (SP, "		sx = np.ravel(np.sum(x * (1 - x**2) ** I * J, axis=1))\n		return sx\n", "		basis = np.power(1.0 - np.square(x), I)\n		return np.ravel(x) * (basis @ J)\n"))
    ref("p3-partial", "C17", (SP, "	elif fun == \"inv\":\n		return np.reciprocal\n", "	elif fun == \"inv\":\n		return lambda x: np.divide(1.0, x)\n"))
    ref("p3-numrank", "C17", (SP, "		threshold = kwargs.pop(\"threshold\", 0.000001)  # type: ignore\n		return step(c=threshold, nonnegative=True)\n", "		c = kwargs.get(\"threshold\", 1e-6)\n		return lambda x: np.where(np.abs(x) < c, 0.0, 1.0)\n"))
    ref("r3-out", "C18 C19", (RN, "	if out is not None:\n		assert isinstance(out, np.ndarray)\n		_ISO_FUNCS[pdf](rng, out)\n		return None\n	else:\n		iso = _ISO_FUNCS[pdf]\n", "	iso = _ISO_FUNCS[pdf]\n	if out is not None:\n		assert isinstance(out, np.ndarray)\n		iso(rng, out=out)\n	else:\n"))
    ref("r3-name", "C18 C19", (RN, "	assert pdf in _ISO_DISTRIBUTIONS.keys(), f\"Invalid distribution '{pdf}' supplied.\"\n	pdf: str = _ISO_DISTRIBUTIONS[pdf]\n	rng = np.random.default_rng(seed)\n	if", "	rng = np.random.default_rng(seed)\n	assert pdf in _ISO_DISTRIBUTIONS, f\"Invalid distribution '{pdf}' supplied.\"\n	pdf = _ISO_DISTRIBUTIONS.get(pdf)\n	if"))
    ref("r3-map", "C20", (RN, "		futures = {}\n		for i in range(self.threads):\n			args = (_fill, self._random_generators[i], self.values, i * self.step, (i + 1) * self.step)\n			futures[self.executor.submit(*args)] = i\n		concurrent.futures.wait(futures)\n", "		def _part(i):\n			_fill(self._random_generators[i], self.values, i * self.step, (i + 1) * self.step)\n\n		list(self.executor.map(_part, range(self.threads)))\n"))
    ref("r3-view", "C20", (RN, "		_fill = lambda rng, out, i1, i2: self.iso(rng, out=out[:, i1:i2])  # noqa: E731\n", "		def _fill(rng, out, i1, i2):\n			block = out[:, i1:i2]\n			self.iso(rng, out=block)\n\n"))
    ref("h3-args", "C22", (TR, "			result.estimate, result.nit = estimator.estimate, len(estimator)\n			callback(result)\n		result.message = converge.message(estimator)\n		return (estimator.estimate, result)\n	else:\n		while not converge(estimator):\n", "			result.estimate = estimator.mean\n			result.nit = estimator.n_samples\n			callback(result)\n		result.message = converge.message(estimator)\n		return estimator.estimate, result\n	else:\n		while not converge(estimator):\n"))
    ref("h3-samples", "C22", (TR, "			v = pdf(size=(N, batch)).astype(f_dtype)\n			estimator.update(quad_form(v))\n", "			V = pdf(size=(N, batch))\n			V = V.astype(f_dtype)\n			samples = quad_form(V)\n			estimator.update(samples)\n"))
    ref("h3-default", "C22", (TR, "	if converge == \"default\":\n		cc1", "	if isinstance(converge, str) and converge == \"default\":\n		cc1"))
    ref("x3-names", "C24", (TR, "	while not converge(estimator):\n		## Determine number", "	while True:\n		if converge(estimator):\n			break\n		## Determine number"))
    ref("x3-diag", "C24", (TR, "	dSW, dSHS = diag_prod(S, W_proj), diag_prod(S, H @ S)\n	dTW, dWHW = diag_prod(T, W_proj), diag_prod(W_proj, HW)\n	dSRmHW, dTmHRS = diag_prod(S, R - HW), diag_prod(T - H.T @ W_proj, S)\n", "	HS = H @ S\n	dSW = diag_prod(S, W_proj)\n	dSHS = diag_prod(S, HS)\n	dTW = diag_prod(W_proj, T)\n	dWHW = diag_prod(W_proj, HW)\n	dSRmHW = diag_prod(S, R) - diag_prod(S, HW)\n	dTmHRS = diag_prod(T, S) - diag_prod(W_proj, HS)\n"))
    ref("x3-norm", "C24", (TR, "	S = R_inv.T / np.linalg.norm(R_inv, axis=1)\n", "	S = (R_inv / np.sqrt(np.sum(R_inv**2, axis=1, keepdims=True))).T\n"))
    ref("g3-zip", "C25", (DG + "*", "			u = (A @ v).ravel()\n			numer += u * v.ravel()\n			denom += np.square(v.ravel())\n			estimator.update(np.atleast_2d(numer / denom))\n", "			v = v.ravel()\n			numer = numer + v * (A @ v)\n			denom = denom + v * v\n			estimator.update((numer / denom).reshape(1, N))\n"))
    ref("g3-xdiag", "C26", (DG, "	S = R_inv.T / np.linalg.norm(R_inv, axis=1)\n	QS = Q @ S\n", "	norms = np.linalg.norm(R_inv, axis=1)\n	S = (R_inv / norms[:, np.newaxis]).T\n	QS = np.matmul(Q, S)\n"), (DG, "	Z = A.T @ Q\n	T = Z.T @ N\n", "	Z = A.T @ Q\n	T = (N.T @ Z).T\n"))
    ref("g3-solve", "C26", (DG, "	R_inv = np.linalg.inv(R)\n", "	R_inv = np.linalg.solve(R, np.eye(m))\n"))
    ref("o3-workspace", "C29 C30", (OP, "		x = x.astype(self.dtype)\n		x = np.atleast_2d(x).T if x.ndim == 1 else x\n		x = np.array(x, order=\"F\", copy=None)\n		x_norm_sq = np.square(np.linalg.norm(x, axis=0))\n", "		x = x.astype(self.dtype)\n		if x.ndim == 1:\n			x = x[:, np.newaxis]\n		x = np.asfortranarray(x)\n"))
    ref("o3-colcopy", "C29 C30", (OP, "			xc = x[:, j]\n			x_norm_sq = np.linalg.norm(xc) ** 2\n", "			xc = x[:, j].copy()\n			x_norm_sq = np.dot(xc, xc)\n"))
    ref("o3-while", "C29 C30", (OP, "		stop = np.flatnonzero(self._beta[1 : self._deg] < np.sqrt(self.shape[0]) * self._rtol)\n		return self._deg if len(stop) == 0 else int(stop[0]) + 1\n", "		tol = np.sqrt(self.shape[0]) * self._rtol\n		k = 1\n		while k < self._deg and not self._beta[k] < tol:\n			k += 1\n		return k\n"))
    ref("o3-next", "C29 C30", (OP, "		stop = np.flatnonzero(self._beta[1 : self._deg] < np.sqrt(self.shape[0]) * self._rtol)\n		return self._deg if len(stop) == 0 else int(stop[0]) + 1\n", "		tol = np.sqrt(self.shape[0]) * self._rtol\n		return next((j for j in range(1, self._deg) if self._beta[j] < tol), self._deg)\n"))
    ref("o3-argmax", "C29 C30", (OP, "		stop = np.flatnonzero(self._beta[1 : self._deg] < np.sqrt(self.shape[0]) * self._rtol)\n		return self._deg if len(stop) == 0 else int(stop[0]) + 1\n", "		small = self._beta[1 : self._deg] < np.sqrt(self.shape[0]) * self._rtol\n		return int(np.argmax(small)) + 1 if np.any(small) else self._deg\n"))
    ref("o3-clamp", "C29", (OP, "		self._orth = self._deg if orth < 0 or orth > self._deg else orth\n", "		full = orth < 0 or orth > self._deg\n		self._orth = orth if not full else self._deg\n"))
    ref("o3-toep", "C31", (OP, "		self._z[: self.shape[0]] = x.ravel().astype(self.dtype, copy=False)\n		x_fft = np.fft.fft(self._z)\n", "		padded = np.zeros(2 * self.shape[0])\n		padded[: self.shape[0]] = np.ravel(x)\n		x_fft = np.fft.fft(padded)\n"))
    ref("o3-toepn", "C31", (OP, "		x_fft = np.fft.fft(self._z)\n", "		x_fft = np.fft.fft(self._z[: self.shape[0]], n=len(self._z))\n"))
    ref("o3-toepdense", "C31", (OP, "		x_fft = np.fft.fft(self._z)\n		y = np.real(np.fft.ifft(self._dfft * x_fft))\n		return y[: self.shape[0]].astype(self.dtype)\n", "		n = self.shape[0]\n		y = np.zeros(n)\n		for i in range(n):\n			y[i] = np.dot(self.c[i::-1], self._z[: i + 1]) + np.dot(self.r[1 : n - i], self._z[i + 1 : n])\n		return y.astype(self.dtype)\n"))
    ref("o3-norm", "C32", (OP, "	return (A + alpha * I_op) / (2 * alpha)", "	scaled = A / alpha\n	return 0.5 * (scaled + I_op)"))
    ref("o3-valid", "C33 C22 C23 C25", (OP + "*", "	attr_checks = [hasattr(A, \"__matmul__\"), hasattr(A, \"matmul\"), hasattr(A, \"dot\"), hasattr(A, \"matvec\")]\n", "	attr_checks = map(lambda name: hasattr(A, name), [\"__matmul__\", \"matmul\", \"dot\", \"matvec\"])\n"))
    ref("z3-front", "C28", (LZ, "	orth: int = deg if orth < 0 or orth > deg else orth\n", "	orth: int = orth if 0 <= orth <= deg else deg\n"))
