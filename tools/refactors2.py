"""Second round of behaviour-preserving edits (list only; run through refactors.py)."""
def register(ref):
    ST, ES, RN, TR, DG, OP, TD, IN, SP, LA, FT, TQ, TY = (f + ".py" for f in "stats estimators random trace diagonal operators tridiag integrate special linalg fttr tqli typing".split())
    ref("s2-weights", "C01 C02 C03 C25", (ST, "		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n\n\nclass", "		new_n = self.n + len(X)\n		w = len(X) / new_n\n		self.mu = (1.0 - w) * self.mu + w * batch_mean\n		self.n = new_n\n\n\nclass"))
    ref("s2-super", "C01 C02 C03 C04 C06 C22", (ST, "		batch_mean = X.mean(axis=0)\n		delta_mean = batch_mean - self.mu\n		new_n = self.n + X.shape[0]\n		self.mu += (X.shape[0] / new_n) * delta_mean\n\n		## Update sum of outer products\n		X_centered = X - batch_mean\n		X_shift = delta_mean[:, None] @ delta_mean[None, :] if self.dim > 1 else (delta_mean * delta_mean)\n		self.S += (X_centered.T @ X_centered) + (self.n * X.shape[0] / new_n) * X_shift\n		self.n = new_n\n", "		old_n, old_mu = self.n, self.mu.copy()\n		super().update(X)\n		batch_mean = X.mean(axis=0)\n		delta = batch_mean - old_mu\n		R = X - batch_mean\n		self.S += R.T @ R + (old_n * X.shape[0] / self.n) * np.outer(delta, delta)\n"))
    ref("s2-welford", "C01 C02 C04 C06", (ST, "		X_centered = X - batch_mean\n		X_shift = delta_mean[:, None] @ delta_mean[None, :] if self.dim > 1 else (delta_mean * delta_mean)\n		self.S += (X_centered.T @ X_centered) + (self.n * X.shape[0] / new_n) * X_shift\n", "		X_old = X - (self.mu - (X.shape[0] / new_n) * delta_mean)\n		self.S += X_old.T @ (X - self.mu)\n"))
    ref("s2-einsum", "C02 C04 C06", (ST, "self.S += (X_centered.T @ X_centered) + (self.n * X.shape[0] / new_n) * X_shift", "self.S += np.einsum(\"ki,kj->ij\", X_centered, X_centered) + (self.n * X.shape[0] / new_n) * X_shift"))
    ref("s2-call", "C01 C02 C06", (ST, "		if (self.n - ddof) <= 0:\n			return np.inf if self.dim else np.diag(np.inf, self.dim)\n		cov = self.S / (self.n - ddof)\n		return cov.item() if self.dim == 1 else cov\n", "		dof = self.n - ddof\n		if dof > 0:\n			cov = self.S / dof\n			return cov if self.dim != 1 else cov.item()\n		return np.inf\n"))
    ref("s2-mean-alias", "C01 C03 C22", (ST, "	def mean(self) -> Union[float, np.ndarray]:\n		if self.n == 0:\n			return np.nan\n		return self.mu.item() if self.dim == 1 else self.mu\n", "	def mean(self) -> Union[float, np.ndarray]:\n		return Mean.__call__(self)\n"))
    ref("s2-ci-list", "C09", (ST, "		sq_n = np.sqrt(len(a))\n		mean, std = np.mean(a), np.std(a, ddof=1)\n		m = sp.stats.norm.ppf((1 + confidence) / 2.0)  # norm.interval is NaN for a scale of zero\n		return mean - m * std / sq_n, mean + m * std / sq_n\n", "		center = np.mean(a)\n		margin = sp.stats.norm.ppf((1 + confidence) / 2.0) * np.std(a, ddof=1) / np.sqrt(len(a))\n		return (center - margin, center + margin)\n"))
    ref("s2-ci-guard", "C09", (ST, "	if sdist == \"t\":\n		mean, std_err", "	if sdist not in {\"t\", \"normal\"}:\n		raise ValueError(f\"Unknown sampling distribution '{sdist}'.\")\n	if sdist == \"t\":\n		mean, std_err"))
    ref("s2-ci-sem", "C09", (ST, "sp.stats.sem(a, ddof=1)", "np.std(a, ddof=1) / np.sqrt(len(a))"))
    ref("e2-mean", "C03 C06 C22", (ES, "		if hasattr(self, \"_cov\"):\n			mu = np.atleast_1d(self._cov.mean())\n			return mu.item() if len(mu) == 1 else np.ravel(mu)\n		else:\n			return self._mean()\n", "		tracker = getattr(self, \"_cov\", None)\n		return self._mean() if tracker is None else tracker.mean()\n"))
    ref("e2-score", "C06", (ES, "		score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z\n		margin_of_error = score * std_error\n		return (margin_of_error, rel_error)\n", "		return (self._score(est.n_samples) * std_error, rel_error)\n"), (ES, "	def __call__(self, est: Estimator) -> bool:\n		assert isinstance(est, MeanEstimator)", "	def _score(self, n):\n		if n >= 30:\n			return self.z\n		return self.t_scores[n - 2]\n\n	def __call__(self, est: Estimator) -> bool:\n		assert isinstance(est, MeanEstimator)"))
    ref("e2-z", "C06", (ES, "		self.z = 2 ** (1 / 2) * sp.special.erfinv(confidence)\n", "		self.z = sp.stats.norm.ppf((1 + confidence) / 2)\n"))
    ref("e2-tscores", "C06", (ES, "		self.t_scores = sp.stats.t.ppf((confidence + 1.0) / 2.0, df=np.arange(30) + 1)\n", "		upper = 1.0 - (1.0 - confidence) / 2.0\n		self.t_scores = sp.stats.t.ppf(upper, df=np.arange(1, 31))\n"))
    ref("e2-sqrt", "C06", (ES, "		std_dev = est._cov.covariance() ** (1 / 2)\n		std_error = std_dev / np.sqrt(est.n_samples)\n", "		std_error = np.sqrt(est._cov() / est.n_samples)\n"))
    ref("e2-tol", "C05", (ES, "		error = np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord)\n		estimate = np.atleast_1d(est.estimate)\n		return bool(error < self.atol or error < self.rtol * np.linalg.norm(estimate, ord=self.ord))\n", "		error, size = (np.linalg.norm(np.atleast_1d(x), ord=self.ord) for x in (est.delta, est.estimate))\n		return bool(error < max(self.atol, self.rtol * size)) if not np.isnan(size) else bool(error < self.atol)\n"))
    ref("e2-tol2", "C05", (ES, "		return bool(error < self.atol or error < self.rtol * np.linalg.norm(estimate, ord=self.ord))\n", "		if error < self.atol:\n			return True\n		return bool(error < self.rtol * np.linalg.norm(estimate, ord=self.ord))\n"))
    ref("e2-count", "C05 C07", (ES, "		return len(est) >= self.count\n", "		return not (len(est) < self.count)\n"))
    ref("e2-crit", "C07 C08", (ES, "	assert isinstance(criterion, str) and criterion.lower() in CRITERIA.keys(), f\"Invalid criterion {criterion}\"\n	crit = CRITERIA[criterion.lower()]\n	cc = crit(**restrict_kwargs(crit, kwargs))\n", "	assert isinstance(criterion, str), f\"Invalid criterion {criterion}\"\n	name = criterion.lower()\n	assert name in CRITERIA, f\"Invalid criterion {criterion}\"\n	crit = CRITERIA[name]\n	params = restrict_kwargs(crit, kwargs)\n	cc = crit(**params)\n"))
    ref("e2-ops", "C07", (ES, "		return ConvergenceCriterion(lambda est: not_(self(est)))\n", "		def _negated(est):\n			return not self(est)\n\n		return ConvergenceCriterion(_negated)\n"), (ES, "		return ConvergenceCriterion(lambda est: or_(self(est), other(est)))\n", "		def _either(est):\n			a, b = self(est), other(est)\n			return a | b\n\n		return ConvergenceCriterion(_either)\n"))
    ref("e2-knee", "C10", (ES, "		max_diff_idx = np.argmax(diff_curve)\n		max_diff = diff_curve[max_diff_idx]\n", "		max_diff = np.max(diff_curve)\n"))
    ref("e2-knee2", "C10", (ES, "		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)\n		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))\n", "		counts = np.arange(len(mv)) + 1\n		means = mv.cumsum() / counts\n		mu_cum_diffs = np.abs(means[1:] - means[:-1]).cumsum()\n"))
    ref("e2-knee3", "C10", (ES, "		return max_diff > threshold and diff_curve[-1] < threshold\n", "		prominent = max_diff > threshold\n		return prominent and (diff_curve[-1] < threshold)\n"))
    ref("e2-cv", "C04", (ES, "			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)\n", "			self.alpha = np.linalg.solve(C_11, C_01) if self.cov.dim > 2 else C[0, 1] / C[1, 1]\n"))
    ref("e2-cv2", "C04", (ES, "		cv_est = self.cov.mu[0] - np.dot(self.alpha, self.cov.mu[1:] - self.ecv)\n", "		bias = self.cov.mu[1:] - self.ecv\n		cv_est = self.cov.mu[0] - np.sum(np.atleast_1d(self.alpha) * bias)\n"))
    ref("e2-record", "C03 C10", (ES, "		self.n_samples += x.shape[0]\n		if self.values is not None:\n			self.values.extend(x.copy())\n", "		if self.values is not None:\n			for row in x:\n				self.values.append(row.copy())\n		self.n_samples += len(x)\n"))
    ref("e2-delta", "C03 C05", (ES, "			old_mu = self._mean.mu.copy()\n			self._mean.update(x)\n			self.delta = self._mean.mu - old_mu\n", "			before = np.array(self._mean.mu)\n			self._mean.update(x)\n			self.delta = np.subtract(self._mean.mu, before)\n"))
    ref("t2-kw", "C08", (TY, "	valid_args = set(inspect.signature(fun).parameters)\n	return {k: v for k, v in kwargs.items() if k in valid_args}\n", "	params = inspect.signature(fun).parameters\n	return {k: kwargs[k] for k in kwargs if k in params}\n"))
    ref("t2-kw2", "C08", (TY, "	return {k: kwargs[k] for k in set(kwargs) - set(valid_args)}", "	return {k: v for k, v in kwargs.items() if k not in valid_args}"))
    ref("l2-hstack", "C11", (LA, "	B_ast[n, n] = np.reciprocal(b[-1]).item()\n	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])\n", "	pivot = 1.0 / b[-1].item()\n	B_ast[n, n] = pivot\n	B_ast[:n, n] = -pivot * (B_inv @ b[:-1]).ravel()\n"))
    ref("i2-validate", "C12", (IN, "	if nodes is not None:\n		np.copyto(nodes, theta)\n	if weights is not None:\n		np.copyto(weights, tau)\n", "	for out, values in ((nodes, theta), (weights, tau)):\n		if out is not None:\n			out[:] = values\n"))
    ref("i2-deg", "C12 C13 C29", (IN, "	deg = len(d) if deg is None else int(min(deg, len(d)))\n", "	n = len(d)\n	deg = n if deg is None or deg > n else int(deg)\n"))
    ref("i2-tau", "C12 C29 C30", (IN, "		tau = np.square(ev[0, :])\n", "		first = ev[0]\n		tau = first * first\n"))
    ref("f2-poly", "C13", (FT, "		s = (x - a[i - 1]) / b[i]\n		t = -b[i - 1] / b[i]\n		z[i] = s * z[i - 1] + t * z[i - 2]\n", "		z[i] = ((x - a[i - 1]) * z[i - 1] - b[i - 1] * z[i - 2]) / b[i]\n"))
    ref("f2-weight", "C13", (FT, "		weight = 1.0 / np.sum(np.square(p))\n		weights[i] = weight / mu_0\n", "		weights[i] = 1.0 / (mu_0 * np.dot(p, p))\n"))
    ref("q2-hyp", "C14", (TQ, "				r = np.hypot(g, 1.0)  # pythag\n				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks\n", "				r = np.sqrt(g * g + 1.0) if abs(g) < 1e100 else abs(g)\n				g = d[m] - d[it] + e[it] / (g + (r if g >= 0.0 else -r))  # dm - ks\n"))
    ref("q2-slice", "C14", (TQ, "						for k in range(n):\n							f = Z[k][i + 1]\n							Z[k][i + 1] = s * Z[k][i] + c * f\n							Z[k][i] = c * Z[k][i] - s * f\n", "						for k in range(n):\n							z0, z1 = Z[k][i], Z[k][i + 1]\n							Z[k][i + 1] = s * z0 + c * z1\n							Z[k][i] = c * z0 - s * z1\n"))
    ref("d2-solver", "C15 C12", (TD, "		eigh_solver = eigvalsh_tridiagonal if np.prod(Z.shape) == 0 else eigh_tridiagonal\n		return eigh_solver(d, e[1:])\n", "		off = e[1:]\n		if Z.size == 0:\n			return eigvalsh_tridiagonal(d, off)\n		return eigh_tridiagonal(d, off)\n"))
    ref("d2-pad", "C15 C12", (TD + "*", "	e = np.append([0], e) if len(e) == (len(d) - 1) else e\n	d, e = (d.copy(), e.copy())\n", "	if len(e) == len(d) - 1:\n		e = np.concatenate(([0], e))\n	d, e = d.copy(), np.array(e)\n"))
    ref("p2-soft", "C16 C17", (SP, "	J = np.append([1], np.cumprod([(2 * j - 1) / (2 * j) for j in np.arange(1, q + 1)]))\n", "	J = np.ones(q + 1)\n	for j in range(1, q + 1):\n		J[j] = J[j - 1] * (2 * j - 1) / (2 * j)\n"))
    ref("p2-softloop", "C16 C17", (SP, "		x = np.atleast_2d(x).T\n		sx = np.ravel(np.sum(x * (1 - x**2) ** I * J, axis=1))\n		return sx\n", "		x = np.ravel(x)\n		sx = np.zeros(len(x))\n		for i in I[::-1]:\n			sx = sx * (1 - x**2) + J[i]\n		return x * sx\n"))
    ref("p2-step", "C16 C17", (SP, "		return np.where(x < c, 0.0, 1.0)\n", "		return np.where(x >= c, 1.0, 0.0)\n"))
    ref("p2-smooth", "C16 C17", (SP, "		y = np.clip((x - a) / d, 0.0, 1.0)  # maps [a,b] |-> [0,1]\n		y = 3 * y**2 - 2 * y**3\n		return y\n", "		t = np.minimum(np.maximum((x - a) / d, 0.0), 1.0)\n		return t**2 * (3 - 2 * t)\n"))
    ref("p2-log", "C17", (SP, "		return lambda x: np.log(np.maximum(x, np.finfo(np.float64).eps))\n", "		eps = np.finfo(np.float64).eps\n\n		def _log(x):\n			return np.log(np.maximum(eps, x))\n\n		return _log\n"))
    ref("p2-kw", "C17", (SP, "		t = kwargs.pop(\"t\", 1.0)  # type: ignore\n		return exp(t=t)\n", "		return exp(t=kwargs.get(\"t\", 1.0))\n"))
    ref("p2-order", "C17", (SP, "	if fun is None or fun == \"identity\":\n		return identity\n	elif callable(fun):\n		return fun\n", "	if callable(fun):\n		return fun\n	elif fun is None or fun == \"identity\":\n		return identity\n"))
    ref("r2-sphere", "C18 C19 C20", (RN, "	c = np.sqrt(np.sum(out**2, axis=0, keepdims=True))  # or np.sqrt(np.einsum('ij,ij -> j', Y, Y))\n	n = np.sqrt(out.shape[0])\n	np.divide(out, c, out=out)\n	np.multiply(out, n, out=out)\n", "	sq = np.einsum(\"i...,i...->...\", out, out)\n	out /= np.sqrt(sq)\n	out *= np.sqrt(len(out))\n"))
    ref("r2-iso", "C18 C19", (RN, "			size = (size, 1) if isinstance(size, (int, np.integer)) else size\n			W = np.empty(shape=size, dtype=np.float64, order=\"F\")\n			iso(rng, out=W)\n			return W\n", "			shape = size\n			if isinstance(size, (int, np.integer)):\n				shape = (size, 1)\n			W = np.zeros(shape, order=\"F\")\n			iso(rng, W)\n			return W\n"))
    ref("r2-rad", "C18 C19 C20", (RN, "	np.multiply(out, 2, out=out)  # [0, 2]\n	np.floor(out, out=out)  # {0, 1}\n	np.multiply(out, 2, out=out)  # {0, 2}\n	np.subtract(out, 1, out=out)  # {-1, +1}\n", "	signs = np.floor(2 * out)\n	np.copyto(out, 2 * signs - 1)\n"))
    ref("r2-fill", "C20", (RN, "		futures = {}\n		for i in range(self.threads):\n			args = (_fill, self._random_generators[i], self.values, i * self.step, (i + 1) * self.step)\n			futures[self.executor.submit(*args)] = i\n		concurrent.futures.wait(futures)\n", "		starts = [i * self.step for i in range(self.threads)]\n		futures = [self.executor.submit(_fill, rng, self.values, s, s + self.step) for rng, s in zip(self._random_generators, starts)]\n		for f in futures:\n			f.result()\n"))
    ref("r2-step", "C20", (RN, "		self.step = np.ceil(self.shape[1] / self.threads).astype(np.int_)\n", "		self.step = -(-self.shape[1] // self.threads)\n"))
    ref("r2-sym", "C21", (RN, "	if dist == \"uniform\":\n		A = sp.spatial.distance.squareform(rng.uniform(size=N))\n		np.einsum(\"ii->i\", A)[:] = rng.random(n)\n	elif dist == \"normal\":\n		A = sp.spatial.distance.squareform(rng.normal(size=N))\n		np.einsum(\"ii->i\", A)[:] = rng.random(n)\n	else:\n		raise ValueError(f\"Invalid distribution {dist} supplied\")\n", "	if dist not in {\"uniform\", \"normal\"}:\n		raise ValueError(f\"Invalid distribution {dist} supplied\")\n	entries = rng.uniform(size=N) if dist == \"uniform\" else rng.normal(size=N)\n	A = sp.spatial.distance.squareform(entries)\n	np.einsum(\"ii->i\", A)[:] = rng.random(n)\n"))
    ref("r2-symq", "C21", (RN, "	Q, R = np.linalg.qr(A)\n", "	Q = np.linalg.qr(A)[0]\n"), (RN, "	rng = np.random.default_rng() if seed is None else np.random.default_rng(seed)\n	N: int", "	rng = np.random.default_rng(seed)\n	N: int"))
    ref("r2-symclip", "C21", (RN, "	ew = np.maximum(ew, np.finfo(np.float64).eps) if pd else ew\n	A = Q @ np.diag(ew) @ Q.T\n	A = (A + A.T) / 2\n	return A\n", "	if pd:\n		ew = np.clip(ew, np.finfo(np.float64).eps, None)\n	half = Q @ np.diag(ew) @ Q.T\n	return (half + half.T) / 2\n"))
    ref("r2-haar", "C21", (RN, "	ew = rng.uniform(size=n, low=-1.0, high=1.0) if ew is None else np.atleast_1d(ew)\n", "	if ew is None:\n		ew = rng.uniform(low=-1.0, high=1.0, size=n)\n	else:\n		ew = np.atleast_1d(ew)\n"), (RN, "	return U @ np.diag(ev) @ U.T\n", "	return (U * ev) @ U.T\n"))
    ref("h2-one", "C22", (TR, "	if full or callback is not None:\n		result = EstimatorResult(estimator, converge)\n		callback = (lambda x: x) if callback is None else callback\n		while not converge(estimator):\n			v = pdf(size=(N, batch)).astype(f_dtype)\n			estimator.update(quad_form(v))\n			result.estimate, result.nit = estimator.estimate, len(estimator)\n			callback(result)\n		result.message = converge.message(estimator)\n		return (estimator.estimate, result)\n	else:\n		while not converge(estimator):\n			estimator.update(quad_form(pdf(size=(N, 1)).astype(f_dtype)))\n		return estimator.estimate\n", "	detailed = full or callback is not None\n	result = EstimatorResult(estimator, converge)\n	width = batch if detailed else 1\n	while not converge(estimator):\n		v = pdf(size=(N, width)).astype(f_dtype)\n		estimator.update(quad_form(v))\n		if detailed:\n			result.estimate, result.nit = estimator.estimate, len(estimator)\n			if callback is not None:\n				callback(result)\n	if not detailed:\n		return estimator.estimate\n	result.message = converge.message(estimator)\n	return (estimator.estimate, result)\n"))
    ref("h2-empty", "C22 C23 C24", (TR + "*", "	if np.prod(A.shape) == 0:\n", "	if A.shape[0] == 0 or A.shape[1] == 0:\n"))
    ref("h2-default", "C22", (TR, "		cc1 = CountCriterion(count=200)\n		cc2 = ConfidenceCriterion(confidence=0.95, atol=1.0, rtol=0.0)\n		converge = cc1 | cc2\n", "		converge = CountCriterion(200) | ConfidenceCriterion(confidence=0.95, atol=1.0, rtol=0.0)\n"))
    ref("h2-helper", "C22 C23", (TR, "def hutch(\n", "def _quad_form(A, v):\n	if hasattr(A, \"quad\"):\n		return A.quad(v)\n	return np.einsum(\"ij,ij->j\", v, A @ v) if v.ndim == 2 else v @ (A @ v)\n\n\ndef hutch(\n"), (TR + "*", "	quad_form = (lambda v: A.quad(v)) if hasattr(A, \"quad\") else (lambda v: np.einsum(\"...i,...i->...\", v.T, (A @ v).T))\n", "	quad_form = lambda v: _quad_form(A, v)\n"))
    ref("h2-pp", "C23", (TR, "	rng_ests = np.einsum(\"...i,...i->...\", A @ Q, Q) if mode == \"full\" else np.ravel([quad_form(q) for q in Q.T])\n", "	if mode == \"full\":\n		rng_ests = np.sum((A @ Q) * Q, axis=1)\n	else:\n		rng_ests = np.concatenate([np.atleast_1d(quad_form(Q[:, j])) for j in range(Q.shape[1])])\n"))
    ref("h2-pp2", "C23", (TR, "	nb = max(N // 3, 1) if m is None else m  # number of samples to dedicate to deflation\n	nb += nb % 3  # ensure nb divides by 3\n", "	nb = m\n	if m is None:\n		nb = max(1, N // 3)\n	nb = nb + (nb % 3)\n"))
    ref("h2-pp3", "C23", (TR, "	Q = np.linalg.qr(A @ WB, mode=\"reduced\")[0]\n", "	sketch = A @ WB\n	Q, _ = np.linalg.qr(sketch)\n"), (TR, "	if not full:\n		return tr_rng + tr_defl\n	else:\n		result = EstimatorResult()\n		result.estimate = tr_rng + tr_defl\n		result.nit = 2 * nb\n", "	estimate = tr_rng + tr_defl\n	if not full:\n		return estimate\n	else:\n		result = EstimatorResult(estimate=estimate, nit=2 * nb)\n"))
    ref("x2-prod", "C24", (TR, "	diag_prod = lambda A, B: np.einsum(\"ij,ji->i\", A.T, B)[:, np.newaxis]  ## Faster version of the above\n", "	diag_prod = lambda A, B: np.sum(A * B, axis=0)[:, np.newaxis]\n"))
    ref("x2-scale", "C24", (TR, "	if not pdf == \"sphere\":\n		scale = np.ones(m)[:, np.newaxis]  # this is a column vector\n	else:\n		col_norm = lambda X: np.linalg.norm(X, axis=0)\n		c = n - m + 1\n		scale = c / (n - (col_norm(W_proj)[:, np.newaxis]) ** 2 + (diag_prod(S, W_proj) * col_norm(S)[:, np.newaxis]) ** 2)\n", "	scale = np.ones((m, 1))  # this is a column vector\n	if pdf == \"sphere\":\n		dist = n - np.sum(W_proj**2, axis=0) + (diag_prod(S, W_proj).ravel() * np.linalg.norm(S, axis=0)) ** 2\n		scale = ((n - m + 1) / dist)[:, np.newaxis]\n"))
    ref("x2-loop", "C24", (TR, "		ns = min(A.shape[1] - W.shape[1], int(batch))\n", "		remaining = n - W.shape[1]\n		ns = int(batch) if int(batch) < remaining else remaining\n"), (TR, "	result.estimator = estimator\n	result.estimate = estimator.estimate\n	result.criterion = converge\n	return (result.estimate, result) if full else result.estimate\n", "	estimate = estimator.estimate\n	result.estimator, result.criterion, result.estimate = estimator, converge, estimate\n	if full:\n		return (estimate, result)\n	return estimate\n"))
    ref("x2-insert", "C24", (TR, "			if Q.shape[1] == 0:  # qr_insert does not grow an empty factorization of a single row\n				Q, R = np.linalg.qr(Y[:, [j]], mode=\"reduced\")\n			else:\n				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which=\"col\")  # rcond=FLOAT_MIN\n", "			k = Q.shape[1]\n			if k > 0:\n				Q, R = qr_insert(Q, R, Y[:, j], k, which=\"col\")\n			else:\n				Q, R = np.linalg.qr(Y[:, j : j + 1])\n"))
    ref("g2-one", "C25", (DG, "	if full or callback is not None:\n		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)\n		result = EstimatorResult(estimator, converge)\n\n		while not converge(estimator):\n			v = pdf(size=N).astype(f_dtype)\n			u = (A @ v).ravel()\n			numer += u * v.ravel()\n			denom += np.square(v.ravel())\n			estimator.update(np.atleast_2d(numer / denom))\n			if callback is not None:\n				callback(result)\n		result.estimate = estimator.estimate\n		return (estimator.estimate, result)\n	else:\n		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)\n		while not converge(estimator):\n			v = pdf(size=N).astype(f_dtype)\n			u = (A @ v).ravel()\n			numer += u * v.ravel()\n			denom += np.square(v.ravel())\n			estimator.update(np.atleast_2d(numer / denom))\n		return estimator.estimate\n", "	result = EstimatorResult(estimator, converge)\n	numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)\n	while not converge(estimator):\n		v = pdf(size=N).astype(f_dtype)\n		w = v.ravel()\n		numer += w * np.ravel(A @ v)\n		denom += w * w\n		estimator.update((numer / denom)[np.newaxis, :])\n		if callback is not None:\n			callback(result)\n	result.estimate = estimator.estimate\n	if full or callback is not None:\n		return (estimator.estimate, result)\n	return estimator.estimate\n"))
    ref("g2-xd", "C26", (DG, "	diag_prod = lambda A, B: np.einsum(\"ij,ji->i\", A.T, B)[:, np.newaxis]  # about 120-140% faster than np.diag(A.T @ B)\n", "	diag_prod = lambda A, B: (A * B).sum(axis=0).reshape(-1, 1)\n"))
    ref("g2-xd2", "C26", (DG, "	m = 2 * A.shape[0] if m is None else min(m + (m % 2), 2 * A.shape[0])\n	n, m = A.shape[0], m // 2\n", "	n = A.shape[0]\n	if m is None:\n		m = n\n	else:\n		m = min((m + 1) // 2, n)\n"))
    ref("g2-xd3", "C26", (DG, "	dNTQ = diag_prod(N.T, (Q @ T).T)\n", "	QT = Q @ (Z.T @ N)\n	dNTQ = np.sum(N * QT, axis=1, keepdims=True)\n"), (DG, "	d = dQZ + (-dQSSZ + dNY - dNTQ + dNQSST) / m\n	return d.ravel()\n", "	return (dQZ + (dNY - dNTQ + dNQSST - dQSSZ) / m)[:, 0]\n"))
    ref("o2-krylov", "C29 C30", (OP, "		stop = np.flatnonzero(self._beta[1 : self._deg] < np.sqrt(self.shape[0]) * self._rtol)\n		return self._deg if len(stop) == 0 else int(stop[0]) + 1\n", "		tol = np.sqrt(self.shape[0]) * self._rtol\n		for j in range(1, self._deg):\n			if self._beta[j] < tol:\n				return j\n		return self._deg\n"))
    ref("o2-quad", "C29 C30", (OP, "			nodes, weights = self._nodes[:k], self._weights[:k]\n			quadrature(self._alpha, self._beta, deg=k, quad=\"gw\", nodes=nodes, weights=weights)\n			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq\n", "			nodes, weights = quadrature(self._alpha, self._beta, deg=k)\n			y[j] = x_norm_sq * np.sum(self._fun(nodes) * weights)\n"))
    ref("o2-matvec", "C29 C30", (OP, "		return x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T\n", "		c = np.ravel(self._fun(rw)) * Y[0]\n		y = x_norm * (self._Q[:, :k] @ (Y @ c))\n		return y.reshape(-1, 1)\n"))
    ref("o2-init", "C29 C30", (OP, "		fun = fun if fun is not None else lambda x: x\n		fun = param_callable(fun, **kwargs) if isinstance(fun, str) else fun\n		self.fun = fun\n", "		if fun is None:\n			self.fun = lambda x: x\n		else:\n			self.fun = param_callable(fun, **kwargs) if isinstance(fun, str) else fun\n"))
    ref("o2-toep", "C31", (OP, "		x_fft = np.fft.fft(self._z)\n		y = np.real(np.fft.ifft(self._dfft * x_fft))\n		return y[: self.shape[0]].astype(self.dtype)\n", "		n = len(self.c)\n		spectrum = np.fft.fft(self._z) * self._dfft\n		return np.fft.ifft(spectrum).real[:n].astype(self.dtype)\n"))
    ref("o2-toep2", "C31", (OP, "		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))\n", "		self._d = np.zeros(2 * len(self.c))\n		self._d[: len(self.c)] = self.c\n		self._d[len(self.c) + 1 :] = self.r[:0:-1]\n"))
    ref("o2-toep3", "C31", (OP, "		self._dfft = np.fft.fft(self._d)\n", "		self._dfft = np.fft.rfft(self._d)\n"), (OP, "		x_fft = np.fft.fft(self._z)\n		y = np.real(np.fft.ifft(self._dfft * x_fft))\n", "		x_fft = np.fft.rfft(self._z)\n		y = np.fft.irfft(self._dfft * x_fft, n=len(self._z))\n"))
    ref("o2-norm", "C32", (OP, "	if A.shape[0] == 1:  # eigsh needs k < n\n		alpha = (A @ np.ones(1)).item()\n	else:\n		alpha = eigsh(A, k=1, which=\"LM\", return_eigenvectors=False).item()\n	I_op = IdentityOperator(A.shape)\n	# np.diff(interval)\n	return (A + alpha * I_op) / (2 * alpha)", "	single = A.shape[0] == 1  # eigsh needs k < n\n	lam = (A @ np.ones(1))[0] if single else eigsh(A, k=1, which=\"LM\", return_eigenvectors=False)[0]\n	shifted = A + lam * IdentityOperator(A.shape)\n	return shifted / (2 * lam)"))
    ref("o2-valid", "C33 C22 C25", (OP, "	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, \"dtype\") else A.dtype\n	assert f_dtype.type in {np.float32, np.float64}", "	if hasattr(A, \"dtype\"):\n		f_dtype = A.dtype\n	else:\n		f_dtype = (A @ np.zeros(A.shape[1])).dtype\n	assert f_dtype.type in (np.float64, np.float32)"))
    ref("o2-valid2", "C33", (OP, "	is_valid_op &= hasattr(A, \"shape\") and hasattr(A.shape, \"__len__\") and len(A.shape) >= 2  # , \"Operator must be at least two dimensional.\"\n	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]  # , \"This function only works with square, symmetric matrices!\"\n	return is_valid_op\n", "	if not is_valid_op or not hasattr(A, \"shape\") or not hasattr(A.shape, \"__len__\"):\n		return False\n	return len(A.shape) >= 2 and A.shape[0] == A.shape[1]\n"))
    ref("o2-mf", "C29 C30", (OP, "	M = MatrixFunction(A, fun=fun, deg=deg)\n	return M if v is None else M._matvec(v)\n", "	op = MatrixFunction(A, fun, deg)\n	if v is None:\n		return op\n	return op._matvec(v)\n"))
