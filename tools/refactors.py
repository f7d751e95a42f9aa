"""Behaviour-preserving edits the checks must stay quiet on: refactors.py [NAMES] (scratch copies; prints verdicts and how many obligations stay discharged)."""
import os, sys, shutil, subprocess, re, json
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SRC = "/repo/src/primate/"
R = []
def ref(name, props, *edits): R.append((name, props.split(), edits))
def ren(f, old, new, fn=None): return (f, ("rename", fn, old), new)
ref("mean-helper", "C01 C02 C03 C22 C25", ("stats.py", "class Mean:", "def _rows(X, dim):\n\tX = np.atleast_1d(X)\n\tX = X[:, None] if X.ndim == 1 else X\n\tassert X.shape[1] == dim, f\"Expected shape (n, {dim}), got {X.shape}\"\n\treturn X\n\n\nclass Mean:"),
    ("stats.py*", "		X = np.atleast_1d(X)\n		X = X[:, None] if X.ndim == 1 else X\n		assert X.shape[1] == self.dim, f\"Expected shape (n, {self.dim}), got {X.shape}\"\n", "		X = _rows(X, self.dim)\n"))
ref("mean-sum", "C01 C02 C03", ("stats.py*", "		self.mu += (X.shape[0] / new_n) * delta_mean\n", "		self.mu = self.mu + delta_mean * X.shape[0] / new_n\n"))
ref("mean-total", "C01 C02 C03", ("stats.py", "		self.mu += (X.shape[0] / new_n) * delta_mean\n		self.n = new_n\n\n\nclass", "		k = X.shape[0]\n		self.mu = (self.n * self.mu + k * batch_mean) / new_n\n		self.n += k\n\n\nclass"))
ref("cov-outer", "C01 C02 C04 C06", ("stats.py", "		X_shift = delta_mean[:, None] @ delta_mean[None, :] if self.dim > 1 else (delta_mean * delta_mean)\n", "		X_shift = np.outer(delta_mean, delta_mean)\n"))
ref("ci-common", "C09", ("stats.py", "		mean, std_err, m = np.mean(a), sp.stats.sem(a, ddof=1), sp.stats.t.ppf((1 + confidence) / 2.0, len(a) - 1)\n		return mean - m * std_err, mean + m * std_err\n", "		n = len(a)\n		half = sp.stats.t.ppf((1 + confidence) / 2.0, n - 1) * np.std(a, ddof=1) / np.sqrt(n)\n		center = np.mean(a)\n		return center - half, center + half\n"))
ref("est-tracker", "C03 C06 C22", ("estimators.py", "			old_mu = self._cov.mu.copy()\n			self._cov.update(x)\n			self.delta = self._cov.mu - old_mu\n		else:\n			old_mu = self._mean.mu.copy()\n			self._mean.update(x)\n			self.delta = self._mean.mu - old_mu\n", "			tracker = self._cov\n		else:\n			tracker = self._mean\n		before = np.array(tracker.mu)\n		tracker.update(x)\n		self.delta = tracker.mu - before\n"))
ref("conf-inline", "C06", ("estimators.py", "		std_dev = est._cov.covariance() ** (1 / 2)\n		std_error = std_dev / np.sqrt(est.n_samples)\n", "		n = est.n_samples\n		std_error = np.sqrt(est._cov.covariance() / n)\n"))
ref("conf-call", "C06", ("estimators.py", "		moe, rerr = self._error(est)\n		return moe <= self.atol or rerr <= self.rtol\n", "		margin, relative = self._error(est)\n		if margin <= self.atol:\n			return True\n		return relative <= self.rtol\n"))
ref("tol-call", "C05", ("estimators.py", "		return bool(error < self.atol or error < self.rtol * np.linalg.norm(estimate, ord=self.ord))\n", "		bound = self.rtol * np.linalg.norm(estimate, ord=self.ord)\n		return bool(error < max(self.atol, bound))\n"))
ref("crit-closures", "C07", ("estimators.py", "		return ConvergenceCriterion(lambda est: or_(self(est), other(est)))\n", "		def _either(est: Estimator) -> bool:\n			first, second = self(est), other(est)\n			return first | second\n\n		return ConvergenceCriterion(_either)\n"))
ref("knee-names", "C10", ("estimators.py", "		y = mu_cum_diffs\n		y_norm = (y - y.min()) / (y.max() - y.min())\n", "		y = mu_cum_diffs\n		lo, hi = np.min(y), np.max(y)\n		y_norm = (y - lo) / (hi - lo)\n"), ("estimators.py", "		return max_diff > threshold and diff_curve[-1] < threshold\n", "		prominent = max_diff > threshold\n		return prominent and diff_curve[-1] < threshold\n"))
ref("cv-split", "C04", ("estimators.py", "		cv_est = self.cov.mu[0] - np.dot(self.alpha, self.cov.mu[1:] - self.ecv)\n", "		y_mean, c_mean = self.cov.mu[0], self.cov.mu[1:]\n		cv_est = y_mean - np.sum(self.alpha * (c_mean - self.ecv))\n"))
ref("kwargs-loop", "C08", ("typing.py", "	return {k: v for k, v in kwargs.items() if k in valid_args}\n", "	kept = {}\n	for k, v in kwargs.items():\n		if k in valid_args:\n			kept[k] = v\n	return kept\n"), ("typing.py", "	return {k: kwargs[k] for k in set(kwargs) - set(valid_args)}\n", "	return {k: v for k, v in kwargs.items() if k not in valid_args}\n"))
ref("trinv-block", "C11 C24", ("linalg.py", "	B_ast[n, n] = np.reciprocal(b[-1]).item()\n	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])\n", "	pivot = 1.0 / b[n, 0]\n	B_ast[n, n] = pivot\n	B_ast[:n, n] = -pivot * (B_inv @ b[:n, 0])\n"))
ref("quad-renamed", "C12 C13 C29 C30", ("integrate.py", "		theta, ev = eigh_tridiag(d[:deg], e[:deg], **kwargs)\n		tau = np.square(ev[0, :])\n", "		theta, vectors = eigh_tridiag(d[:deg], e[:deg], **kwargs)\n		tau = vectors[0] ** 2\n"), ("integrate.py", "		np.copyto(nodes, theta)\n", "		nodes[:] = theta\n"), ("integrate.py", "		np.copyto(weights, tau)\n", "		weights[:] = tau\n"))
ref("fttr-locals", "C13", ("fttr.py", "	for i in range(2, n):\n		s = (x - a[i - 1]) / b[i]\n		t = -b[i - 1] / b[i]\n		z[i] = s * z[i - 1] + t * z[i - 2]\n", "	for i in range(1, n - 1):\n		z[i + 1] = ((x - a[i]) * z[i] - b[i] * z[i - 1]) / b[i + 1]\n"))
ref("fttr-weight", "C13", ("fttr.py", "		weight = 1.0 / np.sum(np.square(p))\n		weights[i] = weight / mu_0\n", "		weights[i] = 1.0 / (mu_0 * np.dot(p, p))\n"))
ref("tqli-names", "C14", ("tqli.py", "		ii = 0\n		m = it\n", "		count = 0\n		m = it\n"), ("tqli.py", "if ii > max_iter or", "if count > max_iter or"), ("tqli.py", "				ii += 1\n", "				count += 1\n"))
ref("tqli-rot", "C14", ("tqli.py", "							f = Z[k][i + 1]\n							Z[k][i + 1] = s * Z[k][i] + c * f\n							Z[k][i] = c * Z[k][i] - s * f\n", "							lo, hi = Z[k][i], Z[k][i + 1]\n							Z[k][i] = c * lo - s * hi\n							Z[k][i + 1] = s * lo + c * hi\n"))
ref("tqli-split", "C14", ("tqli.py", "				s, c, p = 1.0, 1.0, 0.0\n", "				s = 1.0\n				c = 1.0\n				p = 0.0\n"))
ref("tridiag-common", "C12 C15", ("tridiag.py", "## Note this issue", "def _prepare(d: np.ndarray, e: np.ndarray, method: str):\n	assert method in {\"tqli\", \"mrrr\", \"auto\"}\n	assert len(d) in {len(e) + 1, len(e)}, \"Invalid diagonal/subdiagonal pair\"\n	e = np.append([0], e) if len(e) == (len(d) - 1) else e\n	return d.copy(), e.copy()\n\n\n## Note this issue"), ("tridiag.py*", "	assert method in {\"tqli\", \"mrrr\", \"auto\"}\n	assert len(d) in {len(e) + 1, len(e)}, \"Invalid diagonal/subdiagonal pair\"\n	e = np.append([0], e) if len(e) == (len(d) - 1) else e\n	d, e = (d.copy(), e.copy())\n", "	d, e = _prepare(d, e, method)\n"))
ref("tridiag-try", "C15", ("tridiag.py", "			res = _eigh_tridiag(d, e, Z, method=\"mrrr\")\n			return res\n", "			return _eigh_tridiag(d, e, Z, method=\"mrrr\")\n"))
ref("softsign-loop", "C16 C17", ("special.py", "		x = np.clip(x, -1.0, +1.0)\n		x = np.atleast_2d(x).T\n		sx = np.ravel(np.sum(x * (1 - x**2) ** I * J, axis=1))\n		return sx\n", "		x = np.clip(x, -1.0, +1.0)\n		x = np.atleast_2d(x).T\n		powers = (1 - x**2) ** I\n		return (x * powers * J).sum(axis=1).ravel()\n"))
ref("smooth-horner", "C16 C17", ("special.py", "		y = 3 * y**2 - 2 * y**3\n", "		y = y * y * (3 - 2 * y)\n"))
ref("param-table", "C17", ("special.py", "	elif fun == \"abs\":\n		return np.abs\n	elif fun == \"sqrt\":\n		return np.sqrt\n", "	elif fun in {\"abs\", \"sqrt\"}:\n		return {\"abs\": np.abs, \"sqrt\": np.sqrt}[fun]\n"))
ref("rad-ufuncs", "C18 C19 C20", ("random.py", "	np.multiply(out, 2, out=out)  # [0, 2]\n	np.floor(out, out=out)  # {0, 1}\n	np.multiply(out, 2, out=out)  # {0, 2}\n	np.subtract(out, 1, out=out)  # {-1, +1}\n", "	out *= 2\n	np.floor(out, out=out)\n	out[...] = 2 * out - 1\n"))
ref("rad-where", "C18 C19 C20", ("random.py", "	np.multiply(out, 2, out=out)  # [0, 2]\n	np.floor(out, out=out)  # {0, 1}\n	np.multiply(out, 2, out=out)  # {0, 2}\n	np.subtract(out, 1, out=out)  # {-1, +1}\n", "	out[...] = np.where(out < 0.5, -1.0, 1.0)\n"))
ref("sphere-norm", "C18 C19 C20", ("random.py", "	c = np.sqrt(np.sum(out**2, axis=0, keepdims=True))  # or np.sqrt(np.einsum('ij,ij -> j', Y, Y))\n	n = np.sqrt(out.shape[0])\n	np.divide(out, c, out=out)\n	np.multiply(out, n, out=out)\n", "	out *= np.sqrt(out.shape[0]) / np.linalg.norm(out, axis=0, keepdims=True)\n"))
ref("fill-loop", "C20", ("random.py", "		futures = {}\n		for i in range(self.threads):\n			args = (_fill, self._random_generators[i], self.values, i * self.step, (i + 1) * self.step)\n			futures[self.executor.submit(*args)] = i\n		concurrent.futures.wait(futures)\n", "		futures = []\n		for i, rng in enumerate(self._random_generators):\n			start = i * self.step\n			futures.append(self.executor.submit(_fill, rng, self.values, start, start + self.step))\n		concurrent.futures.wait(futures)\n"))
ref("sym-scale", "C21", ("random.py", "	A = Q @ np.diag(ew) @ Q.T\n	A = (A + A.T) / 2\n	return A\n", "	B = (Q * ew) @ Q.T\n	return 0.5 * (B + B.T)\n"))
ref("haar-direct", "C21", ("random.py", "	ev = np.zeros(n)\n	ev[: len(ew)] = ew\n	U = OG.rvs()\n	return U @ np.diag(ev) @ U.T\n", "	U = OG.rvs()\n	return U @ np.diag(ew) @ U.T\n"))
ref("hutch-draw", "C22", ("trace.py", "			v = pdf(size=(N, batch)).astype(f_dtype)\n			estimator.update(quad_form(v))\n			result.estimate, result.nit = estimator.estimate, len(estimator)\n			callback(result)\n", "			samples = quad_form(pdf(size=(N, batch)).astype(f_dtype))\n			estimator.update(samples)\n			result.estimate = estimator.estimate\n			result.nit = len(estimator)\n			callback(result)\n"))
ref("hutch-while", "C22", ("trace.py", "		while not converge(estimator):\n			estimator.update(quad_form(pdf(size=(N, 1)).astype(f_dtype)))\n		return estimator.estimate\n", "		while True:\n			if converge(estimator):\n				return estimator.estimate\n			v = pdf(size=(N, 1)).astype(f_dtype)\n			estimator.update(quad_form(v))\n"))
ref("hutch-qf", "C22 C23", ("trace.py*", "	quad_form = (lambda v: A.quad(v)) if hasattr(A, \"quad\") else (lambda v: np.einsum(\"...i,...i->...\", v.T, (A @ v).T))\n", "	if hasattr(A, \"quad\"):\n		quad_form = A.quad\n	else:\n		def quad_form(v):\n			return np.sum(v * (A @ v), axis=0)\n"))
ref("hutchpp-defl", "C23", ("trace.py", "	G -= Q @ (Q.T @ G)\n	defl_ests = np.einsum(\"...i,...i->...\", A @ G, G)", "	coeffs = Q.T @ G\n	G = G - Q @ coeffs\n	defl_ests = np.einsum(\"...i,...i->...\", A @ G, G)"), ("trace.py", "	tr_defl = (1 / nb) * np.sum(defl_ests)\n", "	tr_defl = np.sum(defl_ests) / nb\n"))
ref("xtrace-inline", "C24", ("trace.py", "	tr_ests = np.trace(H) * np.ones(shape=(m, 1)) - dSHS\n	tr_ests += (-dTW + dWHW + dSW * dSRmHW + abs(dSW) ** 2 * dSHS + dTmHRS * dSW) * scale\n	return tr_ests\n", "	base = np.trace(H) - dSHS\n	correction = dWHW - dTW + dSW * (dSRmHW + dTmHRS) + dSW**2 * dSHS\n	return base + scale * correction\n"))
ref("xtrace-loop", "C24", ("trace.py", "		N = sampler(size=(n, ns))  # 'new' vectors\n		Y = A @ N\n", "		fresh = sampler(size=(n, ns))  # 'new' vectors\n		Y = A @ fresh\n"), ("trace.py", "		W = np.c_[W, N]\n		Z = np.c_[Z, A @ Q[:, -ns:]]\n", "		W = np.hstack([W, fresh])\n		Z = np.hstack([Z, A @ Q[:, -ns:]])\n"))
ref("diag-shared", "C25", ("diagonal.py*", "			v = pdf(size=N).astype(f_dtype)\n			u = (A @ v).ravel()\n			numer += u * v.ravel()\n			denom += np.square(v.ravel())\n", "			v = pdf(size=N).astype(f_dtype)\n			w = v.ravel()\n			numer += (A @ v).ravel() * w\n			denom += w**2\n"))
ref("diag-merge", "C25", ("diagonal.py", "		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)\n		result = EstimatorResult(estimator, converge)\n", "		result = EstimatorResult(estimator, converge)\n		numer = np.zeros(N, dtype=f_dtype)\n		denom = np.zeros_like(numer)\n"))
ref("xdiag-names", "C26", ("diagonal.py", "	dNQSST = diag_prod(N.T, (diag_prod(S, T) * QS.T))\n", "	weights = diag_prod(S, T)\n	dNQSST = diag_prod(N.T, weights * QS.T)\n"), ("diagonal.py", "	d = dQZ + (-dQSSZ + dNY - dNTQ + dNQSST) / m\n	return d.ravel()\n", "	correction = dNY + dNQSST - dQSSZ - dNTQ\n	return np.ravel(dQZ + correction / m)\n"))
ref("lz-window", "C27 C28", ("include/lanczos.h", "    pos[2] = mod(j+2, ncv);\n", "    pos[2] = (pos[1] + 1) % int(ncv);\n"))
ref("lz-copy", "C27 C28", ("include/lanczos.h", "    Q.col(n) = v / beta[j+1]; // normalize such that Q stays orthonormal\n", "    const F scale = 1 / beta[j+1];\n    Q.col(n) = scale * v; // normalize such that Q stays orthonormal\n"))
ref("lz-explicit", "C27 C28", ("include/lanczos.h", "    auto [p,c,n] = pos;                   // previous, current, next\n", "    const int p = pos[0], c = pos[1], n = pos[2];\n"))
ref("lz-break", "C27 C28", ("include/lanczos.h", "    if (beta[j+1] < residual_tol || (j+1) == deg) { // additional break prevents overriding qn\n      break;\n    }\n", "    const bool exhausted = beta[j+1] < residual_tol;\n    const bool last = (j+1) == deg;\n    if (exhausted || last) { break; }\n"))
ref("lz-orth", "C27 C28", ("include/lanczos.h", "    if (u_norm > tol && std::abs(s_proj) > tol){ \n      v -= (s_proj / u_norm) * U.col(i);\n    }\n", "    const bool skip = !(u_norm > tol) || !(std::abs(s_proj) > tol);\n    if (!skip){ v -= U.col(i) * (s_proj / u_norm); }\n"))
ref("lz-orthfor", "C27 C28", ("include/lanczos.h", "  for (int i = mod(start_idx, m), c = 0; c < p; ++c, i = mod(i + diff, m)){\n", "  for (int c = 0; c < p; ++c){\n    const int i = mod(start_idx + c * diff, m);\n"))
ref("lz-mod", "C27 C28", ("include/lanczos.h", "  return (b + (a % b)) % b; \n", "  const int r = a % b;\n  return r < 0 ? r + b : r;\n"))
ref("py-helper", "C27 C28", ("include/pylinop.h", "    if (static_cast< size_t >(output.size()) != _shape.first) { throw std::invalid_argument(\"Operator returned a vector of the wrong length.\"); }\n\t\tstd::copy(output.data(), output.data() + _shape.first, out);\n", "    store(output, out);\n"), ("include/pylinop.h", "  auto shape() const -> pair", "  void store(const py_array< F >& y, F* out) const {\n    const size_t n = _shape.first;\n    if (static_cast< size_t >(y.size()) != n) { throw std::invalid_argument(\"Operator returned a vector of the wrong length.\"); }\n    std::copy(y.data(), y.data() + n, out);\n  }\n\n  auto shape() const -> pair"))
ref("py-map", "C27 C28", ("include/pylinop.h", "\t\tstd::copy(output.data(), output.data() + _shape.first, out);\n", "\t\tEigen::Map< Vector< F > >(out, _shape.first) = Eigen::Map< const Vector< F > >(output.data(), _shape.first);\n"))
ref("py-copyn", "C27 C28", ("include/pylinop.h", "std::copy(output.data(), output.data() + _shape.first, out);", "const F* res = output.data(); std::copy_n(res, _shape.first, out);"))
ref("py-loop", "C27 C28", ("include/pylinop.h", "\t\tstd::copy(output.data(), output.data() + _shape.first, out);\n", "\t\tfor (size_t i = 0; i < _shape.first; ++i) { out[i] = output.data()[i]; }\n"))
ref("wrap-locals", "C27 C28", ("_lanczos.cpp", "    const auto op = Wrapper(A);\n    const size_t ncv = static_cast< size_t >(Q.shape(1));\n    lanczos_recurrence(\n      op, v.mutable_data(), lanczos_degree, lanczos_rtol, orth, \n      alpha.mutable_data(), beta.mutable_data(), Q.mutable_data(), ncv\n    );\n  });\n} \n\nPYBIND", "    const Wrapper op(A);\n    F* q = v.mutable_data(); F* a = alpha.mutable_data(); F* b = beta.mutable_data();\n    lanczos_recurrence(op, q, lanczos_degree, lanczos_rtol, orth, a, b, Q.mutable_data(), static_cast< size_t >(Q.shape(1)));\n  });\n} \n\nPYBIND"))
ref("dense-eval", "C27 C28", ("include/eigen_operators.h", "  void matvec(const F* inp, F* out) const noexcept {\n    auto ts = hr_clock::now();\n    auto input = Eigen::Map< const Vector< F > >(inp, A.cols(), 1); // this should be a no-op\n    auto output = Eigen::Map< Vector< F > >(out, A.rows(), 1); // this should be a no-op\n    output = A * input; \n", "  void matvec(const F* inp, F* out) const noexcept {\n    auto ts = hr_clock::now();\n    Eigen::Map< const Vector< F > > x(inp, A.cols());\n    Eigen::Map< Vector< F > > y(out, A.rows());\n    y.noalias() = A * x;\n"))
ref("lz-front", "C28", ("lanczos.py", "		a, b = alpha[:deg], beta[1:deg]\n		return (a, b) if not return_basis else ((a, b), Q)\n", "		coeffs = (alpha[:deg], beta[1:deg])\n		return (coeffs, Q) if return_basis else coeffs\n"), ("lanczos.py", "	orth: int = deg if orth < 0 or orth > deg else orth\n", "	if orth < 0 or orth > deg:\n		orth = deg\n"))
ref("rr-early", "C28", ("lanczos.py", "	if Q_basis:\n		(a, b), Q = lanczos(A, deg=deg, return_basis=True, **kwargs)\n	else:\n		(a, b) = lanczos(A, deg=deg, return_basis=False, **kwargs)\n", "	res = lanczos(A, deg=deg, return_basis=Q_basis, **kwargs)\n	(a, b), Q = res if Q_basis else (res, None)\n"))
ref("mf-rule", "C29 C30", ("operators.py", "		return x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T\n", "		coeffs = Y @ (self._fun(rw) * Y[0, :])\n		return x_norm * (self._Q[:, :k] @ coeffs)[:, np.newaxis]\n"))
ref("mf-col", "C29 C30", ("operators.py", "			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq\n", "			y[j] = x_norm_sq * np.dot(self._fun(nodes), weights)\n"))
ref("mf-renamed", "C29 C30", ("operators.py", "		y = np.zeros(x.shape[1])\n", "		out = np.zeros(x.shape[1])\n"), ("operators.py", "			y[j] = np.sum(", "			out[j] = np.sum("), ("operators.py", "* x_norm_sq\n		return y\n", "* x_norm_sq\n		return out\n"))
ref("mf-helper", "C29 C30", ("operators.py", "			self._Q.fill(0)  # vectors of a previous run must not be orthogonalized against\n			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)\n			k = self._krylov_dim()\n", "			k = self._run(xc)\n"), ("operators.py", "	def _adjoint(self):\n", "	def _run(self, q: np.ndarray) -> int:\n		self._Q.fill(0)  # vectors of a previous run must not be orthogonalized against\n		_lanczos.lanczos(self._A, q, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)\n		return self._krylov_dim()\n\n	def _adjoint(self):\n"))
ref("mf-fresh", "C29 C30", ("operators.py", "		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization\n", "		self._Q = np.zeros((self.shape[0], self._deg), dtype=self.dtype, order=\"F\")\n"))
ref("toep-pad", "C31", ("operators.py", "		self._z[: self.shape[0]] = x.ravel().astype(self.dtype, copy=False)\n		x_fft = np.fft.fft(self._z)\n", "		n = self.shape[0]\n		x_fft = np.fft.fft(np.concatenate([x.ravel().astype(self.dtype), np.zeros(n)]))\n"))
ref("norm-terms", "C32", ("operators.py", "	return (A + alpha * I_op) / (2 * alpha)", "	half = 1 / (2 * alpha)\n	return half * A + 0.5 * I_op"))
ref("valid-any", "C33 C22 C23", ("operators.py*", "	attr_checks = [hasattr(A, \"__matmul__\"), hasattr(A, \"matmul\"), hasattr(A, \"dot\"), hasattr(A, \"matvec\")]\n", "	attr_checks = [hasattr(A, name) for name in (\"__matmul__\", \"matmul\", \"dot\", \"matvec\")]\n"))
ref("linop-early", "C33", ("operators.py", "	is_valid_op = True\n	is_valid_op &= any(attr_checks)", "	is_valid_op = any(attr_checks)"))
import refactors2, refactors3; refactors2.register(ref); refactors3.register(ref)
def one(job):
    name, props, edits = job; r = f"/tmp/mv/rf_{name}"; shutil.rmtree(r, True); os.makedirs(r + "/src"); shutil.copytree(SRC, r + "/src/primate", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    for f, old, new in edits:
        p = f"{r}/src/primate/{f.rstrip('*')}"; s = open(p).read(); k = s.count(old)
        if k != 1 and not (f.endswith("*") and k): print("BAD EDIT", name, f, k, flush=True); return
        open(p, "w").write(s.replace(old, new))
    out = []
    for p in props:
        c = subprocess.run(["python3", H + "/run.py", p], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True); v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]; n = next((l.split(" obligations ")[0] if 0 else l.split("obligations ")[1].split(" ")[0] for l in c.stdout.splitlines() if "obligations " in l), "?")
        out.append(f"{p} {'ALARM' if c.returncode or v else 'quiet'} {n}")
        if c.returncode or v: print(name, p, c.stdout[-1500:], c.stderr[-300:], flush=True)
        elif n.split("/")[0] != n.split("/")[-1]: print("  open:", name, p, *[l[:230] for l in c.stdout.splitlines() if "not discharged" in l][:3], sep="\n     ", flush=True)
    print(name, out, flush=True); shutil.rmtree(r, True)
if __name__ == "__main__":
    sel = [j for j in R if not sys.argv[1:] or j[0] in sys.argv[1:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex: list(ex.map(one, sel))
