From 27d8accb5f481a14cb5de3409c7ec267ce6ce055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 01/34] fix: tqli divided by zero: use the textbook implicit
 shift (Fortran SIGN, original denominator)

---
 src/primate/tqli.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 7e5c736..75692d2 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -4,7 +4,7 @@ import numpy as np
 # pythran export sign(float, float)
 def sign(a: float, b: float):
 	# return 1 if b > 0 else (-1 if a < 0 else 1)
-	return int(b > 1) - int(a < 0) + 1
+	return abs(a) if b >= 0.0 else -abs(a)
 
 
 ## Based on: https://github.com/rappoccio/PHY410/blob/f6a183eb48807841f6d35be45b4aa845d905a04c/cpt_python/cpt.py#L438
@@ -57,8 +57,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				ii += 1
 				g = (d[it + 1] - d[it]) / (2.0 * e[it])  # shift
 				r = np.hypot(g, 1.0)  # pythag
-				g = d[m] - d[it]
-				g += e[it] / (g + sign(r, g))  # dm - ks
+				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
 				for i in range(m - 1, it - 1, -1):
-- 
2.43.0


From 70fc9e0ed4cf41636cc3cd4010c25935177adaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 02/34] fix: quadrature(quad="fttr") ignored the requested
 degree

---
 src/primate/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 3609ac2..d562ba1 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,9 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d, e, **kwargs)
+		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d, e, deg, tau)
+		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From 54c42e68c8edf5fcd90c7ec210665b4dce68edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 03/34] fix: fttr wrote out of bounds for degree-one rules and
 divided by zero for the zero matrix

---
 src/primate/fttr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 2f133a5..2deb15a 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -4,6 +4,8 @@ import numpy as np
 # pythran export ortho_poly(float, float, float[:], float[:], float[:], int)
 def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np.ndarray, n: int):
 	z[0] = mu_sqrt_rec
+	if n == 1:
+		return
 	z[1] = (x - a[0]) * z[0] / b[1]
 	for i in range(2, n):
 		s = (x - a[i - 1]) / b[i]
@@ -21,6 +23,7 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	"""
 	n = len(alpha)
 	mu_0 = np.sum(np.abs(theta[:k]))
+	mu_0 = mu_0 if mu_0 > 0.0 else 1.0
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
-- 
2.43.0


From 24fc0428463ddc5d99463efd79f3a34ef40cd196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 04/34] fix: MatrixFunction.quad reorthogonalized against
 Lanczos vectors of earlier calls

---
 src/primate/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a9fb30b..8576e40 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -145,6 +145,7 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
+			self._Q.fill(0)  # vectors of a previous run must not be orthogonalized against
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
 			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
-- 
2.43.0


From 33cf8642a00aa249f77c59a55e92594b2972c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 05/34] fix: Toeplitz discarded the imaginary part of the
 spectrum, wrong unless r == c

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 8576e40..d3ea24b 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -170,7 +170,7 @@ class Toeplitz(LinearOperator):
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
-		self._dfft = np.real(np.fft.fft(self._d))
+		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
 		self.shape = (len(c), len(c))
 		self.dtype = dtype
-- 
2.43.0


From 5fb7272d7085e6f89228fbcc23cce02d793a03d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 06/34] fix: ConfidenceCriterion used n + 1 degrees of freedom
 for n samples

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1366d47..c4a0cec 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -283,7 +283,7 @@ class ConfidenceCriterion(ConvergenceCriterion):
 		std_dev = est._cov.covariance() ** (1 / 2)
 		std_error = std_dev / np.sqrt(est.n_samples)
 		rel_error = abs(std_error / est.estimate)
-		score = self.t_scores[est.n_samples] if est.n_samples < 30 else self.z
+		score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z
 		margin_of_error = score * std_error
 		return (margin_of_error, rel_error)
 
-- 
2.43.0


From 434b63f038160da70b02dfd121eff4844c3a04de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 07/34] fix: KneeCriterion divided the raw samples, not their
 running sum, by the sample counts

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index c4a0cec..4436e39 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -310,7 +310,7 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Extract the differences between the sample means
 		mv = np.array(est.values).ravel()
-		cum_sample_mean = mv / np.arange(1, len(mv) + 1)
+		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)
 		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))
 
 		## Normalize to [0, 1], calculate difference curve
-- 
2.43.0


From fb5fdcdb2bf8736fc9672baa0764351bd5650ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 08/34] fix: ControlVariableEstimator.update failed on a single
 initial observation

---
 src/primate/estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 4436e39..fb7342d 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -168,7 +168,9 @@ class ControlVariableEstimator(MeanEstimator):
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
 		C = self.cov(ddof=1)
-		if self._estimate_cor:
+		if self._estimate_cor and self.n_samples < 2:
+			self.alpha = np.zeros(len(self.ecv))  # no covariance to estimate the coefficients from yet
+		elif self._estimate_cor:
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
-- 
2.43.0


From eef9da4ba581a793330a55fff103fcec87082068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 09/34] fix: param_callable rejected the softsign builtin

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index bf5c0ff..cab78aa 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union
 import numpy as np
 
 ## Natively support matrix functions
-_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank"]
+_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]
 
 
 def softsign(x: Optional[np.ndarray] = None, q: int = 1) -> Union[Callable, np.ndarray]:
-- 
2.43.0


From 369be3110743012c0631e1a75cee98e6c8304396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 10/34] fix: is_linear_op raised on objects without a shape

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index d3ea24b..9cbb3ce 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -29,7 +29,7 @@ def is_linear_op(A: Any) -> bool:
 	is_valid_op = True
 	is_valid_op &= any(attr_checks)  # , "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
 	is_valid_op &= hasattr(A, "shape") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
-	is_valid_op &= A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
+	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
 	return is_valid_op
 
 
-- 
2.43.0


From 79704cc2fc1838b1c57d468da96832f8e57b8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 11/34] fix: MatrixFunction and Toeplitz never initialised the
 LinearOperator base class

---
 src/primate/operators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 9cbb3ce..300f49f 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,8 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		self.shape = A.shape
-		self.dtype = np.dtype(dtype)
+		super().__init__(dtype=np.dtype(dtype), shape=A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -172,8 +171,7 @@ class Toeplitz(LinearOperator):
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
 		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
-		self.shape = (len(c), len(c))
-		self.dtype = dtype
+		super().__init__(dtype=np.dtype(dtype), shape=(len(c), len(c)))
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 09ae52d52a8e9119e51316fff76d369485d49885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 12/34] fix: hutch(full=True) and its callback reported an
 empty result

---
 src/primate/trace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 373f10e..3b09b4d 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -107,6 +107,7 @@ def hutch(
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
 			estimator.update(quad_form(v))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			callback(result)
 		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
-- 
2.43.0


From 44864e61c1aeaf04349795b1aa5fcd5499aa29d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 13/34] fix: xtrace ignored the convergence criterion it was
 given

---
 src/primate/trace.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 3b09b4d..b6ec782 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -266,14 +266,13 @@ def xtrace(
 	n = A.shape[0]
 	callback = (lambda result: ...) if not callable(callback) else callback
 	record = kwargs.pop("record", False)
-	estimator = MeanEstimator(record=record)
+	estimator = MeanEstimator(covariance=True, record=record)
 
 	## Parameterize the convergence criteria
 	if converge == "default":
 		converge = CountCriterion(count=n)
 	else:
-		converge = CountCriterion(count=n)
-		converge |= convergence_criterion(converge, **kwargs)
+		converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
 	## Setup outputs. TODO: these should really be resizable arrays
@@ -306,7 +305,7 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
-		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
+		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
 		callback(result)
 
-- 
2.43.0


From b6150c452def197e0988fad9780c11ba0dbdbf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 14/34] fix: xtrace never applied the normalisation for
 spherical test vectors

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index b6ec782..728dba5 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -285,7 +285,7 @@ def xtrace(
 	## Commence the batch-iterations
 	result = EstimatorResult()
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
+	sampler = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
 		ns = min(A.shape[1] - W.shape[1], int(batch))
@@ -293,7 +293,7 @@ def xtrace(
 		## Sample a batch of random isotropic vectors
 		## TODO: replace with proper batch updates
 		## TODO: https://stackoverflow.com/questions/6042308/numpy-inverting-an-upper-triangular-matrix
-		N = pdf(size=(n, ns))  # 'new' vectors
+		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
 			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
-- 
2.43.0


From 8b6df0c164698d01c7f909b96a2d3478c3dfe35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 15/34] fix: the xtrace callback received an empty result

---
 src/primate/trace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 728dba5..96db881 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -307,6 +307,8 @@ def xtrace(
 		## Test for convergence
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		result.estimator, result.criterion = estimator, converge
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		callback(result)
 
 	result.estimator = estimator
-- 
2.43.0


From 63b5db0c90a779de1bb69511c0fed92b6bc88496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 16/34] fix: hutchpp divided by zero on operators with fewer
 than three rows

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 96db881..3863fe0 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -149,7 +149,7 @@ def hutchpp(
 		return 0.0 if not full else (0.0, EstimatorResult())
 
 	## Setup constants
-	nb = (N // 3) if m is None else m  # number of samples to dedicate to deflation
+	nb = max(N // 3, 1) if m is None else m  # number of samples to dedicate to deflation
 	nb += nb % 3  # ensure nb divides by 3
 	# maxiter: int = (N // 3) if maxiter == "auto" else int(maxiter)  # residual samples; default rule uses Hutch++ result
 	# assert nb % 3 == 0, "Number of samples must be divisible by 3"
-- 
2.43.0


From 479f38c2835a62d7c39325660b098f63985f4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 17/34] fix: hutchpp(full=True) failed on operators with a
 quadratic form of their own

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 3863fe0..700f99b 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -164,7 +164,7 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
-- 
2.43.0


From 6f21ab6a6e26ae8b35f673fd23e5bd3eb90bfbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 18/34] fix: hutchpp and diag rejected the callable
 distributions they document

---
 src/primate/diagonal.py | 2 +-
 src/primate/trace.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0c7f167..bb9b06a 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -58,7 +58,7 @@ def diag(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(dim=N, covariance=False, record=record)
 	converge = convergence_criterion(converge, **kwargs)
 
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 700f99b..26ced94 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -138,7 +138,7 @@ def hutchpp(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 
 	## Prepare quadratic form evaluator
 	# quad_form = (lambda v: A.quad(v)) if hasattr(A, "quad") else (lambda v: (v.T @ (A @ v)).item())
-- 
2.43.0


From 5ed1196e420bb8e5bd1dfce332a0d651597b2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 19/34] fix: symmetric(pd=True) did not clip the given
 eigenvalues

---
 src/primate/random.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/random.py b/src/primate/random.py
index 7ee99fa..d98a390 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -175,6 +175,7 @@ def symmetric(
 	if ew is None:
 		ew = rng.uniform(size=n, low=0.0 if pd else -1.0, high=1.0)
 	ew = np.atleast_1d(ew)
+	ew = np.maximum(ew, np.finfo(np.float64).eps) if pd else ew
 	A = Q @ np.diag(ew) @ Q.T
 	A = (A + A.T) / 2
 	return A
-- 
2.43.0


From f79e8956d0d83bed706244c377661b59e182d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 20/34] fix: MatrixFunction evaluated the function on rows of
 the Jacobi matrix Lanczos never reached

---
 src/primate/operators.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 300f49f..8a8d8aa 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -95,6 +95,11 @@ class MatrixFunction(LinearOperator):
 		assert out.shape[-1] == self.shape[0], "Last dimension of output must match number of rows."
 		self._fun = value
 
+	def _krylov_dim(self) -> int:
+		"""Number of Lanczos vectors the last run produced, which is less than `deg` if it hit an invariant subspace."""
+		stop = np.flatnonzero(self._beta[1 : self._deg] < np.sqrt(self.shape[0]) * self._rtol)
+		return self._deg if len(stop) == 0 else int(stop[0]) + 1
+
 	def _adjoint(self):
 		return self
 
@@ -118,9 +123,10 @@ class MatrixFunction(LinearOperator):
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
-		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
+		k = self._krylov_dim()
+		rw, Y = eigh_tridiag(self._alpha[:k], self._beta[1:k])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
@@ -146,8 +152,10 @@ class MatrixFunction(LinearOperator):
 			x_norm_sq = np.linalg.norm(xc) ** 2
 			self._Q.fill(0)  # vectors of a previous run must not be orthogonalized against
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
-			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
-			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
+			k = self._krylov_dim()
+			nodes, weights = self._nodes[:k], self._weights[:k]
+			quadrature(self._alpha, self._beta, deg=k, quad="gw", nodes=nodes, weights=weights)
+			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
 		return y
 
 
-- 
2.43.0


From 4ffbb2a4dfcb7c80d73dae8658f237cb9c6302b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 21/34] fix: lanczos(dtype=...) returned zeros when the
 precision differed from that of the operator

---
 src/primate/lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index d641026..89c6140 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -83,6 +83,7 @@ def lanczos(
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
+	f_dtype = f_dtype if dtype is None else np.dtype(dtype)  # the outputs must match the precision of the run
 
 	## Determine number of projections + lanczos vectors
 	orth: int = deg if orth < 0 or orth > deg else orth
-- 
2.43.0


From 0503f4ebedfafb474e9c0e09d906171e3878c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 22/34] fix: xtrace returned NaN for the empty matrix

---
 src/primate/trace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 26ced94..99c784f 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -275,6 +275,10 @@ def xtrace(
 		converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
+	## Catch degenerate case
+	if np.prod(A.shape) == 0:
+		return 0.0 if not full else (0.0, EstimatorResult(estimator, converge))
+
 	## Setup outputs. TODO: these should really be resizable arrays
 	W = np.zeros(shape=(n, 0), order="F")  # Isotropic vectors
 	Y = np.zeros(shape=(n, 0))  # Im(A @ W)
-- 
2.43.0


From 4a1c48ed718ad0846828f9c9ecdf9a51c597ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 23/34] fix: ToleranceCriterion raised for estimators with a
 scalar delta

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index fb7342d..fa67db1 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -231,7 +231,7 @@ class ToleranceCriterion(ConvergenceCriterion):
 	def __call__(self, est: Estimator) -> bool:
 		if est.estimate is None:
 			return False
-		error = np.linalg.norm(est.delta, ord=self.ord)
+		error = np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord)
 		estimate = np.atleast_1d(est.estimate)
 		return bool(error < self.atol or error < self.rtol * np.linalg.norm(estimate, ord=self.ord))
 
-- 
2.43.0


From 55e53abe8738056c55d484577e0c29e20a15db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 24/34] fix: xtrace on a 1 x 1 operator

---
 src/primate/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 99c784f..f92d61d 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -300,7 +300,10 @@ def xtrace(
 		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
-			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
+			if Q.shape[1] == 0:  # qr_insert does not grow an empty factorization of a single row
+				Q, R = np.linalg.qr(Y[:, [j]], mode="reduced")
+			else:
+				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
 			R_inv = update_trinv(R_inv, R[:, -1])
 		W = np.c_[W, N]
 		Z = np.c_[Z, A @ Q[:, -ns:]]
-- 
2.43.0


From 028e5fbbec0070aa8b95d1259a2a731e585014d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 25/34] fix: tqli skipped the end of a sweep whose last
 rotation had a zero intermediate value

---
 src/primate/tqli.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 75692d2..127b2d4 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -80,10 +80,9 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 							f = Z[k][i + 1]
 							Z[k][i + 1] = s * Z[k][i] + c * f
 							Z[k][i] = c * Z[k][i] - s * f
-				if r == 0.0 and i >= it:
-					continue
-				d[it] -= p
-				e[it] = g
-				e[m] = 0.0
+				else:  # all rotations were applied (r may be zero here, too)
+					d[it] -= p
+					e[it] = g
+					e[m] = 0.0
 			if m == it:
 				break
-- 
2.43.0


From 404a04f0e654e037f2257ced0159d8abb0af04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 26/34] fix: the normal confidence interval of a constant
 sample was NaN

---
 src/primate/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 2216d0c..84eddd6 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -108,7 +108,8 @@ def confidence_interval(a: np.ndarray, confidence: float = 0.95, sdist: str = "t
 	elif sdist == "normal":
 		sq_n = np.sqrt(len(a))
 		mean, std = np.mean(a), np.std(a, ddof=1)
-		return sp.stats.norm.interval(confidence, loc=mean, scale=std / sq_n)
+		m = sp.stats.norm.ppf((1 + confidence) / 2.0)  # norm.interval is NaN for a scale of zero
+		return mean - m * std / sq_n, mean + m * std / sq_n
 	else:
 		raise ValueError(f"Unknown sampling distribution '{sdist}'.")
 
-- 
2.43.0


From 342fdcc48f85cbca19c5c560a773ce6fdcb33565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 27/34] fix: normalize_unit failed for operators of dimension
 one

---
 src/primate/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 8a8d8aa..1c7ce74 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -194,7 +194,10 @@ def normalize_unit(A: LinearOperator, interval: tuple = (-1, 1)) -> LinearOperat
 	"""Normalizes a linear operator to have its spectra contained in the interval [-1,1]."""
 	A = aslinearoperator(A) if not isinstance(A, LinearOperator) else A
 	assert isinstance(A, LinearOperator), "A must be a linear operator"
-	alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False).item()
+	if A.shape[0] == 1:  # eigsh needs k < n
+		alpha = (A @ np.ones(1)).item()
+	else:
+		alpha = eigsh(A, k=1, which="LM", return_eigenvectors=False).item()
 	I_op = IdentityOperator(A.shape)
 	# np.diff(interval)
 	return (A + alpha * I_op) / (2 * alpha)
-- 
2.43.0


From 96719d965325f8c7f9e060af5dff79e8f743922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 28/34] fix: is_linear_op raised for objects whose shape is not
 a sequence

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 1c7ce74..a7c4de3 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -28,7 +28,7 @@ def is_linear_op(A: Any) -> bool:
 	attr_checks = [hasattr(A, "__matmul__"), hasattr(A, "matmul"), hasattr(A, "dot"), hasattr(A, "matvec")]
 	is_valid_op = True
 	is_valid_op &= any(attr_checks)  # , "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
-	is_valid_op &= hasattr(A, "shape") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
+	is_valid_op &= hasattr(A, "shape") and hasattr(A.shape, "__len__") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
 	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
 	return is_valid_op
 
-- 
2.43.0


From de92634961e163cb838462bac285796a9ab5d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 29/34] fix: copy the product of a Python operator with its
 strides, checking its length

A matvec returning a strided or reversed view was copied as if contiguous,
which gave wrong Lanczos coefficients and read outside its buffer.
---
 src/primate/include/pylinop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 6f3d39f..2e90639 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -33,8 +33,9 @@ struct PyLinearOperator {
     auto ts = hr_clock::now(); 
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
-    py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
+    auto output = matvec_out.cast< py_array< F > >(); // contiguous: the product may be a strided view
     // std::copy(output.data(), output.data() + output.size(), out);
+    if (static_cast< size_t >(output.size()) != _shape.first) { throw std::invalid_argument("Operator returned a vector of the wrong length."); }
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
   }
-- 
2.43.0


From 8d4dc2fe6ddac3fe31c7991e4f2e57db82ce26b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 30/34] fix: isotropic(pdf='rademacher') could not fill a
 single-precision array

Generator.random defaults to float64 and rejects a float32 out; the other distributions pass the dtype of the array.
---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index d98a390..43b65e7 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -20,7 +20,7 @@ _ISO_DISTRIBUTIONS = {
 
 ## NOTE: It's 2-3x faster to use the four ufuncs below than sign
 def _rademacher_inplace(rng: np.random.Generator, out: np.ndarray) -> None:
-	rng.random(out=out)
+	rng.random(out=out, dtype=out.dtype)
 	# np.subtract(out, 0.5, out=out)
 	# np.sign(out, out=out)
 	np.multiply(out, 2, out=out)  # [0, 2]
-- 
2.43.0


From a36676d4eca55265041b40d0f2a14cfe6c5a70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 31/34] fix: quadrature ignored an output array given without
 the other

---
 src/primate/integrate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index d562ba1..3097b2f 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -69,8 +69,10 @@ def quadrature(
 		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
-	if nodes is not None and weights is not None:
-		assert len(nodes) == deg and len(weights) == deg, "`nodes` and `weights` output arrays must be `deg` in length."
+	assert nodes is None or len(nodes) == deg, "`nodes` output array must be `deg` in length."
+	assert weights is None or len(weights) == deg, "`weights` output array must be `deg` in length."
+	if nodes is not None:
 		np.copyto(nodes, theta)
+	if weights is not None:
 		np.copyto(weights, tau)
 	return theta, tau
-- 
2.43.0


From 0ac6c98677eed8c6114c09e3dd5284175bcf8950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:13 +0000
Subject: [PATCH 32/34] fix: MeanEstimator recorded views of the caller's array
 instead of the samples

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index fa67db1..aac1100 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -138,7 +138,7 @@ class MeanEstimator(Estimator):
 			self.delta = self._mean.mu - old_mu
 		self.n_samples += x.shape[0]
 		if self.values is not None:
-			self.values.extend(x)
+			self.values.extend(x.copy())
 
 	@property
 	def estimate(self) -> Union[float, np.ndarray]:
-- 
2.43.0


From 06cb954fda31aa5e556c8ea56d6b87e28df800fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 33/34] fix: isotropic returned a vector, not a column, for a
 numpy integer size

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 43b65e7..0a9f76c 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -72,7 +72,7 @@ def isotropic(
 		iso = _ISO_FUNCS[pdf]
 
 		def _isotropic(size: Union[int, tuple]):
-			size = (size, 1) if isinstance(size, int) else size
+			size = (size, 1) if isinstance(size, (int, np.integer)) else size
 			W = np.empty(shape=size, dtype=np.float64, order="F")
 			iso(rng, out=W)
 			return W
-- 
2.43.0


From 3fb1deff9a6ddf06275f0cf79674aaadba4b1388 Mon Sep 17 00:00:00 2001
From: verifier <v@localhost>
Date: Fri, 20 Nov 2026 05:37:15 +0000
Subject: [PATCH 34/34] fix: empty batches left the running mean and covariance
 NaN

---
 src/primate/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 84eddd6..2303551 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -29,6 +29,8 @@ class Mean:
 		X = np.atleast_1d(X)
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
+		if X.shape[0] == 0:
+			return  # nothing to add
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
@@ -72,6 +74,8 @@ class Covariance(Mean):
 		X = np.atleast_1d(X)
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
+		if X.shape[0] == 0:
+			return  # nothing to add
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
-- 
2.43.0

