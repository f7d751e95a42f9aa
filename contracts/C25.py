"""Diagonal estimator: the loop is verified against the contract of MeanEstimator (C03), an arbitrary sampler and an arbitrary operator."""
FUNCTIONS = ["diagonal.diag", "operators.is_valid_operator", "random.isotropic", "estimators.CountCriterion.__call__", "estimators.convergence_criterion"]
BOUNDS = {"extra_reference": "operators up to 7x7, all criteria, up to 60 iterations"}
ASSUMPTIONS = ["callers of MeanEstimator are verified against its contract (estimate = sum of the samples / their number), which C03 discharges on its code",
               "no entry of the accumulated squares is zero (the ratio is defined)"]
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]

def _ghost_mean(v):
    """contract of estimators.MeanEstimator for rows of vector samples"""
    np = v.np
    class MeanEstimator:
        def __init__(self, dim=1, covariance=False, record=False): self.dim, self.covariance, self.record = dim, covariance, record; self.total = np.zeros(dim); self.n_samples = 0
        def update(self, x): self.total = self.total + np.sum(np.atleast_2d(x), axis=0); self.n_samples = self.n_samples + np.atleast_2d(x).shape[0]
        def __len__(self): return self.n_samples
        @property
        def estimate(self): return self.total / self.n_samples
        mean = estimate
    return MeanEstimator
def _load(v):
    if v.sym: v.contract("estimators", "MeanEstimator", _ghost_mean(v))
    return v.mod("diagonal").diag, v.mod("estimators")
class CB:
    def __init__(self): self.runs = 0
    def __call__(self, r): self.runs += 1
OUT = {"plain": {}, "full": {"full": True}, "callback": {"callback": 1}, "both": {"full": True, "callback": 1}}
def _call(v, diag, A, out, **k):
    kw = dict(OUT[out]); cb = CB()
    if "callback" in kw: kw["callback"] = cb
    r = diag(A, **kw, **k); est, res = (r, None) if out == "plain" else r
    if res is not None: v.eq("result carries the estimate", res.estimate, est)
    return est, res, cb
def _samples(v, P, n, K, B):
    """accumulated products and squares of the first t+1 vectors"""
    num = lambda t, i: v.sum(0, t + 1, lambda s: P.draw(s, n)[i] * v.sum(0, n, lambda j: v.at(B, i, j) * P.draw(s, n)[j]))
    den = lambda t, i: v.sum(0, t + 1, lambda s: P.draw(s, n)[i] * P.draw(s, n)[i])
    return num, den

def ob_loop(v):
    diag, E = _load(v); n, c = v.dim("n", 1, 6), v.dim("count", 1, 7); A = v.array("A", n, n); B = v.copy(A); P = v.sampler(); out = v.choice("output", list(OUT))
    crit = v.choice("criterion", [lambda: (E.CountCriterion(c), {}), lambda: ("count", {"count": c})])()
    est, res, cb = _call(v, diag, A, out, pdf=P, converge=crit[0], **crit[1]); K = P.calls
    v.eq("exactly the count", K, c); num, den = _samples(v, P, n, K, B)
    i = v.dim("i", 0, 5); v.assume(i < n)
    v.eq("mean of the running ratios", v.np.ravel(est)[i] * K, v.sum(0, K, lambda t: num(t, i) / den(t, i)))
    if "callback" in OUT[out]: v.eq("callback once per iteration", cb.runs, K)
    v.unchanged("operator not modified", A, B)

def ob_criterion(v):
    """any criterion: stops as soon as it holds, whatever is returned"""
    diag, E = _load(v); n = v.dim("n", 1, 4); A = v.array("A", n, n); B = v.copy(A); P = v.sampler(); out = v.choice("output", list(OUT))
    S = (lambda est: v.boolfn("stop", v.len(est))) if v.sym else (lambda est: v.boolfn("stop", len(est)) or len(est) > 20)
    F = lambda k: type("F", (), {"__len__": lambda s: k, "n_samples": k})()
    v.assume(v.boolfn("stop", 0) == False)
    est, res, cb = _call(v, diag, A, out, pdf=P, converge=E.ConvergenceCriterion(S)); K = P.calls; num, den = _samples(v, P, n, K, B)
    v.true("holds at the end", S(F(K))); i = v.dim("i", 0, 5); v.assume(i < n); v.eq("value", v.np.ravel(est)[i] * K, v.sum(0, K, lambda t: num(t, i) / den(t, i)))
    k = v.dim("k", 1, 8); v.assume(k < K); v.held(k); v.true("not before", v.b(S(F(k))) == False)

def ob_diagonal(v):
    """exact after any number of iterations when the matrix is diagonal"""
    diag, E = _load(v); n, c = v.dim("n", 1, 6), v.dim("count", 1, 6); d = v.array("d", n); A = v.arr((n, n), lambda i, j: v.ite(i == j, v.at(d, i), 0.0)); P = v.sampler()
    est = diag(A, pdf=P, converge=E.CountCriterion(c)); v.eq("diagonal", v.np.ravel(est), d)

def ob_stream(v):
    """the vectors are consecutive draws of the requested distribution for the seed"""
    diag, E = _load(v); n = v.dim("n", 1, 6); pdf = v.choice("pdf", PDFS); s = v.seed(); A = v.array("A", n, n); B = v.copy(A); two = v.choice("iterations", [1, 2]); out = v.choice("output", ["plain", "full"])
    iso = v.mod("random").isotropic; g = v.np.random.default_rng(s); W = [iso((n, 1), pdf=pdf, seed=g) for _ in range(two)]
    est = _call(v, diag, A, out, pdf=pdf, seed=s if v.choice("seed as", ["number", "generator"]) == "number" else v.np.random.default_rng(s), converge=E.CountCriterion(two))[0]
    i = v.dim("i", 0, 5); v.assume(i < n); num = den = tot = 0.0
    for w in W:
        num = num + v.at(w, i, 0) * v.sum(0, n, lambda j: v.at(B, i, j) * v.at(w, j, 0)); den = den + v.at(w, i, 0) * v.at(w, i, 0); tot = tot + num / den
    v.eq("mean of the ratios", v.np.ravel(est)[i] * two, tot)

def ob_reject(v):
    diag = v.mod("diagonal").diag; n, m = v.dim("n", 1, 5), v.dim("m", 1, 5); P = v.sampler(); np = v.np
    if n != m: v.raises("not square", lambda: diag(v.array("A", n, m), pdf=P), AssertionError)
    else:
        v.raises("not floating", lambda: diag(v.np.zeros((n, n), dtype=v.choice("dtype", [np.int64, np.bool_])), pdf=P), AssertionError)
        v.raises("one-dimensional", lambda: diag(v.array("x", n), pdf=P), AssertionError)
    v.eq("nothing drawn", P.calls, 0)

def extra_reference(v):
    np = v.np; diag = v.mod("diagonal").diag; E = v.mod("estimators"); n = v.rnd.randint(1, 7); pdf = v.rnd.choice(PDFS); s = v.seed(); dt = v.rnd.choice([np.float64, np.float32])
    A = v.array("A", n, n).astype(dt); A0 = A.copy(); out = v.rnd.choice(list(OUT)); name, kw = v.rnd.choice([("count", {"count": v.rnd.randint(1, 40)}), ("tolerance", {"atol": .2, "rtol": .05}), ("default", {})])
    ref = E.convergence_criterion("tolerance" if name == "default" else name, **kw) | E.CountCriterion(60); iso = v.mod("random").isotropic; g = np.random.default_rng(s); M = E.MeanEstimator(dim=n); num = np.zeros(n); den = np.zeros(n)
    est, res, cb = _call(v, diag, A, out, seed=s, converge=ref, **({} if pdf == "rademacher" and v.rnd.random() < .5 else {"pdf": pdf})); k = 0
    while not ref(M):
        w = iso((n, 1), pdf=pdf, seed=g).ravel(); num += w * (A @ w.astype(dt)); den += w * w; M.update(np.atleast_2d(num / den)); k += 1
    if dt == np.float64: v.eq("estimate", est, M.estimate, tol=1e-6); v.true("callbacks", "callback" not in OUT[out] or cb.runs == k)
    v.unchanged("operator", A, A0)

def extra_scale(v):
    np = v.np; f = v.mod("diagonal").diag; n = v.rnd.randint(1, 7); A = v.array("A", n, n); s = v.seed(); c = 10.0 ** v.rnd.choice([-10, -6, -4, 4, 8]) * v.rnd.choice([-1, 1]); kw = dict(pdf=v.rnd.choice(PDFS), seed=s, converge="count", count=v.rnd.randint(1, 20)); v.eq("scales with the operator", f(c * A, **kw) / c, f(A, **kw), tol=1e-6)
    d = v.rng.normal(size=n) * 10.0 ** v.rng.integers(-8, 8, size=n); v.true("exact for a diagonal matrix", bool(np.allclose(f(np.diag(d), **kw), d, rtol=1e-9, atol=0)))
BOUNDS["extra_scale"] = "matrices up to 7x7 at scales 1e-10 to 1e8; diagonal matrices with entries of mixed sizes"

def extra_sizes(v):
    """many samples, large operators"""
    np = v.np; f = v.mod("diagonal").diag; n = v.big("n", 1, 300); c = v.big("count", 1, 1500 if n < 20 else 30); A = v.rng.normal(size=(n, n)) / np.sqrt(n) + 2 * np.eye(n); s = v.seed(); pdf = v.rnd.choice(PDFS); g = np.random.default_rng(s); iso = v.mod("random").isotropic; num, den, tot = np.zeros(n), np.zeros(n), np.zeros(n)
    d = f(A, pdf=pdf, seed=s, converge="count", count=c, **(kw := v.rnd.choice([{}, {"full": True}, {"callback": id}]))); d = d[0] if kw else d
    for _ in range(c): w = iso((n, 1), pdf=pdf, seed=g).ravel(); num += w * (A @ w); den += w * w; tot += num / den
    v.eq("estimate", np.ravel(d), tot / c, tol=1e-6); d0 = np.copy(d); f(-A, pdf=pdf, seed=s, converge="count", count=2); v.true("earlier results are kept", np.array_equal(d, d0))
BOUNDS["extra_sizes"] = "operators up to 300x300, up to 1500 samples"

def extra_again(v):
    """an operator that is overwritten between two calls stands for its values at each"""
    np = v.np; f = v.mod("diagonal").diag; n = v.rnd.randint(2, 8); A, B = (v.rng.normal(size=(n, n)) + 2 * np.eye(n) for _ in "ab"); A, B = A + A.T, B + B.T; s = v.seed(); kw = v.rnd.choice([{"converge": "count", "count": 3}, {"converge": "count", "count": 20, "pdf": "normal"}]); A0 = A.copy(); r0 = f(A0, seed=s, **kw); op = v.rnd.choice([lambda: A, lambda: v.linop(A)])(); v.eq("first", f(op, seed=s, **kw), r0); A[...] = B; v.eq("second", f(op, seed=s, **kw), f(B.copy(), seed=s, **kw)); v.eq("first again", f(A0, seed=s, **kw), r0)
BOUNDS["extra_again"] = "matrices up to 8x8"
