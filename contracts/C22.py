"""Girard-Hutchinson: the loop is verified against the contract of MeanEstimator (C02, C03), an arbitrary sampler and an arbitrary operator."""
FUNCTIONS = ["trace.hutch", "operators.is_valid_operator", "random.isotropic", "estimators.CountCriterion.__call__", "estimators.convergence_criterion"]
BOUNDS = {"extra_reference": "operators up to 7x7, all criteria, up to 200 samples"}
ASSUMPTIONS = ["callers of MeanEstimator are verified against its contract (estimate = sum of the samples / their number), which C02 and C03 discharge on its code"]
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]

def _ghost_mean(v):
    """contract of estimators.MeanEstimator for scalar samples"""
    np = v.np
    class MeanEstimator:
        def __init__(self, dim=1, covariance=False, record=False): self.dim, self.covariance, self.record = dim, covariance, record; self.total = 0.0; self.n_samples = 0; self.batches = 0
        def update(self, x):
            x = np.ravel(x); self.total = self.total + np.sum(x); self.n_samples = self.n_samples + v.len(x); self.batches = self.batches + 1
        def __len__(self): return self.n_samples
        @property
        def estimate(self): return self.total / self.n_samples
        mean = estimate
    return MeanEstimator
def _op(v, M):
    """an operator with its own quadratic form (here: twice v'Mv, so that it is seen which form is used)"""
    np = v.np
    class Op:
        def __init__(self): self.shape, self.dtype = M.shape, M.dtype
        def __matmul__(self, X): return M @ X
        def matvec(self, X): return M @ X
        def quad(self, X): return np.einsum("...i,...i->...", X.T, (M @ X).T) * 2.0
    return Op()
def _operator(v, n):
    M = v.array("A", n, n); k = v.choice("operator", ["dense", "quad"]); B = v.copy(M)
    q = lambda V, j: v.sum(0, n, lambda a: v.sum(0, n, lambda b: v.at(V, a, j) * v.at(B, a, b) * v.at(V, b, j))) * (2.0 if k == "quad" else 1.0)
    return (_op(v, M) if k == "quad" else M), M, q
class CB:
    def __init__(self, v=None): self.runs, self.v = 0, v
    def __call__(self, r):
        self.runs += 1
        if self.v: self.v.eq("callback: samples so far", r.nit, r.estimator.n_samples); self.v.eq("callback: estimate so far", r.estimate, r.estimator.estimate)
def _load(v):
    if v.sym: v.contract("estimators", "MeanEstimator", _ghost_mean(v))
    return v.mod("trace").hutch, v.mod("estimators")

def ob_loop(v):
    """full result or callback: any operator, any sampler, any batch size and count"""
    hutch, E = _load(v); n, b, c = v.dim("n", 1, 6), v.dim("batch", 1, 5), v.dim("count", 1, 14); A, M, q = _operator(v, n); A0 = v.copy(M); P = v.sampler()
    crit = v.choice("criterion", [lambda: (E.CountCriterion(c), {}), lambda: ("count", {"count": c})])(); cb = CB(v); out = v.choice("output", ["full", "callback", "both"])
    est, res = hutch(A, batch=b, pdf=P, converge=crit[0], full=out != "callback", callback=None if out == "full" else cb, **crit[1])
    K = P.calls; cnt = res.nit
    v.eq("whole batches", cnt, K * b); v.true("at least the count", cnt >= c); v.true("less than one batch more", cnt < c + b)
    S = v.sum(0, K, lambda k: v.sum(0, b, lambda j: q(P.draw(k, n, b), j)))
    v.eq("mean of the quadratic forms", est * cnt, S); v.eq("result carries the estimate", res.estimate, est); v.true("result carries the estimator", v.len(res.estimator) == cnt)
    if out != "full": v.eq("callback once per batch", cb.runs, K)
    v.unchanged("operator not modified", M, A0)

def ob_plain(v):
    """without full result and callback: exactly the count (one vector at a time)"""
    hutch, E = _load(v); n, b, c = v.dim("n", 1, 6), v.dim("batch", 1, 5), v.dim("count", 1, 14); A, M, q = _operator(v, n); A0 = v.copy(M); P = v.sampler()
    est = hutch(A, batch=b, pdf=P, converge=E.CountCriterion(c)); K = P.calls
    if v.sym: v.true("at least the count", K >= c); v.true("less than one batch more", K < c + b); v.eq("mean", est * K, v.sum(0, K, lambda k: q(P.draw(k, n, 1), 0)))
    else:
        qs = [q(W, j) for W in P.log for j in range(W.shape[1])]; v.true("count", c <= len(qs) < c + b); v.eq("mean", est * len(qs), sum(qs))
    v.unchanged("operator not modified", M, A0)

def ob_criterion(v):
    """any criterion: sampling stops after the first batch at which it holds, and only then"""
    hutch, E = _load(v); n, b = v.dim("n", 1, 4), v.dim("batch", 1, 4); A, M, q = _operator(v, n); P = v.sampler()
    B = lambda est: v.boolfn("stop", v.len(est)) if v.sym else v.boolfn("stop", len(est)) or len(est) > 60
    est, res = hutch(A, batch=b, pdf=P, converge=E.ConvergenceCriterion(B), full=True) if v.choice("first", ["no", "yes"]) == "no" and v.assume(v.boolfn("stop", 0) == False) is None else (None, None)
    if est is None: return
    K = P.calls; v.true("stops when it holds", B(res.estimator)); v.eq("samples", res.nit, K * b)
    k = v.dim("k", 1, 8); v.assume(k < K); v.held(k)
    F = E.MeanEstimator(); F.n_samples = k * b; v.true("not before", v.b(B(F)) == False)

def ob_stream(v):
    """the vectors are those of the requested distribution, consecutive draws of one generator for the seed"""
    hutch, E = _load(v); n, b, c = v.dim("n", 1, 6), v.dim("batch", 1, 5), 0; pdf = v.choice("pdf", PDFS); s = v.seed(); two = v.choice("batches", [1, 2])
    A, M, q = _operator(v, n); iso = v.mod("random").isotropic; g = v.np.random.default_rng(s); W = [iso((n, b), pdf=pdf, seed=g) for _ in range(two)]
    est, res = hutch(A, batch=b, pdf=pdf, seed=s if v.choice("seed as", ["number", "generator"]) == "number" else v.np.random.default_rng(s), converge=E.CountCriterion(b * (two - 1) + 1), full=True)
    v.eq("samples", res.nit, two * b); v.eq("mean", est * two * b, sum(v.sum(0, b, lambda j, w=w: q(w, j)) for w in W))
    if two == 1:
        g = v.np.random.default_rng(s); W = iso((n, 1), pdf="rademacher", seed=g); e1 = hutch(M, seed=s, converge=E.CountCriterion(1), batch=1, full=True)[0]
        B = v.copy(M); v.eq("default distribution", e1, v.sum(0, n, lambda i: v.sum(0, n, lambda j: v.at(W, i, 0) * v.at(B, i, j) * v.at(W, j, 0))))

def ob_default(v):
    """the default criterion: 200 samples, or a 95 percent half-width of 1"""
    E = v.mod("estimators"); hutch = v.mod("trace").hutch; Z = v.np.zeros((0, 0)); k = v.choice("keywords", [{}, {"rtol": 0.1, "atol": 0.0}, {"count": 7, "confidence": 0.5}, {"record": True, "batch": 5, "pdf": "normal", "seed": 3}])
    r = hutch(Z, full=True, **k); C = r[1].criterion
    n = v.dim("n", 0, 260); F = E.MeanEstimator(covariance=True)
    v.eq("nothing sampled", C(F), False)
    if not n >= 1: return
    if not v.sym and v.choice("scale", [0, 1]): X = v.array("X", n) * (v.np.sqrt(n) / 2)
    else: X = v.array("X", n)
    F.update(X)
    if not n >= 3: v.eq("few samples", C(F), False); return
    mu = v.sum(0, n, lambda i: v.at(X, i)) / n; var = v.sum(0, n, lambda i: (v.at(X, i) - mu) * (v.at(X, i) - mu)) / (n - 1)
    score = v.ite(n < 30, v.fn("t.ppf", (0.95 + 1) / 2, n - 1), v.sqrt(2) * v.fn("erfinv", 0.95)); moe = score * (v.sqrt(var) / v.sqrt(n))
    if not v.sym and abs(moe - 1) < 1e-9: return
    v.eq("verdict", C(F), (n >= 200) | (moe <= 1) | (v.abs(v.sqrt(var) / v.sqrt(n) / mu) <= 0))

def ob_empty(v):
    hutch = v.mod("trace").hutch; sh = v.choice("shape", [(0, 0)]); Z = v.np.zeros(sh); P = v.sampler()
    v.eq("value", hutch(Z, pdf=P), 0.0); e, r = hutch(Z, pdf=P, full=True); v.eq("full value", e, 0.0); v.eq("result", r.estimate, 0.0); v.eq("nothing drawn", P.calls, 0)

def ob_reject(v):
    hutch = v.mod("trace").hutch; n, m = v.dim("n", 1, 5), v.dim("m", 1, 5); P = v.sampler(); np = v.np
    if n != m: v.raises("not square", lambda: hutch(v.array("A", n, m), pdf=P), AssertionError)
    else:
        v.raises("not floating", lambda: hutch(v.np.zeros((n, n), dtype=v.choice("dtype", [np.int64, np.bool_])), pdf=P), AssertionError)
        v.raises("one-dimensional", lambda: hutch(v.array("x", n), pdf=P), AssertionError)
        v.raises("no product", lambda: hutch([[1.0]], pdf=P), AssertionError)
    v.eq("nothing drawn", P.calls, 0)

def extra_reference(v):
    """all criteria against a reference loop on the real code (bounded)"""
    np = v.np; hutch = v.mod("trace").hutch; E = v.mod("estimators"); n = v.rnd.randint(1, 7); b = v.rnd.randint(1, 40); pdf = v.rnd.choice(PDFS); s = v.seed()
    A = v.array("A", n, n) * v.rnd.choice([.1, 1, 10]); A = A.astype(v.rnd.choice([np.float64, np.float32])); A0 = A.copy()
    if A.dtype == np.float32: crit = ("count", {"count": v.rnd.randint(1, 90)})     # (rounding may move the other criteria across their thresholds)
    else: crit = v.rnd.choice([("default", {}), ("count", {"count": v.rnd.randint(1, 90)}), ("tolerance", {"atol": .3, "rtol": .05}), ("confidence", {"confidence": .9, "atol": .8, "rtol": .1}), ("knee", {"S": 1.0, "record": True})])
    full = v.rnd.random() < .6; calls = []; ref = E.convergence_criterion(crit[0], **{k: x for k, x in crit[1].items() if k != "record"}) if crit[0] != "default" else E.CountCriterion(200) | E.ConfidenceCriterion(.95, 1.0, 0.0)
    ref = ref | E.CountCriterion(400); got = hutch(A, batch=b, pdf=pdf, seed=s, converge=ref if v.rnd.random() < .5 and crit[0] != "knee" or crit[0] in ("tolerance", "confidence") else crit[0], full=full, callback=(lambda r: calls.append((r.nit, r.estimate))) if full else None, **({k: x for k, x in crit[1].items()} if crit[0] in ("count", "knee") else {})) if crit[0] != "knee" else (hutch(A, batch=b, pdf=pdf, seed=s, converge=ref, full=full, callback=(lambda r: calls.append((r.nit, r.estimate))) if full else None, record=True))
    g = np.random.default_rng(s); M = E.MeanEstimator(covariance=True, record=True); iso = v.mod("random").isotropic; bs = b if full else 1; xs = []; nb = 0
    while not ref(M): W = iso((n, bs), pdf=pdf, seed=g).astype(A.dtype); x = np.array([w @ A @ w for w in W.T]); xs += list(x); M.update(x); nb += 1
    v.eq("estimate", got[0] if full else got, np.mean(xs), tol=1e-4 if A.dtype == np.float32 else 1e-7); v.unchanged("operator", A, A0)
    if full: v.eq("callbacks", len(calls), nb); v.true("what the callbacks see", [k for k, _ in calls] == [bs * (j + 1) for j in range(nb)] and np.allclose([float(m) for _, m in calls], [np.mean(xs[:k]) for k, _ in calls], rtol=1e-4 if A.dtype == np.float32 else 1e-7, atol=1e-4 * np.abs(xs).max() if A.dtype == np.float32 else 1e-9)); v.eq("samples", got[1].nit, len(xs)); v.eq("result estimate", got[1].estimate, got[0])

def extra_scale(v):
    """the default criterion is absolute, whatever the size of the mean; the estimate scales with the operator"""
    np = v.np; hutch = v.mod("trace").hutch; E = v.mod("estimators"); n = v.rnd.randint(2, 6); s = v.seed(); c = 10.0 ** v.rnd.choice([-6, -4, 2, 4, 6]); A = np.diag(v.rng.uniform(.5, 1, size=n)) + 1e-3 * v.rng.normal(size=(n, n)); iso = v.mod("random").isotropic
    k = v.rnd.randint(1, 40); v.eq("scaled", hutch(c * A, converge="count", count=k, seed=s) / c, hutch(A, converge="count", count=k, seed=s)); B = v.rnd.choice([c, 1e3]) * A; _, r = hutch(B, seed=s, batch=1, full=True); xs = []; g = np.random.default_rng(s); M = E.MeanEstimator(covariance=True); stop = E.ConfidenceCriterion(.95, 1.0, 0.0)
    while len(xs) < 200 and not (len(xs) and stop(M)): w = iso((n, 1), pdf="rademacher", seed=g); xs.append((w.T @ B @ w).item()); M.update(np.array(xs[-1:]))
    v.eq("stops by the absolute half-width", r.nit, len(xs))
BOUNDS["extra_scale"] = "matrices up to 6x6 at scales 1e-6 to 1e6"

def extra_own_form(v):
    """the operator's own quadratic form is used, whatever kind of object the operator is"""
    np = v.np; from scipy.sparse.linalg import LinearOperator; n = v.rnd.randint(1, 6); A = v.array("A", n, n); s = v.seed(); k = v.rnd.randint(1, 9)
    def quad(self, X): X = X.reshape(n, -1); return np.cos(X[0]) + 2 * X[-1] ** 3
    class L(LinearOperator):
        def __init__(self): super().__init__(np.dtype(float), (n, n))
        def _matvec(self, x): return A @ x
    class P:
        shape, dtype = A.shape, A.dtype
        def matvec(self, x): return A @ x
        def __matmul__(self, x): return A @ x
    class D(np.ndarray): pass
    class I(P): pass
    W = v.mod("random").isotropic((n, k), pdf="normal", seed=np.random.default_rng(s))
    L.quad = P.quad = D.quad = quad; o = v.rnd.choice([L, P, lambda: A.view(D), I])(); v.eq("mean of the own form", v.mod("trace").hutch(o, pdf="normal", converge="count", count=k, seed=s, **v.rnd.choice([{}, {"batch": 1}])), np.mean(quad(None, W)))
    I.quad = lambda self, X: 1 / 3 + 0 * X[0]
    e, r = v.mod("trace").hutch(I(), pdf="normal", converge="count", count=k, seed=s, full=True, batch=v.rnd.randint(1, 4)); v.eq("constant form", (e, r.estimate), (1 / 3, 1 / 3))
BOUNDS["extra_own_form"] = "four kinds of operators up to 6x6"

def extra_sizes(v):
    """many samples, large batches, large operators; the default criterion does not depend on the operator"""
    np = v.np; T, E = v.mod("trace"), v.mod("estimators"); n = v.big("n", 1, 300); c = v.big("count", 1, 1500 if n < 60 else 60); b = v.rnd.choice([1, 7, v.big("batch", 1, c + 1)]); s = v.seed(); d = v.rng.normal(size=n); A = np.diag(d); A[0, -1] += 1.0; pdf = v.rnd.choice(PDFS); est, r = T.hutch(A, batch=b, pdf=pdf, seed=s, converge="count", count=c, full=True); m = -(-c // b) * b; v.eq("samples", r.nit, m); g = np.random.default_rng(s); iso = v.mod("random").isotropic; W = np.hstack([iso((n, b), pdf=pdf, seed=g) for _ in range(m // b)]); v.eq("mean", est, np.einsum("ij,ij->j", W, A @ W).mean())
    class Stop(Exception): pass
    seen = []
    def cb(res): seen.append(res); raise Stop
    try: T.hutch(1e-3 * A, seed=s, callback=cb, batch=v.rnd.choice([1, 3, 32]))
    except Stop: pass
    C = seen[0].criterion; k = v.rnd.choice([3, 10, 29, 30, 50, 199, 200, 201, 500]); x = v.rng.normal(size=k); q = __import__("scipy.stats").stats; q = q.t.ppf(.975, k - 1) if k < 30 else q.norm.ppf(.975)
    for f in (.999, 1.001): F = E.MeanEstimator(covariance=True); F.update(x / x.std(ddof=1) * np.sqrt(k) / q * f + 5); v.eq(f"default criterion, {n} columns, {k} samples", bool(C(F)), k >= 200 or f < 1)
BOUNDS["extra_sizes"] = "operators up to 300x300, up to 1500 samples"

def extra_again(v):
    """an operator that is overwritten between two calls stands for its values at each"""
    np = v.np; f = v.mod("trace").hutch; n = v.rnd.randint(2, 8); A, B = (v.rng.normal(size=(n, n)) + 2 * np.eye(n) for _ in "ab"); A, B = A + A.T, B + B.T; s = v.seed(); kw = v.rnd.choice([{"converge": "count", "count": 3}, {"converge": "count", "count": 40, "pdf": "normal"}, {"converge": "count", "count": 9, "batch": 2}]); A0 = A.copy(); r0 = f(A0, seed=s, **kw); op = v.rnd.choice([lambda: A, lambda: v.linop(A)])(); v.eq("first", f(op, seed=s, **kw), r0); A[...] = B; v.eq("second", f(op, seed=s, **kw), f(B.copy(), seed=s, **kw)); v.eq("first again", f(A0, seed=s, **kw), r0)
BOUNDS["extra_again"] = "matrices up to 8x8"
