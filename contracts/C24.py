"""XTrace: the batch loop is verified with an invariant (orthonormal basis, triangular factor and its inverse, images) that gives the precondition of
the helper, the helper against the leave-one-out projectors, and the projectors by lemmas (C26)."""
FUNCTIONS = ["trace.xtrace", "trace._xtrace", "linalg.update_trinv", "estimators.CountCriterion.__call__", "estimators.convergence_criterion", "random.isotropic"]
BOUNDS = {"extra_reference": "matrices up to 10x10, every batch size, real samplers, explicit leave-one-out bases", "extra_exact": "nonsingular matrices up to 9x9"}
ASSUMPTIONS = ["numpy.linalg.qr returns QR = Y with Q'Q = I and R upper triangular; scipy.linalg.qr_insert of a last column returns such factors of the extended matrix and keeps the columns it had",
               "the sketch A W has full column rank (the leave-one-out estimate needs R to be invertible)",
               "callers of MeanEstimator are verified against its contract (estimate = sum of the samples / their number), which C03 discharges on its code"]
SYM_SECONDS = 150
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]

# ---------------------------------------------------------------- the helper
def _factors(v, Y):
    """Q, R, its inverse, and s(a, i): the unit vector of the i-th row of R^-1"""
    np = v.np; Q, R = np.linalg.qr(Y, mode="reduced"); Ri = np.linalg.inv(R); m = Y.shape[1]
    nrm = lambda i: v.sqrt(v.sum(0, m, lambda a: v.at(Ri, i, a) * v.at(Ri, i, a)))
    return Q, R, Ri, lambda a, i: v.at(Ri, i, a) / nrm(i)
def _proj(v, Q, s, m):
    u = lambda k, i: v.sum(0, m, lambda a: v.at(Q, k, a) * s(a, i))
    return lambda k, l, i: v.sum(0, m, lambda a: v.at(Q, k, a) * v.at(Q, l, a)) - u(k, i) * u(l, i)
def _parts(v, A, W, n, m, Q, s, i):
    """trace of P A, quadratic form of A on the deflated vector x = (I - P) w, squared length of x"""
    P = _proj(v, Q, s, m); x = lambda k: v.at(W, k, i) - v.sum(0, n, lambda l: P(k, l, i) * v.at(W, l, i))
    return (v.sum(0, n, lambda k: v.sum(0, n, lambda l: P(k, l, i) * v.at(A, l, k))),
            v.sum(0, n, lambda k: v.sum(0, n, lambda l: x(k) * v.at(A, k, l) * x(l))), v.sum(0, n, lambda k: x(k) * x(k)))
def _helper(v, pdf):
    f = v.mod("trace")._xtrace; n = v.dim("n", 1, 6); m = v.dim("m", 1, 6); v.assume(m <= n); A = v.array("A", n, n, kind="normal"); W = v.array("W", n, m, kind="normal")
    if pdf == "sphere": W = v.spherical("W", n, m) if v.sym else W / v.np.linalg.norm(W, axis=0) * v.np.sqrt(n)
    Q, R, Ri, s = _factors(v, A @ W); Z = A @ Q; i = v.dim("i", 0, 5); v.assume(i < m)
    before = [v.copy(x) for x in (W, Z, Q, R, Ri)]; t = f(W, Z, Q, R, Ri, pdf)
    for nm, x, y in zip(("vectors", "images", "basis", "factor", "inverse"), (W, Z, Q, R, Ri), before): v.unchanged(nm, x, y)
    v.eq("one sample per vector", v.len(t), m); return t, A, W, n, m, Q, R, s, i

def ob_sample(v):
    """rademacher and normal vectors: no correction"""
    t, A, W, n, m, Q, R, s, i = _helper(v, v.choice("pdf", ["rademacher", "normal"])); tr, q, nn = _parts(v, A, W, n, m, Q, s, i)
    v.eq("leave-one-out estimate", v.at(t, i, 0), tr + q)
def ob_sphere(v):
    """spherical vectors: the deflated part is scaled to the dimension of its space"""
    t, A, W, n, m, Q, R, s, i = _helper(v, "sphere"); tr, q, nn = _parts(v, A, W, n, m, Q, s, i)
    g = lambda a: v.sum(0, n, lambda l: v.at(Q, l, a) * v.at(W, l, i)); den = n - v.sum(0, m, lambda a: g(a) * g(a)) + v.sum(0, m, lambda a: s(a, i) * g(a)) ** 2
    v.eq("squared length of the deflated vector", nn, den); v.eq("leave-one-out estimate", v.at(t, i, 0), tr + q * (n - m + 1) / den)
def ob_exact(v):
    """lemma: with all n spherical vectors the basis is square, and the formula of ob_sphere gives the trace for every sample"""
    n = v.dim("n", 1, 5); np = v.np; A = v.array("A", n, n, kind="normal"); Q = np.linalg.qr(v.array("Y", n, n, kind="normal"))[0]; e = np.linalg.qr(v.array("y", n, 1, kind="normal"))[0]; s = lambda a, i: v.at(e, a, 0)
    W = v.spherical("W", n, 1) if v.sym else (lambda x: x / np.linalg.norm(x) * np.sqrt(n))(v.array("W", n, 1, kind="normal")); u = lambda k: v.sum(0, n, lambda a: v.at(Q, k, a) * s(a, 0)); uw = v.sum(0, n, lambda k: u(k) * v.at(W, k, 0))
    P = _proj(v, Q, s, n); k = v.dim("k", 0, 4); v.assume(k < n); uAu = v.sum(0, n, lambda k: v.sum(0, n, lambda l: u(k) * v.at(A, k, l) * u(l)))
    v.eq("deflated vector", v.at(W, k, 0) - v.sum(0, n, lambda l: P(k, l, 0) * v.at(W, l, 0)), u(k) * uw)      # so q = (u'w)^2 u'Au and |x|^2 = (u'w)^2
    v.eq("unit", v.sum(0, n, lambda k: u(k) * u(k)), 1.0)
    v.eq("captured part", v.sum(0, n, lambda k: v.sum(0, n, lambda l: P(k, l, 0) * v.at(A, l, k))) + uAu, v.sum(0, n, lambda k: v.at(A, k, k)))

# ---------------------------------------------------------------- the loop
def _ghost_mean(v):
    np = v.np
    class MeanEstimator:
        def __init__(self, dim=1, covariance=False, record=False): self.dim, self.covariance, self.record = dim, covariance, record; self.total = 0.0; self.n_samples = 0
        def update(self, x): x = np.ravel(x); self.total = self.total + np.sum(x); self.n_samples = self.n_samples + v.len(x)
        def __len__(self): return self.n_samples
        @property
        def estimate(self): return self.total / self.n_samples
        mean = estimate
    return MeanEstimator

class Drawn:
    """arbitrary sampler that keeps all vectors drawn so far side by side"""
    def __init__(self, v, n): self.v = v; self.W = v.np.zeros((n, 0))
    def __call__(self, size):
        N = self.v.matrix("N", *size) if self.v.sym else self.v.rng.normal(size=size)
        self.W = self.v.np.c_[self.W, N]; return N

def ob_loop(v):
    """every operator, sampler, batch size and criterion: the helper gets all vectors drawn, factors of their images and the images of the basis; the estimate is the mean of its samples"""
    T, E, np = v.mod("trace"), v.mod("estimators"), v.np; n, b = v.dim("n", 1, 6), v.dim("batch", 1, 5); A = v.array("A", n, n, kind="normal"); B = v.copy(A); P = Drawn(v, n); seen = {}
    stop = (lambda k: v.boolfn("stop", k)) if v.sym else (lambda k: v.boolfn("stop", k))
    v.assume(stop(0) == False)
    crit = v.choice("criterion", [lambda: E.ConvergenceCriterion(lambda est: stop(est.n_samples)), lambda: "default"])()
    XT = lambda m, i: v.uf("XT", m, i)
    if v.sym:
        v.contract("estimators", "MeanEstimator", _ghost_mean(v)); T.MeanEstimator = E.MeanEstimator
        def helper(W, Z, Q, R, R_inv, pdf):
            """contract of _xtrace (its precondition is proved here, its result is any function of the vectors)"""
            m = P.W.shape[1]; v.eq("helper gets all vectors", W, P.W); v.true("shapes", (Q.shape[1] == m) and (R.shape[0] == m) and (R.shape[1] == m))
            basis(Q, R, R_inv, P.W, m, "helper: "); v.eq("helper: images of the basis", Z, A @ Q); v.true("helper: distribution", pdf is P)
            return v.arr((m, 1), lambda i, j: XT(m, i))
        T._xtrace = helper
        def qr_insert(Q, R, u=None, k=None, which="row", **kw):
            m = Q.shape[1]; v.true("column appended", (which == "col") and (k == m)); j = _next(v, "q"); q = v.matrix(f"q{j}", n); r = v.matrix(f"r{j}", m + 1)
            v.appended(Q, q, u, r, n, m)
            Q1 = v.arr((n, m + 1), lambda i, a: v.ite(a < m, v.at(Q, i, a), v.at(q, i))); R1 = v.arr((m + 1, m + 1), lambda i, a: v.ite(a < m, v.ite(i < m, v.at(R, i, a), 0.0), v.at(r, i)))
            return Q1, R1
        v.hook("qr_insert", qr_insert)
        def basis(Q, R, Ri, Y, m, pre=""):
            AW = A @ Y
            v.eq(pre + "orthonormal basis", v.arr((m, m), lambda a, c: v.sum(0, n, lambda i: v.at(Q, i, a) * v.at(Q, i, c))), v.arr((m, m), lambda a, c: v.ite(a == c, 1.0, 0.0)))
            v.eq(pre + "factorization", v.arr((n, m), lambda i, c: v.sum(0, c + 1, lambda a: v.at(Q, i, a) * v.at(R, a, c))), AW[:, :m])
            v.eq(pre + "triangular", v.arr((m, m), lambda a, c: v.ite(c < a, v.at(R, a, c), 0.0)), np.zeros((m, m)))
            v.eq(pre + "left inverse", v.arr((m, m), lambda a, c: v.sum(0, m, lambda i: v.at(Ri, a, i) * v.at(R, i, c))), v.arr((m, m), lambda a, c: v.ite(a == c, 1.0, 0.0)))
        st = {}
        def outer_check(loc, k):
            m = P.W.shape[1]; v.true("at most n vectors", m <= n); v.eq("vectors", loc["W"], P.W)
            v.true("samples", loc["estimator"].n_samples == m); v.eq("total", loc["estimator"].total, v.sum(0, m, lambda i: XT(m, i)))
            if "helper" in st: return
            st["helper"] = 1; basis(loc["Q"], loc["R"], loc["R_inv"], P.W, m); v.eq("images", loc["Z"], A @ loc["Q"])
        def factors(tag, m): return v.matrix("Q" + tag, n, m), v.matrix("R" + tag, m, m), v.matrix("I" + tag, m, m)
        def outer_havoc(loc, k):
            m = v.dim("drawn", 0, 5); v.assume(m <= n); m = 0 if m == 0 else m; W = v.matrix("W", n, m); Q, R, Ri = factors("o", m); P.W = W
            v.orthonormal("Qo", n, m); v.triangular("Ro"); v.fold("AW", A @ W, lambda i, c: v.sum(0, c + 1, lambda a: v.uf("Qo", i, a) * v.uf("Ro", a, c))); v.inverse("Io", "Ro", m)
            e = T.MeanEstimator(); e.n_samples = m; e.total = v.sum(0, m, lambda i: XT(m, i))
            res = loc["result"]
            for x in ("estimator", "criterion", "estimate", "nit"): setattr(res, x, v.poison())
            st["m"] = m; st["W"] = W; st.pop("helper", None)
            return {"W": W, "Z": A @ Q, "Q": Q, "R": R, "R_inv": Ri, "estimator": e}
        def inner_check(loc, j):
            m = st["m"] if "m" in st else v.const_int(0)
            Q, R, Ri = loc["Q"], loc["R"], loc["R_inv"]; mj = m + j; v.true("columns", (Q.shape[1] == mj) and (R.shape[1] == mj) and (Ri.shape[1] == mj))
            basis(Q, R, Ri, P.W, mj, "inner: "); v.eq("basis extended", Q[:, :m], v.arr((n, m), lambda i, a: v.uf("Qo", i, a)))
        def inner_havoc(loc, j):
            m = st["m"]; mj = m + j; tag = "h"; Q, R, Ri = factors(tag, mj); v.orthonormal("Qh", n, mj); v.triangular("Rh"); v.inverse("Ih", "Rh", mj)
            v.lemma("", "same columns", [("Qo", ("i", "a"))], {}, lambda b: v.uf("Qh", b["i"], b["a"])); v.lemma("", "same block", [("Ro", ("a", "c"))], {}, lambda b: v.uf("Rh", b["a"], b["c"]))
            v.fold("AN", loc["Y"], lambda i, c: v.sum(0, m + c + 1, lambda a: v.uf("Qh", i, a) * v.uf("Rh", a, m + c)), lambda i, c: [v.below(c, j)])
            return {"Q": Q, "R": R, "R_inv": Ri}
        v.invariant("trace.xtrace:0", outer_check, outer_havoc); v.invariant("trace.xtrace:1", inner_check, inner_havoc)
    est, res = T.xtrace(A, batch=b, pdf=P, converge=crit, full=True); m = P.W.shape[1]
    v.true("never more than n vectors", m <= n); v.unchanged("operator not modified", A, B)
    v.eq("result carries the estimate", res.estimate, est); v.true("samples", v.len(res.estimator) == m)
    if v.sym: v.eq("mean of the samples", est * m, v.sum(0, m, lambda i: XT(m, i)))
    v.true("stopped when the criterion or the dimension was reached", v.ite(m == n, 1.0, v.ite(stop(m), 1.0, 0.0)) == 1.0 if not isinstance(crit, str) else m == n)
def _next(v, k): v.c.__dict__.setdefault("ctr", {}); v.c.ctr[k] = v.c.ctr.get(k, 0) + 1; return v.c.ctr[k]

def ob_degenerate(v):
    f = v.mod("trace").xtrace; P = v.sampler(); Z = v.np.zeros((0, 0)); v.eq("empty", f(Z, pdf=P), 0.0); e, r = f(Z, pdf=P, full=True); v.eq("empty, full", e, 0.0); v.eq("nothing drawn", P.calls, 0)
    v.raises("batch size", lambda: f(v.array("A", v.dim("n", 1, 4), v.dim("n", 1, 4)), batch=0), AssertionError)

def _loo(np, A, W, pdf):
    n, m = W.shape; Y = A @ W; t = []
    for i in range(m):
        Qi = np.linalg.qr(np.delete(Y, i, axis=1))[0]; x = W[:, i] - Qi @ (Qi.T @ W[:, i]); sc = (n - m + 1) / (x @ x) if pdf == "sphere" else 1.0
        t.append(np.trace(Qi.T @ A @ Qi) + sc * (x @ A @ x))
    return np.array(t)
def extra_reference(v):
    np = v.np; T, E = v.mod("trace"), v.mod("estimators"); n = v.rnd.randint(1, 10); A = v.rng.normal(size=(n, n)); A = A @ A.T + np.eye(n) if v.rnd.random() < .6 else A + 2 * np.eye(n); A0 = A.copy(); s = v.seed(); pdf = v.rnd.choice(["normal", "sphere"])
    c = v.rnd.randint(1, n + 3); b = v.rnd.randint(1, n + 3); seen = []; iso = v.mod("random").isotropic; name = v.rnd.choice(["count", "default", "object"])
    kw = {"count": c} if name == "count" else {}; cr = E.CountCriterion(c) if name == "object" else name
    est, res = T.xtrace(A, batch=b, pdf=pdf, converge=cr, seed=s, full=True, record=True, callback=lambda r: seen.append((len(r.estimator), float(np.ravel(r.estimate)[0]))), **kw)
    want = n if name == "default" else min(n, -(-c // b) * b); m = len(res.estimator); v.eq("vectors", m, want); v.unchanged("operator", A, A0)
    W = iso((n, m), pdf=pdf, seed=np.random.default_rng(s)); rng = np.random.default_rng(s); W = np.zeros((n, 0))
    while W.shape[1] < m: W = np.c_[W, iso((n, min(b, n - W.shape[1])), pdf=pdf, seed=rng)]
    for k, e in seen:
        if np.linalg.cond(A @ W[:, :k]) < 1e5: v.eq(f"estimate after {k}", e, _loo(np, A, W[:, :k], pdf).mean(), tol=1e-4)
    if np.linalg.cond(A @ W) < 1e5:
        v.eq("samples", np.ravel(res.estimator.values), _loo(np, A, W, pdf), tol=1e-4); v.eq("estimate", np.ravel(est), [_loo(np, A, W, pdf).mean()], tol=1e-4)
        v.eq("other batch size", np.ravel(T.xtrace(A, batch=v.rnd.randint(1, n), pdf=lambda size, it=[0]: (it.append(it[-1] + size[1]), W[:, it[-2]:it[-1]])[1], converge="count", count=m)), np.ravel(T.xtrace(A, batch=m, pdf=lambda size: W[:, :size[1]], converge="count", count=m)), tol=1e-4) if m == n else None
def extra_exact(v):
    np = v.np; n = v.rnd.randint(1, 9); A = v.rng.normal(size=(n, n)) + 3 * np.eye(n)
    if np.linalg.cond(A) < 1e4: v.eq("trace", np.ravel(v.mod("trace").xtrace(A, batch=v.rnd.randint(1, n + 1), seed=v.seed())), [np.trace(A)], tol=1e-4)

def extra_scale(v):
    np = v.np; f = v.mod("trace").xtrace; n = v.rnd.randint(1, 9); A = v.rng.normal(size=(n, n)) + 3 * np.eye(n); s = v.seed(); c = 10.0 ** v.rnd.choice([-10, -6, -4, 4, 8]) * v.rnd.choice([-1, 1])
    if np.linalg.cond(A) > 1e3: return
    kw = dict(batch=v.rnd.randint(1, n + 1), pdf=v.rnd.choice(["normal", "sphere"]), seed=s, **v.rnd.choice([{}, {"converge": "count", "count": v.rnd.randint(1, n)}])); v.eq("scales with the operator", np.ravel(f(c * A, **kw)) / c, np.ravel(f(A, **kw)), tol=1e-5)
BOUNDS["extra_scale"] = "matrices up to 9x9 at scales 1e-10 to 1e8"

def extra_sizes(v):
    """all the vectors: the trace"""
    np = v.np; n = v.big("n", 1, 90); A = v.rng.normal(size=(n, n)) / np.sqrt(n) + 3 * np.eye(n); e = 2.0 ** v.rnd.choice([-40, 0, 0, 40]); b = v.rnd.choice([1, 8, n, v.big("batch", 1, n + 1)]); est, r = v.mod("trace").xtrace(e * A, batch=b, seed=v.seed(), full=True, **v.rnd.choice([{}, {"converge": "count", "count": n}])); v.eq("trace", np.ravel(est) / e, [np.trace(A)], tol=1e-5); v.eq("vectors", len(r.estimator), n)
BOUNDS["extra_sizes"] = "operators up to 90x90, scales 2^-40 to 2^40"

def extra_again(v):
    """an operator that is overwritten between two calls stands for its values at each"""
    np = v.np; f = v.mod("trace").xtrace; n = v.rnd.randint(2, 8); A, B = (v.rng.normal(size=(n, n)) + 2 * np.eye(n) for _ in "ab"); A, B = A + A.T, B + B.T; s = v.seed(); kw = v.rnd.choice([{}, {"pdf": "normal"}]); A0 = A.copy(); r0 = f(A0, seed=s, **kw); op = v.rnd.choice([lambda: A, lambda: v.linop(A)])(); v.eq("first", f(op, seed=s, **kw), r0); A[...] = B; v.eq("second", f(op, seed=s, **kw), f(B.copy(), seed=s, **kw)); v.eq("first again", f(A0, seed=s, **kw), r0)
BOUNDS["extra_again"] = "matrices up to 8x8"
