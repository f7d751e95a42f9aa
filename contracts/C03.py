"""Mean estimator: length, estimate, last change and recorded values, for every configuration and history."""
FUNCTIONS = ["estimators.MeanEstimator.__init__", "estimators.MeanEstimator.mean", "estimators.MeanEstimator.update", "estimators.MeanEstimator.estimate", "estimators.Estimator.__len__"]
BOUNDS = {"extra_history": "up to 8 batches, dimension up to 4"}

def _make(v, m):
    return v.mod("estimators").MeanEstimator(m, covariance=v.choice("cov", [False, True]), record=v.choice("record", [False, True]))

def _mean(v, X, n, j): return v.sum(0, n, lambda i: v.at(X, i, j)) / n
def _check(v, M, m, n, X):
    v.eq("length", v.len(M), n); v.eq("samples", M.n_samples, n)
    e = M.estimate
    if m == 1:
        v.true("float", v.isfloat(e)); v.eq("estimate", e, _mean(v, X, n, 0))
    else: v.eq("estimate", e, v.arr((m,), lambda j: _mean(v, X, n, j)))
    if M.values is not None: v.eq("values", v.np.array(M.values), X)

def ob_initial(v):
    m = v.dim("m"); M = _make(v, m)
    v.eq("length", v.len(M), 0)
    if m == 1: v.eq("estimate", M.estimate, v.nan())
    if M.values is not None: v.eq("nothing recorded", v.len(M.values), 0)

def ob_first(v):
    m, n = v.dim("m"), v.dim("n"); X = v.array("X", n, m, dtype=v.choice("dtype", [float, int])); X0 = v.copy(X)
    M = _make(v, m); M.update(X)
    _check(v, M, m, n, X0); v.unchanged("input", X, X0); v.eq("delta", M.delta, v.arr((m,), lambda j: _mean(v, X0, n, j)))

def ob_step(v):
    """any history followed by a batch: same state as one batch, apart from delta, which is the change of the mean"""
    m, N, n = v.dim("m"), v.dim("N"), v.dim("n", 0); X = v.array("X", N, m); Y = v.array("Y", n, m, dtype=v.choice("dtype", [float, int])); Y0 = v.copy(Y)
    E = v.mod("estimators").MeanEstimator; cov, rec = v.choice("cov", [False, True]), v.choice("record", [False, True])
    M = E(m, covariance=cov, record=rec); M.update(X); M.delta = v.array("d", m)
    M.update(Y)
    Z = v.np.concatenate([X, Y0])
    _check(v, M, m, N + n, Z)
    v.true("recording", (M.values is not None) == rec)
    v.eq("delta", M.delta, v.arr((m,), lambda j: _mean(v, Z, N + n, j) - _mean(v, X, N, j)))
    M2 = E(m, covariance=cov, record=rec); M2.update(Z)
    v.state_eq("induction", M, M2, ignore=("delta",))
    v.unchanged("input", Y, Y0)

def ob_owned(v):
    """what was recorded or averaged does not follow later writes to the caller's array"""
    m, n = v.dim("m"), v.dim("n"); X = v.array("X", n, m); X0 = v.copy(X); M = _make(v, m); M.update(X); X[...] = 7.0
    _check(v, M, m, n, X0)

def ob_vector(v):
    """one-dimensional input is a batch of scalar samples"""
    n = v.dim("n"); x = v.array("x", n); M = _make(v, 1); M.update(x)
    v.eq("length", v.len(M), n); v.eq("estimate", M.estimate, v.sum(0, n, lambda i: v.at(x, i)) / n)

def ob_separate(v):
    """two estimators never share state"""
    m, n = v.dim("m"), v.dim("n"); X = v.array("X", n, m)
    A, B = _make(v, m), _make(v, m); s = v.freeze(B)
    A.update(X)
    v.state_is("other estimator", B, s)

def ob_query(v):
    m, n = v.dim("m"), v.dim("n"); X = v.array("X", n, m); M = _make(v, m); M.update(X); s = v.freeze(M)
    M.estimate; M.mean; v.len(M)
    v.state_is("unchanged", M, s)

def extra_history(v):
    np = v.np; m = v.dim("m", 1, 4); E = v.mod("estimators").MeanEstimator
    Ms = [E(m, covariance=c, record=r) for c in (False, True) for r in (False, True)] + ([E()] if m == 1 else []); rows = []; old = None
    for k in range(v.dim("steps", 1, 8)):
        Y = v.rng.normal(size=(v.rnd.choice([1, 1, 2, 5]), m)); Z = Y.ravel() if m == 1 and v.rnd.random() < .5 else Y
        B = Z.copy()
        for M in Ms: M.update(Z.tolist() if v.rnd.random() < .2 else B)
        B[...] = 7.25; rows.append(Y); A = np.vstack(rows); mu = A.mean(axis=0)
        for M in Ms:
            v.eq("length", len(M), len(A)); v.eq("estimate", np.ravel(M.estimate), mu)
            if old is not None: v.eq("delta", np.ravel(M.delta), mu - old)
            if M.values is not None: v.eq("values", np.array(M.values).reshape(len(A), m), A)
        old = mu

def extra_sizes(v):
    np = v.np; m = v.rnd.choice([1, 1, 3]); M = v.mod("estimators").MeanEstimator(m, covariance=v.rnd.random() < .5, record=True); N = v.big("N", 2, 3000); e = v.rnd.choice([-200, -45, 0, 45]); X = v.rng.normal(size=(N, m)) * 2.0 ** e; b = v.rnd.choice([1, 10, v.big("batch", 1, N), N]); k = 0; old = np.zeros(m)
    while k < N:
        M.update(X[k:k + b]); k += b
        if v.rnd.random() < .1 or k >= N or k == b: mu = X[:k].mean(axis=0); v.eq("estimate", np.ravel(M.estimate) * 2.0 ** -e, mu * 2.0 ** -e); old = X[:k - b].mean(axis=0) if k > b else np.zeros(m); v.eq("delta", np.ravel(M.delta) * 2.0 ** -e, (mu - old) * 2.0 ** -e)
    v.eq("length", len(M), N); v.true("values", np.array_equal(np.array(M.values).reshape(N, m), X))
BOUNDS["extra_sizes"] = "up to 3000 samples at scales 2^-200 to 2^45"

def ob_reused(v):
    """an array that is overwritten between two batches stands for its values at each"""
    m, n = v.dim("m"), v.dim("n"); X, Y = v.array("X", n, m), v.array("Y", n, m); X0, Y0 = v.copy(X), v.copy(Y); M = _make(v, m); M.update(X); X[...] = Y; M.update(X); _check(v, M, m, 2 * n, v.np.concatenate([X0, Y0]))
