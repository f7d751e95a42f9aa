"""Control-variate estimate: y - a.(c - m) with given or least-squares coefficients, for every history."""
FUNCTIONS = ["estimators.ControlVariableEstimator.__init__", "estimators.ControlVariableEstimator.update", "estimators.ControlVariableEstimator.estimate", "estimators.ControlVariableEstimator.__len__", "stats.Covariance.update", "stats.Covariance.__call__"]
BOUNDS = {"extra_regression": "up to 4 controls, up to 40 samples, up to 6 batches"}

def _mu(v, X, n, j): return v.sum(0, n, lambda i: v.at(X, i, j)) / n
def _cov(v, X, n, a, b): return v.sum(0, n, lambda i: (v.at(X, i, a) - _mu(v, X, n, a)) * (v.at(X, i, b) - _mu(v, X, n, b))) / (n - 1)
def _alpha(v, X, n, p):
    if n < 2: return v.arr((p,), lambda j: 0)
    if p == 1: return v.arr((1,), lambda j: _cov(v, X, n, 1, 0) / _cov(v, X, n, 1, 1))
    return v.linalg.solve(v.arr((p, p), lambda a, b: _cov(v, X, n, a + 1, b + 1)), v.arr((p,), lambda a: _cov(v, X, n, a + 1, 0)))
def _estimate(v, X, n, p, alpha, ecv): return _mu(v, X, n, 0) - v.sum(0, p, lambda j: v.at(alpha, j) * (_mu(v, X, n, j + 1) - v.at(ecv, j)))

def ob_initial(v):
    p = v.dim("p"); E = v.mod("estimators").ControlVariableEstimator(v.array("ecv", p))
    v.eq("estimate", E.estimate, v.nan()); v.eq("length", v.len(E), 0)

def ob_given(v):
    """given coefficients"""
    p, n = v.dim("p"), v.dim("n"); ecv, al = v.array("ecv", p), v.array("alpha", p); X = v.array("X", n, p + 1, dtype=v.choice("dtype", [float, int])); X0, a0, e0 = v.copy(X), v.copy(al), v.copy(ecv)
    E = v.mod("estimators").ControlVariableEstimator(ecv, alpha=al); E.update(X)
    v.eq("length", v.len(E), n); v.eq("estimate", E.estimate, _estimate(v, X0, n, p, a0, e0)); v.true("float", v.isfloat(E.estimate))
    v.unchanged("samples", X, X0); v.unchanged("coefficients", al, a0); v.unchanged("expectations", ecv, e0)

def ob_given_history(v):
    p, N, n = v.dim("p"), v.dim("N"), v.dim("n", 0); ecv, al = v.array("ecv", p), v.array("alpha", p); X = v.array("X", N, p + 1); Y = v.array("Y", n, p + 1)
    E = v.mod("estimators").ControlVariableEstimator(ecv, alpha=al); E.update(X); E.update(Y)
    Z = v.np.concatenate([X, Y])
    v.eq("length", v.len(E), N + n); v.eq("estimate", E.estimate, _estimate(v, Z, N + n, p, al, ecv))
    E2 = v.mod("estimators").ControlVariableEstimator(ecv, alpha=al); E2.update(Z)
    v.state_eq("induction", E, E2)

def ob_regression(v):
    """least-squares coefficients; zero with a single observation"""
    p, n = v.dim("p"), v.dim("n", 1, 9); v.assume((n == 1) | (n > p if v.sym or p == 1 else n > p + 1)); ecv = v.array("ecv", p); X = v.array("X", n, p + 1, kind="normal")
    E = v.mod("estimators").ControlVariableEstimator(ecv); E.update(X)
    al = _alpha(v, X, n, p)
    v.eq("length", v.len(E), n); v.eq("estimate", E.estimate, _estimate(v, X, n, p, al, ecv), tol=1e-5)

def ob_regression_history(v):
    p, N, n = v.dim("p"), v.dim("N"), v.dim("n", 1, 9); v.assume(N + n > p if v.sym or p == 1 else n > p + 1); ecv = v.array("ecv", p); X = v.array("X", N, p + 1, kind="normal"); Y = v.array("Y", n, p + 1, kind="normal")
    # the coefficients of the history before the last batch do not matter
    C = v.mod("estimators").ControlVariableEstimator
    E = C(ecv)
    if N < 2 or p == 1 or v.sym: E.update(X)
    else:
        try: E.update(X)
        except v.linalg.LinAlgError: v.assume(False)
    E.update(Y)
    Z = v.np.concatenate([X, Y]); al = _alpha(v, Z, N + n, p)
    v.eq("length", v.len(E), N + n); v.eq("estimate", E.estimate, _estimate(v, Z, N + n, p, al, ecv), tol=1e-5)
    E2 = C(ecv); E2.update(Z)
    v.state_eq("induction", E, E2)

def ob_shift(v):
    """adding a shift to the controls and to their known expectations changes nothing"""
    p, n = v.dim("p"), v.dim("n", 2, 9); v.assume(n > p if v.sym or p == 1 else n > p + 1); ecv, s = v.array("ecv", p), v.array("s", p); X = v.array("X", n, p + 1, kind="normal")
    al = v.choice("alpha", [None, "given"]); al = None if al is None else v.array("alpha", p)
    C = v.mod("estimators").ControlVariableEstimator
    A, B = C(ecv, alpha=al), C(ecv + s, alpha=al)
    A.update(X); B.update(X + v.arr((1, p + 1), lambda i, j: v.ite(j == 0, 0, v.at(s, j - 1))) if v.sym else X + v.np.concatenate([[0.0], s]))
    v.eq("estimate", A.estimate, B.estimate, tol=1e-5)

def ob_query(v):
    p, n = v.dim("p"), v.dim("n"); ecv, al = v.array("ecv", p), v.array("alpha", p); X = v.array("X", n, p + 1)
    E = v.mod("estimators").ControlVariableEstimator(ecv, alpha=al); E.update(X); s = v.freeze(E); E.estimate
    v.state_is("unchanged", E, s)

def extra_regression(v):
    np = v.np; p = v.dim("p", 1, 4); ecv = v.array("ecv", p); C = v.mod("estimators").ControlVariableEstimator
    E = C(ecv if p > 1 or v.rnd.random() < .5 else float(ecv[0])); rows = []
    for k in range(v.dim("steps", 1, 6)):
        Y = v.rng.normal(size=(v.rnd.choice([1, 2, 8]) if k else v.rnd.choice([1, 10] if p == 1 else [p + 2, 10]), p + 1)); Y[:, 0] += Y[:, 1]
        E.update(Y); rows.append(Y); A = np.vstack(rows)
        if len(A) > p + 1:
            S = np.cov(A.T); a = np.linalg.solve(S[1:, 1:], S[1:, 0])
            v.eq("estimate", E.estimate, A[:, 0].mean() - a @ (A[:, 1:].mean(axis=0) - ecv), tol=1e-5)
        elif len(A) == 1: v.eq("single", E.estimate, A[0, 0])

def extra_given(v):
    """particular coefficients: all zero, one zero, a scalar, integers; kept whatever is observed"""
    np = v.np; p = v.dim("p", 1, 4); al = v.rnd.choice([np.zeros(p), np.ones(p), np.r_[0.0, v.rng.normal(size=p - 1)], v.rng.integers(-2, 3, size=p), v.rng.normal(size=p) * 1e-9])
    ecv = v.rnd.choice([np.zeros(p), v.rng.normal(size=p), v.rng.integers(-2, 3, size=p)]); E = v.mod("estimators").ControlVariableEstimator(ecv if p > 1 else v.rnd.choice([ecv, float(ecv[0])]), alpha=al if p > 1 else v.rnd.choice([al, float(al[0]), [float(al[0])]])); rows = []
    for k in range(v.rnd.randint(1, 4)):
        Y = v.rng.normal(size=(v.rnd.choice([1, 2, 9]), p + 1)); E.update(Y); rows.append(Y); A = np.vstack(rows)
        v.eq("estimate", E.estimate, A[:, 0].mean() - al @ (A[:, 1:].mean(axis=0) - ecv)); v.eq("length", len(E), len(A))
BOUNDS["extra_given"] = "up to 4 controls, up to 4 batches of at most 9"

def extra_scale(v):
    """controls and samples at any scale, with means far larger than the spread"""
    np = v.np; p = v.dim("p", 1, 3); N = v.big("N", p + 8, 1500); s, t = (2.0 ** v.rnd.choice([-45, 0, 0, 30]) for _ in "ab"); c = v.rnd.choice([0, 0, 1e4]); B = v.rng.normal(size=(N, p)); y = B @ v.rng.normal(size=p) + v.rng.normal(size=N); al = v.rng.normal(size=p); given = v.rnd.random() < .4; v.trace.update(samples=s, controls=t, shift=c)
    E = v.mod("estimators").ControlVariableEstimator(t * (c + np.ones(p)), alpha=al * s / t if given else None); X = np.c_[s * (y + c), t * (B + c)]; k = v.rnd.randint(max(2, p + 3), N); E.update(X[:k])
    if k < N: E.update(X[k:])
    S = np.cov(np.c_[y, B].T); a = al if given else np.linalg.solve(S[1:, 1:], S[1:, 0]); v.eq("estimate", E.estimate / s - c, y.mean() - a @ (B.mean(axis=0) - 1), tol=1e-5); v.eq("length", len(E), N)
BOUNDS["extra_scale"] = "up to 3 controls and 1500 samples, scales 2^-45 to 2^30"
