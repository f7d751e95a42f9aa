"""Streaming covariance: after any history, for any ddof, the matrix of centred second moments over (n - ddof)."""
FUNCTIONS = ["stats.Covariance.__init__", "stats.Covariance.__call__", "stats.Covariance.update", "stats.Covariance.covariance", "stats.Mean.__init__"]
BOUNDS = {"extra_history": "up to 10 batches of up to 6 rows, dimension up to 4, ddof 0..3"}

def _spec(v, m, n, X, ddof):
    mu = lambda j: v.sum(0, n, lambda i: v.at(X, i, j)) / n
    return lambda a, b: v.sum(0, n, lambda i: (v.at(X, i, a) - mu(a)) * (v.at(X, i, b) - mu(b))) / (n - ddof)

def _check(v, C, m, n, X, ddof):
    call = v.choice("call", ["call", "method"])
    got = C(ddof=ddof) if call == "call" else C.covariance(ddof)
    if n - ddof <= 0:
        v.eq("infinite", got, v.np.inf)
    elif m == 1:
        v.true("float", v.isfloat(got)); v.eq("variance", got, _spec(v, m, n, X, ddof)(0, 0))
    else:
        v.eq("covariance", got, v.arr((m, m), _spec(v, m, n, X, ddof)))

def ob_first(v):
    m, n, dd = v.dim("m"), v.dim("n"), v.dim("ddof", 0); X = v.array("X", n, m, dtype=v.choice("dtype", [float, int])); X0 = v.copy(X)
    C = v.mod("stats").Covariance(m); C.update(X)
    _check(v, C, m, n, X0, dd)
    v.unchanged("input", X, X0)

def ob_default(v):
    """ddof defaults to one"""
    m, n = v.dim("m", 2), v.dim("n", 2); X = v.array("X", n, m)
    C = v.mod("stats").Covariance(m); C.update(X)
    v.eq("covariance", C(), v.arr((m, m), _spec(v, m, n, X, 1)))

def ob_initial(v):
    m, dd = v.dim("m"), v.dim("ddof", 0); C = v.mod("stats").Covariance(m)
    v.eq("infinite", C(ddof=dd), v.np.inf); C.update(v.array("X", 0, m)); v.eq("infinite after an empty batch", C(ddof=dd), v.np.inf)

def ob_step(v):
    """induction over the history: X then Y is the same as both at once"""
    m, N, n, dd = v.dim("m"), v.dim("N"), v.dim("n", 0), v.dim("ddof", 0); X = v.array("X", N, m); Y = v.array("Y", n, m, dtype=v.choice("dtype", [float, int])); Y0 = v.copy(Y)
    Cov = v.mod("stats").Covariance
    C = Cov(m); C.update(X); C.update(Y)
    Z = v.np.concatenate([X, Y0])
    _check(v, C, m, N + n, Z, dd)
    C2 = Cov(m); C2.update(Z)
    v.state_eq("induction", C, C2)
    v.unchanged("input", Y, Y0)

def ob_shape(v):
    """symmetric, and its quadratic form is a sum of squares over n - ddof > 0"""
    m, n = v.dim("m", 2), v.dim("n"); dd = v.dim("ddof", 0); v.assume(dd < n)
    X = v.array("X", n, m); C = v.mod("stats").Covariance(m); C.update(X); S = C(ddof=dd)
    v.eq("symmetric", S, S.T)
    x = v.array("x", m); mu = lambda j: v.sum(0, n, lambda i: v.at(X, i, j)) / n
    q = v.sum(0, m, lambda a: v.sum(0, m, lambda b: v.at(x, a) * v.at(S, a, b) * v.at(x, b)))
    v.eq("positive semidefinite", q, v.sum(0, n, lambda i: v.sum(0, m, lambda a: v.at(x, a) * (v.at(X, i, a) - mu(a))) ** 2) / (n - dd))

def ob_query(v):
    m, N, dd = v.dim("m"), v.dim("N"), v.dim("ddof", 0); X = v.array("X", N, m)
    C = v.mod("stats").Covariance(m); C.update(X); s = v.freeze(C)
    C(ddof=dd); C.mean(); C.covariance(ddof=dd)
    v.state_is("unchanged", C, s)

def extra_history(v):
    np = v.np; m = v.dim("m", 1, 4); C = v.mod("stats").Covariance(m); rows = []
    for k in range(v.dim("steps", 1, 10)):
        Y = v.rng.normal(size=(v.rnd.choice([1, 1, 2, 3, 6]), m)) * v.rnd.choice([1, 10.0]) + v.rnd.choice([0, 50.0])
        C.update(Y if m > 1 or v.rnd.random() < .5 else Y.ravel()); rows.append(Y)
        A = np.vstack(rows); dd = v.rnd.randrange(4); D = A - A.mean(axis=0)
        if len(A) - dd <= 0: v.eq("infinite", C(dd), np.inf)
        else: v.eq("covariance", np.reshape(C(ddof=dd), (m, m)), D.T @ D / (len(A) - dd), tol=1e-8)

def extra_sizes(v):
    """long batches, long histories, wide data, any scale; a mean a million times the spread"""
    np = v.np; m = v.rnd.choice([1, 1, 2, v.big("m", 1, 150)]); C = v.mod("stats").Covariance(m); N = v.big("N", 2, 3000 if m < 9 else 200); e = v.rnd.choice([-200, -45, 0, 0, 45]); c = v.rnd.choice([0, 1e3, 1e6]); dd = v.rnd.randint(0, 1); v.trace.update(exponent=e, shift=c); X = (v.rng.normal(size=(N, m)) + c) * 2.0 ** e; k = 0; b = v.rnd.choice([1, 10, v.big("batch", 1, N), N])
    while k < N: C.update(X[k:k + b]); k += b
    Y = X * 2.0 ** -e - c; Y = Y - Y.mean(axis=0); g = np.reshape(C(ddof=dd), (m, m)) * 2.0 ** (-2 * e); w = Y.T @ Y / (N - dd); v.true(f"covariance off by {np.abs(g - w).max()}", bool(np.abs(g - w).max() < 1e-5)); v.true("symmetric", np.array_equal(g, g.T) or bool(np.abs(g - g.T).max() < 1e-9))
BOUNDS["extra_sizes"] = "up to 3000 observations, 150 components, scales 2^-200 to 2^45, means up to 1e6 times the spread"
