"""Streaming mean: after any history of batches the mean is the arithmetic mean of everything received.
Induction over the history: a fresh tracker fed one batch satisfies the specification (ob_first), and a tracker fed X and then Y is in the
same state as one fed the concatenation (ob_step), so every history is equivalent to one batch holding all observations."""
FUNCTIONS = ["stats.Mean.__init__", "stats.Mean.__call__", "stats.Mean.mean", "stats.Mean.update", "stats.Covariance.__init__", "stats.Covariance.update"]
BOUNDS = {"extra_history": "up to 12 batches of up to 7 rows, dimension up to 4"}

def _cls(v):
    st = v.mod("stats")
    return v.choice("class", [st.Mean, st.Covariance])

def _check(v, M, m, n, X):
    """the specification of a tracker which received the n rows of X"""
    v.eq("count", M.n, n)
    r = M.mean()
    if m == 1:
        v.true("float", v.isfloat(r)); v.eq("mean", r, v.sum(0, n, lambda i: v.at(X, i, 0)) / n)
    else: v.eq("mean", r, v.arr((m,), lambda j: v.sum(0, n, lambda i: v.at(X, i, j)) / n))

def ob_initial(v):
    """before the first observation: count 0 and NaN"""
    m = v.dim("m")
    M = _cls(v)(m)
    v.eq("count", M.n, 0); v.eq("mean", M.mean(), v.nan())
    if not hasattr(M, "S"): v.eq("call", M(), v.nan())
    M.update(v.array("X", 0, m)); v.eq("count after an empty batch", M.n, 0); v.eq("mean after an empty batch", M.mean(), v.nan())

def ob_first(v):
    """base case: fresh tracker, one batch"""
    m, n = v.dim("m"), v.dim("n"); dt = v.choice("dtype", [float, int]); X = v.array("X", n, m, dtype=dt); X0 = v.copy(X)
    M = _cls(v)(m); M.update(X)
    _check(v, M, m, n, X0)
    v.unchanged("input", X, X0)

def ob_step(v):
    """inductive step: updating with X and then Y is the same as updating with both at once"""
    m, N, n = v.dim("m"), v.dim("N"), v.dim("n", 0); dt = v.choice("dtype", [float, int]); X = v.array("X", N, m); Y = v.array("Y", n, m, dtype=dt); X0, Y0 = v.copy(X), v.copy(Y)
    C = _cls(v)
    M = C(m); M.update(X); M.update(Y)
    Z = v.np.concatenate([X0, Y0])
    _check(v, M, m, N + n, Z)
    M2 = C(m); M2.update(Z)
    v.state_eq("induction", M, M2)
    v.unchanged("input", Y, Y0); v.unchanged("earlier input", X, X0)

def ob_query(v):
    """asking for the mean leaves the tracker as it is, and the returned mean does not change later values"""
    m, N = v.dim("m"), v.dim("N"); X = v.array("X", N, m)
    M = _cls(v)(m); M.update(X); s = v.freeze(M)
    M.mean(); M()
    v.state_is("unchanged", M, s)

def ob_forms(v):
    """the accepted forms of a batch: 1-d array of scalar samples, scalar, list"""
    N = v.dim("N"); X = v.array("X", N, 1)
    M = _cls(v)(1); M.update(X)
    form = v.choice("form", ["vector", "scalar", "list"])
    if form == "vector": n = v.dim("n"); y = v.array("y", n); f = lambda i: v.at(y, i)
    elif form == "scalar": n = 1; y = v.real("y"); f = lambda i: y
    else: n = 2; y = [v.real("y0"), v.real("y1")]; f = lambda i: v.ite(i == 0, y[0], y[1])
    M.update(y)
    v.eq("count", M.n, N + n)
    v.eq("mean", M.mean(), (v.sum(0, N, lambda i: v.at(X, i, 0)) + v.sum(0, n, f)) / (N + n))

def ob_width(v):
    """a batch of the wrong width is rejected and leaves the tracker as it was"""
    m, N, n = v.dim("m"), v.dim("N"), v.dim("n"); w = v.dim("w"); v.assume(w != m)
    X = v.array("X", N, m); Y = v.array("Y", n, w)
    M = _cls(v)(m); M.update(X); s = v.freeze(M)
    v.raises("rejected", lambda: M.update(Y))
    v.state_is("unchanged", M, s)

def extra_history(v):
    """random histories of batches (bounded)"""
    np = v.np
    m = v.dim("m", 1, 4); M = _cls(v)(m) if m > 1 or v.rnd.random() < .5 else _cls(v)(); rows = []
    for k in range(v.dim("steps", 1, 12)):
        form = v.rnd.randrange(4)
        n = v.rnd.choice([1, 1, 2, 3, 7])
        Y = v.rng.normal(size=(n, m)) * v.rnd.choice([1, 100.0]) + v.rnd.choice([0, 1e3])
        if m == 1 and form == 0: M.update(Y.ravel())
        elif m == 1 and form == 1: M.update(list(Y.ravel()))
        elif m == 1 and form == 2: [M.update(float(y)) for y in Y.ravel()]
        else: M.update(Y)
        rows.append(Y)
    A = np.vstack(rows)
    v.eq("count", M.n, len(A)); v.eq("mean", np.ravel(M.mean()), A.mean(axis=0))

def extra_sizes(v):
    """long batches, long histories, wide data, any scale, large means"""
    np = v.np; m = v.rnd.choice([1, 1, 2, v.big("m", 1, 300)]); M = _cls(v)(m); N = v.big("N", 2, 3000 if m < 9 else 200); e = v.rnd.choice([-200, -45, 0, 0, 45]); c = v.rnd.choice([0, 0, 1e6]); v.trace.update(exponent=e, shift=c); X = (v.rng.normal(size=(N, m)) + c) * 2.0 ** e; k = 0; b = v.rnd.choice([1, 10, v.big("batch", 1, N), N])
    while k < N: M.update(X[k:k + b]); k += b
    v.eq("count", M.n, N); g = np.ravel(M.mean()) * 2.0 ** -e; w = (X * 2.0 ** -e - c).mean(axis=0) + c; v.true(f"mean {g[:3]} expected {w[:3]}", bool(np.all(np.abs(g - w) < 1e-7)))
BOUNDS["extra_sizes"] = "up to 3000 observations, 300 components, scales 2^-200 to 2^45"
