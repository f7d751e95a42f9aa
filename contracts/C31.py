"""Matrix-free Toeplitz operator: the FFT product equals the dense Toeplitz product."""
FUNCTIONS = ["operators.Toeplitz.__init__", "operators.Toeplitz._matvec"]
BOUNDS = {"extra_dense": "operators up to 40x40, float32 and float64, vectors and blocks, lists and integer data"}
ASSUMPTIONS = ["contract of scipy's LinearOperator front end: A @ x checks the length, calls _matvec and reshapes"]

def _case(v, lo=1, hi=8):
    n = v.dim("n", lo, hi); c = v.array("c", n); form = v.choice("row", ["none", "given", "keyword"])
    r = None if form == "none" else v.array("r", n); dt = v.choice("dtype", ["default", "float64"])
    T = v.mod("operators").Toeplitz; k = {} if dt == "default" else {"dtype": v.np.float64}
    c0, r0 = v.copy(c), v.copy(r)
    op = T(c, **k) if r is None else T(c, r, **k) if form == "given" else T(c, r=r, **k)
    row = c0 if r is None else r0
    ent = lambda i, j: v.ite(i >= j, v.at(c0, _p(v, i - j)), v.at(row, _p(v, j - i)))
    return n, c, r, c0, r0, op, ent
def _p(v, d): return d if v.sym else abs(d)
def _dense(v, n, ent, x): return v.arr((n,), lambda i: v.sum(0, n, lambda j: ent(i, j) * v.at(x, j)))

def ob_product(v):
    n, c, r, c0, r0, op, ent = _case(v); x = v.array("x", n); x0 = v.copy(x)
    y = op @ x; v.eq("product", y, _dense(v, n, ent, x0)); v.unchanged("vector", x, x0); v.unchanged("column", c, c0)
    if r is not None: v.unchanged("row", r, r0)

def ob_repeat(v):
    """the second application does not see the first, nor later changes of the data the operator was built from"""
    n, c, r, c0, r0, op, ent = _case(v); x, y = v.array("x", n), v.array("y", n); first = op @ x; f0 = v.copy(first)
    if v.choice("meanwhile", ["nothing", "data overwritten"]) == "data overwritten": c[:] = 7.0
    second = op @ y; v.eq("second product", second, _dense(v, n, ent, y)); v.unchanged("first product kept", first, f0)
    first[:] = 1.0; second[:] = 2.0; v.eq("third product", op @ x, f0)

def ob_column(v):
    """column vectors and the direct call of matvec"""
    n, c, r, c0, r0, op, ent = _case(v); x = v.array("x", n, 1); x0 = v.copy(x); X = v.arr((n,), lambda i: v.at(x0, i, 0))
    y = op @ x if v.choice("call", ["@", "matvec"]) == "@" else op.matvec(x)
    v.eq("product", y, v.arr((n, 1), lambda i, _: v.sum(0, n, lambda j: ent(i, j) * v.at(X, j)))); v.unchanged("vector", x, x0)

def ob_shape(v):
    n, c, r, c0, r0, op, ent = _case(v)
    v.eq("rows", op.shape[0], n); v.eq("columns", op.shape[1], n); v.eq("dimensions", len(op.shape), 2); v.true("dtype", op.dtype == v.np.dtype(v.np.float64))
    f = v.mod("operators").Toeplitz(c, dtype=v.np.float32); v.true("requested dtype", f.dtype == v.np.dtype(v.np.float32)); x = v.array("x", n)
    v.true("dtype of the product", (f @ x).dtype == v.np.dtype(v.np.float32)); v.true("dtype of the double product", (op @ x).dtype == v.np.dtype(v.np.float64))

def ob_reject(v):
    n, c, r, c0, r0, op, ent = _case(v); m = v.dim("m", 0, 12); v.assume(m != n)
    x = v.array("x", m) if v.choice("form", ["vector", "matvec"]) == "vector" else None
    v.raises("wrong length", (lambda: op @ x) if x is not None else (lambda: op._matvec(v.array("x", m))), Exception)

def extra_dense(v):
    np = v.np; import scipy.linalg as sl; n = v.rnd.randint(1, 40); dt = v.rnd.choice([np.float64, np.float32]); kind = v.rnd.choice(["float", "int", "list", "complexless"])
    c, r = v.array("c", n), v.array("r", n)
    if kind == "int": c, r = (c * 5).astype(int), (r * 5).astype(int)
    if kind == "list": c, r = c.tolist(), r.tolist()
    one = v.rnd.random() < .4; T = v.mod("operators").Toeplitz; op = T(c, dtype=dt) if one else T(c, r, dtype=dt); D = sl.toeplitz(c, c if one else r).astype(float)
    tol = 1e-9 if dt == np.float64 else 1e-4
    v.eq("shape", op.shape, D.shape); v.true("dtype", op.dtype == dt)
    if kind != "list" and v.rnd.random() < .5: v.eq("as valid operator", v.mod("operators").is_valid_operator(op) == np.dtype(dt), True)
    for k in range(3):
        X = v.array("X", n, v.rnd.randint(1, 4)); X0 = X.copy(); v.eq("block", op @ X, D @ X, tol=tol); x = X[:, 0]; v.eq("strided vector", op @ x, D @ x, tol=tol); v.unchanged("block kept", X, X0)
        xi = v.rng.integers(-5, 6, size=n); v.eq("integer vector", op @ xi, D @ xi, tol=tol)

def extra_scale(v):
    np = v.np; import scipy.linalg as sl; T = v.mod("operators").Toeplitz; n = v.rnd.randint(1, 90); e = v.rnd.choice([-12, -9, -5, 5, 9]); c, r = v.rng.normal(size=n) * 10.0 ** e, v.rng.normal(size=n) * 10.0 ** e; k = v.rnd.randrange(4)
    if k == 1: c = np.rint(c * 10.0 ** -e * 3).astype(v.rnd.choice([np.int64, np.int32])); r = v.rng.normal(size=n); r[0] = c[0]; e = 0      # a row of another type than the column
    if k == 2: r = np.rint(r * 10.0 ** -e * 3).astype(int); c = v.rng.normal(size=n); e = 0
    if k == 3: c, r = c.astype(np.float32), r * v.rng.normal(size=n)
    D = sl.toeplitz(c.astype(float), r.astype(float)); x = v.rng.normal(size=n); g = 10.0 ** e; v.eq("product", (T(c, r) @ x) / g, D @ x / g, tol=1e-9); v.eq("linear", T(c, r) @ (x * 1e-9) * 1e9 / g, D @ x / g, tol=1e-9)
BOUNDS["extra_scale"] = "sizes up to 90, entries at scales 1e-12 to 1e9, columns and rows of different types"

def extra_sizes(v):
    np = v.np; import scipy.linalg as sl; n = v.big("n", 1, 3000); c, r, x = v.rng.normal(size=n), v.rng.normal(size=n), v.rng.normal(size=n); c[0] = r[0]; e, g = 2.0 ** v.rnd.choice([-300, -45, 0, 45]), 2.0 ** v.rnd.choice([-300, -45, 0, 45]); y = v.mod("operators").Toeplitz(e * c, e * r) @ (g * x); y = y / e / g
    for i in {0, n - 1, v.rnd.randrange(n), v.rnd.randrange(n)}: w = c[i::-1] @ x[:i + 1] + (r[1:n - i] @ x[i + 1:] if i + 1 < n else 0.0); v.true(f"entry {i}: {y[i]} expected {w}", bool(abs(y[i] - w) < 1e-8 * np.sqrt(n)))
BOUNDS["extra_sizes"] = "sizes up to 3000, scales 2^-300 to 2^45"

def ob_again(v):
    """the product is that of the values the vector holds at the call"""
    n, c, r, c0, r0, op, ent = _case(v); x, y = v.array("x", n), v.array("y", n); y0 = v.copy(y); op @ x; x[...] = y; v.eq("product", op @ x, _dense(v, n, ent, y0))
