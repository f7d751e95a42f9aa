"""Appending a column updates a triangular inverse exactly."""
FUNCTIONS = ["linalg.update_trinv"]
BOUNDS = {"extra_incremental": "matrices up to 8 x 8, columns appended one by one from the empty matrix"}

def ob_inverse(v):
    n = v.dim("n", 1, 6); B = v.upper("B", n); Bi = v.linalg.inv(B)
    b = v.array("b", n + 1, kind="normal"); v.assume((v.at(b, n) > 0.1) | (v.at(b, n) < -0.1))
    form = v.choice("column", ["vector", "matrix"])
    col = b if form == "vector" else b.reshape((n + 1, 1)) if not v.sym else v.arr((n + 1, 1), lambda i, j: v.at(b, i))
    Bi0, b0 = v.copy(Bi), v.copy(b)
    W = v.mod("linalg").update_trinv(Bi, col)
    full = lambda i, j: v.ite(j < n, v.ite(i < n, v.at(B, _lt(v, i, n), _lt(v, j, n)), 0), v.at(b, i))
    left = v.arr((n + 1, n + 1), lambda i, j: v.sum(0, n + 1, lambda k: v.at(W, i, k) * full(k, j)))
    right = v.arr((n + 1, n + 1), lambda i, j: v.sum(0, n + 1, lambda k: full(i, k) * v.at(W, k, j)))
    I = v.arr((n + 1, n + 1), lambda i, j: v.ite(i == j, 1, 0))
    v.eq("left inverse", left, I); v.eq("right inverse", right, I)
    v.eq("upper triangular", v.arr((n + 1, n + 1), lambda i, j: v.ite(i > j, v.at(W, i, j), 0)), v.arr((n + 1, n + 1), lambda i, j: 0))
    v.unchanged("inverse", Bi, Bi0); v.unchanged("column", b, b0)
def _lt(v, i, n): return i if v.sym or i < n else 0

def ob_fresh(v):
    """a result is not changed by later calls, and the same inverse can be extended twice"""
    n = v.dim("n", 0, 6); B, B2 = v.array("B", n, n), v.array("B2", n, n); b, c = v.array("b", n + 1), v.array("c", n + 1); v.assume((v.at(b, n) > 0.1) | (v.at(b, n) < -0.1)); v.assume((v.at(c, n) > 0.1) | (v.at(c, n) < -0.1)); f = v.mod("linalg").update_trinv
    W = f(B, b); W0 = v.copy(W); f(v.choice("then", [B, B2]), c); v.eq("kept", W, W0); v.eq("again", f(B, b), W0)

def ob_empty(v):
    b = v.array("b", 1); v.assume((v.at(b, 0) > 0.1) | (v.at(b, 0) < -0.1))
    W = v.mod("linalg").update_trinv(v.np.zeros((0, 0)), b); v.eq("inverse", W, v.arr((1, 1), lambda i, j: 1 / v.at(b, 0)))

def ob_reject(v):
    n, m, k = v.dim("n", 0), v.dim("m", 0), v.dim("k", 1); f = v.mod("linalg").update_trinv
    v.assume((n != m) | (k != n + 1))
    v.raises("shapes", lambda: f(v.array("A", n, m), v.array("b", k)), AssertionError)

def extra_incremental(v):
    np = v.np; n = v.dim("n", 1, 8); R = np.triu(v.rng.normal(size=(n, n))); R[np.diag_indices(n)] = np.sign(np.diag(R)) * (np.abs(np.diag(R)) + 1)
    W = np.zeros((0, 0)); Rc = R.copy()
    for j in range(n): W = v.mod("linalg").update_trinv(W, R[:j + 1, j] if v.rnd.random() < .5 else R[:j + 1, [j]])
    v.eq("left", W @ R, np.eye(n), tol=1e-6); v.eq("right", R @ W, np.eye(n), tol=1e-6); v.eq("triangular", np.tril(W, -1), np.zeros((n, n))); v.unchanged("input", R, Rc)
    s = 10.0 ** v.rnd.choice([-12, -6, 6, 12]); W = np.zeros((0, 0))
    for j in range(n): W = v.mod("linalg").update_trinv(W, s * R[:j + 1, j])
    v.eq("scaled", W @ (s * R), np.eye(n), tol=1e-6); G = np.diag(10.0 ** v.rng.integers(-9, 10, size=n)); W = np.zeros((0, 0))
    for j in range(n): W = v.mod("linalg").update_trinv(W, (R @ G)[:j + 1, j])
    v.eq("graded columns", (G @ W) @ R, np.eye(n), tol=1e-6)

def extra_sizes(v):
    np = v.np; n = v.big("n", 1, 150); e = v.rnd.choice([-45, 0, 45]); R = np.triu(v.rng.normal(size=(n, n))) / n + np.eye(n) * v.rnd.choice([-1, 2]); W = np.zeros((0, 0)); f = v.mod("linalg").update_trinv; keep = []
    for j in range(n): W = f(W, 2.0 ** e * R[:j + 1, j]); keep.append((W, W.copy()))
    for j in range(n): f(keep[j][0], v.rng.normal(size=j + 2) + 9)
    v.eq("inverse", (W * 2.0 ** e) @ R, np.eye(n), tol=1e-8); v.true("earlier results are kept", all(np.array_equal(a, b) for a, b in keep))
BOUNDS["extra_sizes"] = "up to 150x150, scales 2^-45 to 2^45"
