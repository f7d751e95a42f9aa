"""XDiag: the estimate against the leave-one-out projectors, built from the contracts of numpy's QR factorization and inverse; the lemmas show
that those projectors are the orthogonal projectors onto the span of the sketch without its i-th column."""
FUNCTIONS = ["diagonal.xdiag", "random.isotropic"]
BOUNDS = {"extra_reference": "matrices up to 10x10, every admissible m, real samplers, explicit leave-one-out bases"}
ASSUMPTIONS = ["numpy.linalg.qr returns QR = Y with Q'Q = I and R upper triangular; numpy.linalg.inv returns the two-sided inverse",
               "the sketch A W has full column rank (the leave-one-out estimate needs R to be invertible)"]
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]

def _factors(v, Y):
    """Q and s(a, i): the unit vector of the i-th row of R^-1"""
    np = v.np; Q, R = np.linalg.qr(Y, mode="reduced"); Ri = np.linalg.inv(R); m = Y.shape[1]
    nrm = lambda i: v.sqrt(v.sum(0, m, lambda a: v.at(Ri, i, a) * v.at(Ri, i, a)))
    return Q, R, Ri, lambda a, i: v.at(Ri, i, a) / nrm(i)
def _proj(v, Q, s, m):
    """(k, l) entry of the i-th leave-one-out projector Q (I - s_i s_i') Q'"""
    u = lambda k, i: v.sum(0, m, lambda a: v.at(Q, k, a) * s(a, i))
    return lambda k, l, i: v.sum(0, m, lambda a: v.at(Q, k, a) * v.at(Q, l, a)) - u(k, i) * u(l, i)
def _expected(v, B, W, n, m, k):
    """m times the estimate at k: the sum over i of (P_i A)_kk + w_ki ((I - P_i) A w_i)_k"""
    Y = B @ W; Q, R, Ri, s = _factors(v, Y); P = _proj(v, Q, s, m)
    return v.sum(0, m, lambda i: v.sum(0, n, lambda l: P(k, l, i) * v.at(B, l, k)) + v.at(W, k, i) * (v.at(Y, k, i) - v.sum(0, n, lambda l: P(k, l, i) * v.at(Y, l, i))))

class Counting:
    """an operator that only counts its products"""
    def __init__(self, M, log, T=None): self.M, self.log = M, log; self.shape, self.dtype = M.shape, M.dtype; self.T = T if T is not None else Counting(M.T, log, self)
    def __matmul__(self, X): self.log.append(X.shape); return self.M @ X

def _cols(v, n):
    """every admissible m: 2h or 2h - 1 (rounded up to 2h), capped at 2n; returns the number of vectors and m"""
    h = v.dim("h", 1, 7); odd = v.choice("parity", [0, 1]); m = 2 * h - odd; v.assume(h <= n) if (cap := v.choice("cap", [False, True])) is False else v.assume(h > n)
    return (n if cap else h), m

def ob_estimate(v):
    f = v.mod("diagonal").xdiag; n = v.dim("n", 1, 6); A = v.array("A", n, n, kind="normal"); B = v.copy(A); c, m = _cols(v, n); s = v.seed(); log = []
    d = f(Counting(A, log), m=m, seed=s); W = v.mod("random").isotropic((n, c), pdf="sphere", seed=v.np.random.default_rng(s))
    v.eq("length", v.len(d), n); v.eq("one entry per row", v.ndim(d), 1)
    v.eq("products", (len(log), log[0][1] + log[1][1]), (2, 2 * c))
    k = v.dim("k", 0, 5); v.assume(k < n); v.eq("mean of the leave-one-out estimates", v.at(d, k) * c, _expected(v, B, W, n, c, k)); v.unchanged("operator not modified", A, B)

def ob_full(v):
    """without m: 2n products"""
    f = v.mod("diagonal").xdiag; n = v.dim("n", 1, 5); A = v.array("A", n, n, kind="normal"); B = v.copy(A); s = v.seed(); log = []; d = f(Counting(A, log), seed=s)
    W = v.mod("random").isotropic((n, n), pdf="sphere", seed=v.np.random.default_rng(s)); v.eq("products", (len(log), log[0][1] + log[1][1]), (2, 2 * n))
    k = v.dim("k", 0, 4); v.assume(k < n); v.eq("mean of the leave-one-out estimates", v.at(d, k) * n, _expected(v, B, W, n, n, k))

def ob_stream(v):
    """the vectors are the draw of the requested distribution (spherical by default) for the seed"""
    f = v.mod("diagonal").xdiag; n = v.dim("n", 2, 6); A = v.array("A", n, n, kind="normal"); B = v.copy(A); s = v.seed(); pdf = v.choice("pdf", PDFS + [None]); m = 2
    W = v.mod("random").isotropic((n, m), pdf=pdf or "sphere", seed=v.np.random.default_rng(s))
    d = f(A, m=2 * m, seed=s if v.choice("seed as", ["number", "generator"]) == "number" else v.np.random.default_rng(s), **({"pdf": pdf} if pdf else {}))
    k = v.dim("k", 0, 5); v.assume(k < n); v.eq("estimate", v.at(d, k) * m, _expected(v, B, W, n, m, k))

def _sketch(v):
    n, m = v.dim("n", 1, 6), v.dim("m", 1, 6); v.assume(m <= n); Y = v.array("Y", n, m, kind="normal"); Q, R, Ri, s = _factors(v, Y)
    i = v.dim("i", 0, 5); v.assume(i < m); return n, m, Y, Q, R, s, i
def ob_projector(v):
    """lemma: P_i is the orthogonal projector onto the span of the sketch without its i-th column: it is symmetric and idempotent, fixes every other column, and its trace (= rank) is m - 1"""
    n, m, Y, Q, R, s, i = _sketch(v); P = _proj(v, Q, s, m); k, l, j = v.dim("k", 0, 5), v.dim("l", 0, 5), v.dim("j", 0, 5); v.assume(k < n); v.assume(l < n); v.assume(j < m)
    v.eq("unit", v.sum(0, m, lambda a: s(a, i) * s(a, i)), 1.0)
    v.eq("symmetric", P(k, l, i), P(l, k, i))
    v.eq("trace", v.sum(0, n, lambda k: P(k, k, i)), m - 1)
    v.eq("idempotent", v.sum(0, n, lambda t: P(k, t, i) * P(t, l, i)), P(k, l, i))
    v.eq("fixes the other columns", v.ite(j == i, 0.0, v.sum(0, n, lambda t: P(k, t, i) * v.at(Y, t, j)) - v.at(Y, k, j)), 0.0)

def extra_reference(v):
    np = v.np; f = v.mod("diagonal").xdiag; n = v.rnd.randint(1, 10); A = v.rng.normal(size=(n, n)) + 2 * np.eye(n); A0 = A.copy(); s = v.seed(); pdf = v.rnd.choice(["normal", "sphere"]); m = v.rnd.choice([None, v.rnd.randint(1, 2 * n + 4)])
    log = []; d = f(Counting(A, log) if v.rnd.random() < .5 else A, m=m, pdf=pdf, seed=s); k = n if m is None else min(m + m % 2, 2 * n) // 2
    v.true("products", not log or (len(log) == 2 and sum(x[1] for x in log) == 2 * k)); v.unchanged("operator", A, A0)
    W = v.mod("random").isotropic((n, k), pdf=pdf, seed=np.random.default_rng(s)); Y = A @ W; want = np.zeros(n)
    if np.linalg.cond(Y) > 1e6: return
    for i in range(k):
        Qi = np.linalg.qr(np.delete(Y, i, axis=1))[0]; Pi = Qi @ Qi.T; want += np.diag(Pi @ A) + W[:, i] * (A @ W[:, i] - Pi @ (A @ W[:, i]))
    v.eq("estimate", d, want / k, tol=1e-5)

def extra_scale(v):
    np = v.np; f = v.mod("diagonal").xdiag; n = v.rnd.randint(1, 9); A = v.rng.normal(size=(n, n)) + 3 * np.eye(n); s = v.seed(); c = 10.0 ** v.rnd.choice([-10, -6, -4, 4, 8]) * v.rnd.choice([-1, 1])
    if np.linalg.cond(A) > 1e3: return
    kw = dict(m=v.rnd.choice([None, v.rnd.randint(1, 2 * n)]), seed=s, **v.rnd.choice([{}, {"pdf": "normal"}])); v.eq("scales with the operator", f(c * A, **kw) / c, f(A, **kw), tol=1e-5)
BOUNDS["extra_scale"] = "matrices up to 9x9 at scales 1e-10 to 1e8"

def extra_sizes(v):
    """larger operators, any scale"""
    np = v.np; f = v.mod("diagonal").xdiag; n = v.big("n", 1, 150); k = min(n, v.rnd.randint(1, 14)); A = v.rng.normal(size=(n, n)) / np.sqrt(n) + 3 * np.eye(n); e = 2.0 ** v.rnd.choice([-40, 0, 0, 40]); s = v.seed(); d = f(e * A, m=2 * k - v.rnd.choice([0, 1]), seed=s); W = v.mod("random").isotropic((n, k), pdf="sphere", seed=np.random.default_rng(s)); Y = A @ W; want = np.zeros(n)
    for i in range(k): Q = np.linalg.qr(np.delete(Y, i, axis=1))[0]; want += np.einsum("ij,ij->i", Q, A.T @ Q) + W[:, i] * (Y[:, i] - Q @ (Q.T @ Y[:, i]))
    if np.linalg.cond(Y) < 1e5: v.eq("estimate", d / e, want / k, tol=1e-5)
    d0 = d.copy(); f(-e * A, m=2 * k, seed=s); v.true("earlier results are kept", np.array_equal(d, d0))
BOUNDS["extra_sizes"] = "operators up to 150x150, up to 14 vectors, scales 2^-40 to 2^40"

def extra_again(v):
    """an operator that is overwritten between two calls stands for its values at each"""
    np = v.np; f = v.mod("diagonal").xdiag; n = v.rnd.randint(2, 8); A, B = (v.rng.normal(size=(n, n)) + 2 * np.eye(n) for _ in "ab"); A, B = A + A.T, B + B.T; s = v.seed(); kw = v.rnd.choice([{}, {"m": 2}, {"m": 4, "pdf": "normal"}]); A0 = A.copy(); r0 = f(A0, seed=s, **kw); op = v.rnd.choice([lambda: A, lambda: v.linop(A)])(); v.eq("first", f(op, seed=s, **kw), r0); A[...] = B; v.eq("second", f(op, seed=s, **kw), f(B.copy(), seed=s, **kw)); v.eq("first again", f(A0, seed=s, **kw), r0)
BOUNDS["extra_again"] = "matrices up to 8x8"
