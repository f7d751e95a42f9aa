"""Hutch++: the estimate against the QR contract of the sketch, for every operator, sampler, sketch size and mode."""
FUNCTIONS = ["trace.hutchpp", "operators.is_valid_operator", "random.isotropic"]
BOUNDS = {"extra_reference": "matrices up to 12x12 of every rank, samples up to 15, real samplers", "extra_lowrank": "symmetric matrices up to 14x14 with rank at most the sketch size"}
ASSUMPTIONS = ["numpy.linalg.qr returns an orthonormal basis of the column space (QR = Y, Q'Q = I)"]
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]

def _op(v, M):
    np = v.np
    class Op:
        def __init__(self): self.shape, self.dtype = M.shape, M.dtype
        def __matmul__(self, X): return M @ X
        def matvec(self, X): return M @ X
        def quad(self, X): return np.einsum("...i,...i->...", X.T, (M @ X).T)
    return Op()
def _expected(v, B, n, W, G, nb, nb2):
    """(trace of the captured part, quadratic form of the j-th deflated test vector, Q, size of the basis)"""
    Q = v.np.linalg.qr(B @ W, mode="reduced")[0]; k = Q.shape[1]
    cap = v.sum(0, k, lambda a: v.sum(0, n, lambda i: v.sum(0, n, lambda j: v.at(Q, i, a) * v.at(B, i, j) * v.at(Q, j, a))))
    P = Q @ (v.np.transpose(Q) @ G) if False else None
    h = lambda i, j: v.at(G, i, j) - v.sum(0, k, lambda a: v.at(Q, i, a) * v.sum(0, n, lambda l: v.at(Q, l, a) * v.at(G, l, j)))
    H = v.arr((n, nb2), h)
    quad = lambda j: v.sum(0, n, lambda i: v.sum(0, n, lambda l: v.at(H, i, j) * v.at(B, i, l) * v.at(H, l, j)))
    return cap, quad, Q, k

def ob_estimate(v):
    f = v.mod("trace").hutchpp; n = v.dim("n", 1, 8); A = v.array("A", n, n); B = v.copy(A); P = v.sampler(); given = v.choice("samples", ["given", "default"])
    kw = {"m": v.dim("m", 1, 7)} if given == "given" else {}; mode = v.choice("mode", ["reduced", "full", None]); kw.update({"mode": mode} if mode else {})
    full = v.choice("full", [False, True]); r = f(_op(v, A) if v.choice("operator", ["dense", "quad"]) == "quad" else A, pdf=P, full=full, **kw)
    v.eq("two draws", P.calls, 2); W, G = P.draw(0, *P.sizes[0]), P.draw(1, *P.sizes[1]); nb, nb2 = P.sizes[0][1], P.sizes[1][1]
    v.true("at least the samples asked for", (nb >= kw["m"]) if given == "given" else nb >= 1); v.eq("vectors of length n", (P.sizes[0][0], P.sizes[1][0]), (n, n))
    cap, quad, Q, k = _expected(v, B, n, W, G, nb, nb2); est = r[0] if full else r
    v.eq("captured part plus mean deflated part", est, cap + v.sum(0, nb2, quad) / nb2)
    if full: v.eq("result carries the estimate", r[1].estimate, est)
    v.unchanged("operator not modified", A, B)

def ob_capture(v):
    """lemma: if the range of the symmetric matrix is captured (A = Q H Q'), the two parts add up to the trace"""
    n, m, g = v.dim("n", 1, 6), v.dim("m", 1, 5), v.dim("g", 1, 4); v.assume(m <= n); np = v.np
    Q = np.linalg.qr(v.array("Y", n, m), mode="reduced")[0]; H = v.array("H", m, m, sym=True); A = Q @ H @ Q.T; G = v.array("G", n, g)
    D = G - Q @ (Q.T @ G); j = v.dim("j", 0, 3); v.assume(j < g)
    v.eq("deflated part vanishes", v.sum(0, n, lambda i: v.at(D, i, j) * v.at(A @ D, i, j)), 0.0)
    v.eq("captured part is the trace", v.sum(0, m, lambda a: v.sum(0, n, lambda i: v.at(Q, i, a) * v.at(A @ Q, i, a))), v.sum(0, n, lambda i: v.at(A, i, i)))

def ob_stream(v):
    """sketch and test vectors are consecutive draws of the requested distribution for the seed"""
    f = v.mod("trace").hutchpp; n = v.dim("n", 1, 7); m = 3; A = v.array("A", n, n); B = v.copy(A); s = v.seed(); pdf = v.choice("pdf", PDFS + [None]); iso = v.mod("random").isotropic
    g = v.np.random.default_rng(s); W = iso((n, m), pdf=pdf or "rademacher", seed=g); G = iso((n, m), pdf=pdf or "rademacher", seed=g)
    est = f(A, m=m, seed=s, **({"pdf": pdf} if pdf else {})); cap, quad, Q, k = _expected(v, B, n, W, G, m, m)
    v.eq("estimate", est * m, cap * m + v.sum(0, m, quad))

def ob_degenerate(v):
    f = v.mod("trace").hutchpp; P = v.sampler(); n, m = v.dim("n", 1, 5), v.dim("k", 1, 5); Z = v.np.zeros((0, 0))
    v.eq("empty", f(Z, pdf=P), 0.0); e, r = f(Z, pdf=P, full=True); v.eq("empty, full", e, 0.0); v.eq("empty result", r.estimate, 0.0)
    if n != m: v.raises("not square", lambda: f(v.array("A", n, m), pdf=P), AssertionError)
    else: v.raises("not floating", lambda: f(v.np.zeros((n, n), dtype=v.np.int64), pdf=P), AssertionError)
    v.eq("nothing drawn", P.calls, 0)

def extra_reference(v):
    np = v.np; f = v.mod("trace").hutchpp; n = v.rnd.randint(1, 12); A = v.array("A", n, n, sym=v.rnd.random() < .7); s = v.seed(); pdf = v.rnd.choice(PDFS); m = v.rnd.choice([None, v.rnd.randint(1, 15)]); log = []; iso = v.mod("random").isotropic; rng = np.random.default_rng(s)
    def P(size): x = iso(size, pdf=pdf, seed=rng); log.append(x.copy()); return x
    a = f(A, m=m, pdf=P, mode="reduced"); b = f(A, m=m, pdf=pdf, seed=s, mode="full"); c, r = f(A, m=m, seed=s, full=True, **({} if pdf == "rademacher" and v.rnd.random() < .5 else {"pdf": pdf}))
    if np.linalg.matrix_rank(A @ log[0], tol=1e-8) < min(log[0].shape): return
    Q = np.linalg.qr(A @ log[0])[0]; D = log[1] - Q @ (Q.T @ log[1]); want = np.trace(Q.T @ A @ Q) + np.mean([d @ A @ d for d in D.T])
    for nm, x in (("reduced", a), ("full", b), ("full output", c), ("result", r.estimate)): v.eq(nm, x, want, tol=1e-6)

def extra_lowrank(v):
    np = v.np; f = v.mod("trace").hutchpp; n = v.rnd.randint(1, 14); r = v.rnd.randint(0, n); U = np.linalg.qr(v.rng.normal(size=(n, n)))[0][:, :r]; d = v.rng.uniform(.5, 3, size=r) * v.rng.choice([-1, 1], size=r); A = (U * d) @ U.T; A = (A + A.T) / 2
    m = max(r, 1) + v.rnd.randint(0, 3); v.eq("trace", f(A, m=m, pdf="normal", seed=v.seed(), mode=v.rnd.choice(["reduced", "full"])), d.sum(), tol=1e-6)

def extra_scale(v):
    np = v.np; f = v.mod("trace").hutchpp; n = v.rnd.randint(1, 9); A = v.rng.normal(size=(n, n)) + 2 * np.eye(n); A = A + A.T if v.rnd.random() < .7 else A; s = v.seed(); c = 10.0 ** v.rnd.choice([-10, -6, -4, 4, 8]) * v.rnd.choice([-1, 1]); kw = dict(m=v.rnd.choice([None, v.rnd.randint(1, 12)]), mode=v.rnd.choice(["reduced", "full"]), pdf=v.rnd.choice(PDFS), seed=s)
    if kw["pdf"] in PDFS[:2] and n > 1 or np.linalg.cond(A) > 1e4: kw["pdf"] = "normal"
    v.eq("scales with the operator", f(c * A, **kw) / c, f(A, **kw), tol=1e-6)
BOUNDS["extra_scale"] = "matrices up to 9x9 at scales 1e-10 to 1e8"

def extra_sizes(v):
    np = v.np; f = v.mod("trace").hutchpp; n = v.big("n", 1, 150); r = v.rnd.randint(0, min(n, 8)); U = np.linalg.qr(v.rng.normal(size=(n, n)))[0][:, :r]; d = v.rng.uniform(.5, 3, size=r) * v.rng.choice([-1, 1], size=r); A = (U * d) @ U.T; A = (A + A.T) / 2; m = max(r, 1) + v.rnd.choice([0, 3, v.big("more", 1, 200)]); v.eq("trace of a captured operator", f(A, m=m, pdf="normal", seed=v.seed(), mode=v.rnd.choice(["reduced", "full"])), d.sum(), tol=1e-6)
    B = v.rng.normal(size=(n, n)) / np.sqrt(n) + np.eye(n); m = v.rnd.randint(1, max(1, n // 2)); log = []; iso = v.mod("random").isotropic; g = np.random.default_rng(v.seed())
    def P(size): x = iso(size, pdf="normal", seed=g); log.append(x.copy()); return x
    got = f(B, m=m, pdf=P); Q = np.linalg.qr(B @ log[0])[0]; D = log[1] - Q @ (Q.T @ log[1]); v.eq("estimate", got, np.trace(Q.T @ B @ Q) + np.mean([x @ B @ x for x in D.T]), tol=1e-6); v.true("draws", len(log) == 2 and log[0].shape[0] == n and log[0].shape[1] >= m)
BOUNDS["extra_sizes"] = "operators up to 150x150, up to 200 samples"

def extra_again(v):
    """an operator that is overwritten between two calls stands for its values at each"""
    np = v.np; f = v.mod("trace").hutchpp; n = v.rnd.randint(2, 8); A, B = (v.rng.normal(size=(n, n)) + 2 * np.eye(n) for _ in "ab"); A, B = A + A.T, B + B.T; s = v.seed(); kw = v.rnd.choice([{"m": 1, "pdf": "normal"}, {"pdf": "normal", "m": 2, "mode": "full"}, {"pdf": "sphere", "m": 1}]); A0 = A.copy(); r0 = f(A0, seed=s, **kw); op = v.rnd.choice([lambda: A, lambda: v.linop(A)])(); v.eq("first", f(op, seed=s, **kw), r0); A[...] = B; v.eq("second", f(op, seed=s, **kw), f(B.copy(), seed=s, **kw)); v.eq("first again", f(A0, seed=s, **kw), r0)
BOUNDS["extra_again"] = "matrices up to 8x8"
