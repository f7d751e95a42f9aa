"""Random matrices with a prescribed spectrum: A = U diag(ew) U' for an orthogonal U."""
FUNCTIONS = ["random.symmetric", "random.haar"]
BOUNDS = {"extra_spectra": "sizes up to 14"}
ASSUMPTIONS = ["numpy qr returns an orthogonal factor", "scipy ortho_group.rvs returns an orthogonal matrix", "a matrix U diag(w) U' with U orthogonal has eigenvalues w (spectral theorem)"]
EPS = 2.0 ** -52

def _spectrum(v, label, A, n, w):
    """A = U diag(w) U' with one of the orthogonal matrices at hand"""
    if not v.sym:
        a = v.np.asarray(A); v.eq(label, v.np.linalg.eigvalsh(a), v.np.sort(v.np.asarray(w, dtype=float))); return
    v.some(label, [lambda U=U: (A, v.arr((n, n), lambda i, j: v.sum(0, n, lambda k: v.at(U, i, k) * v.at(w, k) * v.at(U, j, k)))) for U in v.orthogonals(n)])
def _sym(v, A, n, exact=True):
    v.eq("shape", A.shape, (n, n)); i, j = v.dim("i", 0, 6), v.dim("j", 0, 6); v.assume((i < n) & (j < n))
    if v.sym or not exact: v.eq("symmetric", v.at(A, i, j), v.at(A, j, i))
    else: v.true("exactly symmetric", bool((A == A.T).all()))

def ob_symmetric(v):
    f = v.mod("random").symmetric; n = v.dim("n", 2, 7); s = v.seed(); dist = v.choice("dist", ["normal", "uniform"]); w = v.array("ew", n); w0 = v.copy(w); pd = v.choice("pd", [False, True])
    A = f(n, dist=dist, pd=pd, ew=w, seed=s); v.unchanged("eigenvalues", w, w0); _sym(v, A, n)
    W = v.arr((n,), lambda i: v.ite(v.at(w, i) < EPS, EPS, v.at(w, i))) if pd else w
    _spectrum(v, "spectrum", A, n, W); v.eq("repeatable", f(n, dist=dist, pd=pd, ew=w, seed=s), A)
    if pd: k = v.dim("k", 0, 6); v.assume(k < n); v.true("positive", v.at(W, k) > 0)

def ob_random_spectrum(v):
    """eigenvalues drawn when not given: in [-1, 1], positive with positive-definite requested"""
    f = v.mod("random").symmetric; n = v.dim("n", 2, 7); s = v.seed(); dist = v.choice("dist", ["normal", "uniform"]); pd = v.choice("pd", [False, True]); A = f(n, dist=dist, pd=pd, seed=s); _sym(v, A, n)
    v.eq("repeatable", f(n, dist=dist, pd=pd, seed=v.np.random.default_rng(s)), A)
    if not v.sym:
        w = v.np.linalg.eigvalsh(A); v.true("range", bool((w > -1e-9 if pd else w > -1 - 1e-9).all() and (w < 1 + 1e-9).all()))

def ob_haar(v):
    f = v.mod("random").haar; n = v.dim("n", 2, 7); s = v.seed(); w = v.array("ew", n); w0 = v.copy(w); A = f(n, w, seed=s); v.unchanged("eigenvalues", w, w0); _sym(v, A, n, False)
    _spectrum(v, "spectrum", A, n, w); v.eq("repeatable", f(n, w, seed=s), A); v.eq("continues a generator", f(n, w, seed=v.np.random.default_rng(s)), A)

def ob_haar_default(v):
    f = v.mod("random").haar; n = v.dim("n", 2, 7); s = v.seed(); A = f(n, seed=s); _sym(v, A, n, False); v.eq("repeatable", f(n, seed=s), A)
    if not v.sym: w = v.np.linalg.eigvalsh(A); v.true("range", bool((abs(w) < 1 + 1e-9).all()))

def ob_reject(v):
    R = v.mod("random"); n = v.dim("n", 2, 7); m = v.dim("m", 1, 9); v.assume((m < n) | (m > n))
    v.raises("haar: wrong number of eigenvalues", lambda: R.haar(n, v.array("w", m), seed=1), (AssertionError, ValueError))
    v.raises("symmetric: wrong number of eigenvalues", lambda: R.symmetric(n, ew=v.array("u", m + 1 if v.isone(m) else m), seed=1), (AssertionError, ValueError)) if not v.isone(m) else None
    v.raises("unknown distribution", lambda: R.symmetric(n, dist=v.choice("dist", ["", "Normal", "sphere"])), ValueError)

def extra_spectra(v):
    np = v.np; R = v.mod("random"); n = v.rnd.randint(1, 14); s = v.seed(); w = v.rng.normal(size=n) * v.rnd.choice([1, 1e3]); k = v.rnd.randrange(4)
    if k == 0: w[:] = 2.0
    if k == 1: w[n // 2:] = 0
    w0 = w.copy()
    for A, want in ((R.haar(n, w, seed=s), w), (R.symmetric(n, dist=v.rnd.choice(["normal", "uniform"]), ew=w, seed=s), w), (R.symmetric(n, pd=True, ew=w, seed=s), np.maximum(w, EPS))):
        v.eq("spectrum", np.linalg.eigvalsh(A), np.sort(want)); v.eq("symmetric", A, A.T)
    v.unchanged("eigenvalues", w, w0); l = list(w); v.eq("list of eigenvalues", R.haar(n, l, seed=s), R.haar(n, w, seed=s)); v.eq("list of eigenvalues", R.symmetric(n, ew=l, seed=s), R.symmetric(n, ew=w, seed=s))
    if n > 1: v.true("seed matters", not np.allclose(R.haar(n, np.arange(n), seed=s), R.haar(n, np.arange(n), seed=s + 1)))

def extra_scale(v):
    """spectra of any scale and size, graded spectra, exact entries"""
    np = v.np; R = v.mod("random"); n = v.big("n", 2, 90); e = 2.0 ** v.rnd.choice([-60, -45, -20, 0, 45]); w = v.rng.normal(size=n); s = v.seed(); v.trace["scale"] = e
    for A in (R.haar(n, e * w, seed=s), R.symmetric(n, dist=v.rnd.choice(["normal", "uniform"]), ew=e * w, seed=s)): v.eq("spectrum", np.linalg.eigvalsh(A / e), np.sort(w), tol=1e-11); v.eq("symmetric", A / e, A.T / e, tol=1e-13)
    A = R.symmetric(n, pd=True, ew=max(e, 2.0 ** -40) * (abs(w) + .1), seed=s); v.eq("positive spectrum", np.linalg.eigvalsh(A / max(e, 2.0 ** -40)), np.sort(abs(w) + .1), tol=1e-11)
    A0 = A.copy(); B = R.haar(n, w, seed=s); B0 = B.copy(); R.symmetric(n, pd=True, ew=abs(w), seed=s + 1); R.haar(n, w, seed=s + 1); v.true("earlier matrices are kept", np.array_equal(A, A0) and np.array_equal(B, B0))
BOUNDS["extra_scale"] = "sizes up to 90, scales 2^-60 to 2^45"
