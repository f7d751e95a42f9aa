"""Spectral normalisation: the affine map that sends the spectrum into the unit interval."""
FUNCTIONS = ["operators.normalize_unit"]
BOUNDS = {"extra_spectrum": "symmetric operators up to 12x12 (dense, sparse, matrix-free), definite and indefinite, real eigsh"}
ASSUMPTIONS = ["contract of scipy eigsh(A, k=1, which='LM'): one eigenvalue a of A of largest magnitude (A u = a u for some u != 0, |l| <= |a| for every eigenvalue l); k < n is required",
               "scipy's LinearOperator arithmetic is the arithmetic of the operators", "A is not the zero operator (a != 0)"]

def _op(v, A):
    form = v.choice("form", ["dense", "sparse", "matrix-free"])
    return A if form == "dense" else v.sparse(A) if form == "sparse" else v.linop(A)
def _case(v, plain=False):
    n = v.dim("n", 1, 8); A = v.array("A", n, n) if plain and v.sym else v.array("A", n, n, sym=True); A0 = v.copy(A)
    if not v.sym:
        w = v.np.linalg.eigvalsh(A); a = w[v.np.argmax(abs(w))]; v.assume(abs(a) > 1e-3 and v.np.sum(abs(abs(w) - abs(a)) < 1e-6) == 1)
        return n, A, A0, a
    a = v.uf("LM"); v.assume((a > 0) | (a < 0)); v.np_provide_lm("LM", A, n); one = v.choice("one by one", [True, False]); v.assume(n == 1 if one else n > 1)
    if one: v.assume(a == v.at(A, 0, 0))
    def eigsh(B, k=6, which="LM", return_eigenvectors=True, **kw):
        if kw: raise v.unsupported("eigsh options")
        if bool(v.len(A) <= k): raise TypeError("Cannot use scipy.linalg.eigh for LinearOperator A with k >= N.")
        if k != 1: raise v.unsupported("eigsh(k)")
        x = v.arr((n,), lambda i: v.uf("probe", i)); v.eq("eigsh is asked about the operator itself", B @ x, v.arr((n,), lambda i: v.sum(0, n, lambda j: v.at(A0, i, j) * v.at(x, j))))
        w = v.np.array([v.uf("LM") if which == "LM" else v.uf("eigenvalue " + which)])
        return (w, v.arr((n, 1), lambda i, _: v.uf("ritz " + which, i))) if return_eigenvectors else w
    v.hook("eigsh", eigsh); return n, A, A0, a

def ob_affine(v):
    n, A, A0, a = _case(v); op = _op(v, A); N = v.mod("operators").normalize_unit(op); x = v.array("x", n); x0 = v.copy(x)
    v.eq("affine function of the operator", N @ x, v.arr((n,), lambda i: (v.sum(0, n, lambda j: v.at(A0, i, j) * v.at(x0, j)) + a * v.at(x0, i)) / (2 * a)))
    v.unchanged("operator", A, A0); v.unchanged("vector", x, x0); v.eq("rows", N.shape[0], n); v.eq("columns", N.shape[1], n)

def ob_eigen(v):
    """an eigenvector u of A for l (|l| <= |a|) is one of the result, for (l + a) / 2a in [0, 1]; for l = a it is 1"""
    n, A, A0, a = _case(v, True)
    if v.sym:
        u, l = v.array("u", n), v.real("l");
        v.lemma("", "eigenvector", [("A", ("i", "j")), ("u", ("j",))], {"j": n}, lambda b: l * v.uf("u", b["i"])); v.novalue("u", "l")
        v.assume(l * l <= a * a); U = u
        if v.isone(n): v.assume(l == a)          # the only eigenvalue
    else:
        w, V = v.np.linalg.eigh(A); k = v.rnd.randrange(n); U, l = V[:, k], w[k]
    N = v.mod("operators").normalize_unit(_op(v, A)); m = (l + a) / (2 * a)
    v.eq("eigenvector kept", N @ U, v.arr((n,), lambda i: m * v.at(U, i))); v.true("at most one", m <= 1 + (0 if v.sym else 1e-9)); v.true("at least zero", m >= (0 if v.sym else -1e-9))

def extra_spectrum(v):
    np = v.np; n = v.rnd.randint(1, 12); kind = v.rnd.choice(["any", "positive", "negative", "scaled"]); Q = np.linalg.qr(v.rng.normal(size=(n, n)))[0]
    w = v.rng.uniform(.1, 1, size=n); w = {"any": w * v.rng.choice([-1, 1], size=n), "positive": w, "negative": -w, "scaled": w * 1e4}[kind]; v.trace["w"] = w
    if n > 1 and np.sum(abs(abs(w) - abs(w).max()) < 1e-2 * abs(w).max()) > 1: return
    A = Q @ np.diag(w) @ Q.T; A = (A + A.T) / 2; A0 = A.copy(); a = w[np.argmax(abs(w))]; f = v.mod("operators").normalize_unit
    B = (A + a * np.eye(n)) / (2 * a); interval = v.rnd.random() < .3
    for op in (A, v.sparse(A), v.linop(A)):
        N = f(op, (-1, 1)) if interval else f(op); D = np.column_stack([N @ e for e in np.eye(n)])
        v.eq("operator", D, B, tol=1e-6); ev = np.linalg.eigvalsh((D + D.T) / 2); v.true("in the unit interval", ev.min() >= -1e-6 and ev.max() <= 1 + 1e-6); v.eq("largest maps to one", ev.max(), 1.0, tol=1e-6)
    v.unchanged("operator kept", A, A0)

def extra_scale(v):
    np = v.np; n = v.rnd.randint(1, 9); Q = np.linalg.qr(v.rng.normal(size=(n, n)))[0]; w = np.sort(v.rng.uniform(.1, .8, size=n)) * v.rng.choice([-1, 1], size=n); w[-1] = v.rnd.choice([-1, 1]); A = (Q * w) @ Q.T; A = (A + A.T) / 2; c = 10.0 ** v.rnd.choice([-9, -6, -4, 4, 8]) * v.rnd.choice([-1, 1]); f = v.mod("operators").normalize_unit; v.trace.update(w=w, c=c)
    for op in (c * A, v.sparse(c * A), v.linop(c * A)): v.eq("does not depend on the scale", f(op) @ np.eye(n), (A + w[-1] * np.eye(n)) / (2 * w[-1]), tol=1e-6)
BOUNDS["extra_scale"] = "matrices up to 9x9 at scales 1e-9 to 1e8, both signs"

def extra_sizes(v):
    np = v.np; n = v.big("n", 1, 120); w = v.rng.uniform(-.7, .7, size=n); w[0] = v.rnd.choice([-1, 1]); Q = np.linalg.qr(v.rng.normal(size=(n, n)))[0]; A = (Q * w) @ Q.T; A = (A + A.T) / 2; s = 2.0 ** v.rnd.choice([-40, 0, 40]); N = v.mod("operators").normalize_unit(v.rnd.choice([lambda: s * A, lambda: v.sparse(s * A), lambda: v.linop(s * A)])()); x = v.rng.normal(size=n); v.eq("operator", N @ x, (A @ x + w[0] * x) / (2 * w[0]), tol=1e-6)
BOUNDS["extra_sizes"] = "sizes up to 120, scales 2^-40 to 2^40"

def extra_again(v):
    """an operator that is overwritten between two calls stands for its values at each"""
    np = v.np; n = v.rnd.randint(1, 8); Q = np.linalg.qr(v.rng.normal(size=(n, n)))[0]; ws = [np.r_[v.rnd.choice([-1, 1]), v.rng.uniform(-.7, .7, size=n - 1)] for _ in "ab"]; A, B = ((Q * w) @ Q.T for w in ws); A, B = (A + A.T) / 2, (B + B.T) / 2; f = v.mod("operators").normalize_unit; op = v.rnd.choice([lambda: A, lambda: v.linop(A)])(); x = v.rng.normal(size=n); f(op) @ x; A[...] = B; v.eq("new operator", f(op) @ x, (B @ x + ws[1][0] * x) / (2 * ws[1][0]), tol=1e-6)
BOUNDS["extra_again"] = "matrices up to 8x8"
