"""Lanczos front end: buffers handed to the recurrence, output formats, Ritz values; orthonormality and T = Q'AQ of the native recurrence."""
FUNCTIONS = ["lanczos.lanczos", "lanczos.rayleigh_ritz", "include/lanczos.h: lanczos_recurrence"]
NATIVE = EXTRACT = True; CON_SECONDS = 10; SYM_SECONDS = 300
BOUNDS = {"extra_basis": "operators up to 12x12 in 12 containers, 32 and 64 bit, all degrees up to n+2, full re-orthogonalisation, compiled extension", "extra_windows": "degrees up to 4, all windows", "extra_wide": "25x25 to 50x50, condition number 1e4", "extra_seeds": "up to 12x12", "extra_rejects": "up to 12x12"}
ASSUMPTIONS = ["real arithmetic: orthonormality and T = Q'AQ are shown for exact arithmetic (for any window); in floating point they are measured within bounds with full re-orthogonalisation", "the operator is symmetric", "pybind11 passes arrays of the registered type and order without a copy (the binding itself: C27) and converts the start vector (checked on the compiled extension)", "sizes below 2^30; Eigen computes what its functions name", "scipy.sparse.spdiags; numpy.random.Generator is a function of its seed", "mod, orth_vector and the operators through their contracts (C27), the tridiagonal solvers through theirs (C15)"]

class _Native:
    """contract of the extension (C27): alpha[:deg], beta[:deg+1], Q and the vector are written, beta[0] = 0, nothing else"""
    _opaque_ghost = True
    tag = ""
    def __init__(self, v, n): self.v, self.n, self.calls = v, n, []
    def lanczos(self, A, q, deg, rtol, orth, alpha, beta, Q):
        v, n = self.v, self.n; v.true("one run", not self.calls)
        v.eq("vector: size", q.shape, (n,)); v.eq("basis: rows", Q.shape[0], n); v.true("basis: at least two columns, or one step", (Q.shape[1] >= 2) | (deg <= 1))
        v.true("basis: at least one column", Q.shape[1] >= 1)
        v.true("alpha: size", alpha.shape[0] >= deg); v.true("beta: size", beta.shape[0] >= deg + 1); v.true("steps", deg >= 1)
        v.true("one precision", alpha.dtype == beta.dtype == Q.dtype and alpha.dtype in (v.np.float64, v.np.float32)); v.true("column order", Q.flags["F_CONTIGUOUS"])
        self.calls.append((A, v.copy(q), deg, rtol, orth, v.copy(Q), Q, q.dtype, alpha.dtype))
        al0, be0 = v.copy(alpha), v.copy(beta)
        v.store(alpha, lambda i: v.ite(i + 1 <= deg, v.uf("al" + self.tag, i), v.at(al0, i))); v.store(beta, lambda i: v.ite(i <= 0, 0, v.ite(i <= deg, v.uf("be" + self.tag, i), v.at(be0, i))))
        v.store(Q, lambda i, a: v.uf("QQ" + self.tag, i, a)); v.store(q, lambda i: v.uf("rest" + self.tag, i))

def ob_front(v):
    if not v.sym: return
    np = v.np; n = v.dim("n", 1); M = v.array("A", n, n, sym=True); nat = _Native(v, n); v.override("_lanczos", nat); f = v.mod("lanczos").lanczos
    kind = v.choice("container", ["dense", "sparse", "operator"]); A = {"dense": lambda: M, "sparse": lambda: v.sparse(M), "operator": lambda: v.linop(M)}[kind]()
    kw = {}; deg = n
    if v.choice("degree", ["default", "given"]) == "given": deg = kw["deg"] = v.dim("deg", 1)
    D = n if bool(deg >= n) else deg
    orth = kw["orth"] = v.free("orth"); rtol = kw["rtol"] = v.real("rtol"); sp = kw["sparse_mat"] = v.choice("sparse_mat", [False, True]); rb = kw["return_basis"] = v.choice("return_basis", [False, True])
    x = None; M0 = v.copy(M)
    if v.choice("start", ["given", "random"]) == "given": x = kw["v0"] = v.array("x", n); x0 = v.copy(x)
    else: kw["seed"] = v.seed()
    r = f(A, **kw); (A1, q, d, rt, o, Q0, Q, qd, fd), = nat.calls
    v.eq("degree", d, D); v.true("operator", A1 is A); v.eq("tolerance", rt, rtol); v.eq("window", o, v.ite((orth < 0) | (orth >= D + 1), D, orth)); v.eq("basis starts empty", Q0, v.arr(Q0.shape, lambda i, a: 0))
    if rb: v.eq("basis columns", Q.shape[1], D); T, Qr = r; v.true("the basis is returned", Qr is Q)
    else: T = r
    al, be = (lambda i: v.uf("al", i)), (lambda i: v.uf("be", i))
    if sp: v.eq("sparse form", T.toarray(), v.arr((D, D), lambda i, j: v.ite(i == j, al(i), v.ite(i == j + 1, be(i), v.ite(j == i + 1, be(j), 0)))))
    else: v.eq("diagonal", T[0], v.arr((D,), al)); v.eq("off-diagonal", T[1], v.arr((D - 1,), lambda i: be(i + 1)))
    if x is not None: v.eq("start vector handed over", q, x0); v.eq("start vector not modified", x, x0)
    v.eq("operator not modified", M, M0)

# ------------------------------------------------------------ the recurrence with all vectors stored
def _mod(v):
    """contract of mod (C27) for the arguments that occur here"""
    def mod(x, b):
        v.true("modulus is positive", b >= 1)
        if bool(x >= 0):
            if bool(x + 1 <= b): return x
            v.true("index at most one beyond the last", x <= b); return 0
        v.true("index at least minus one", x >= -1); return b - 1
    return mod
class _Op:
    """contract of the operator: matvec writes A x (C27)"""
    _opaque_ghost = True
    def __init__(self, v, A, n): self.v, self.A, self.n = v, A, n
    def shape(self): return self.v.rt.pair(self.n, self.n)
    def matvec(self, x, y):
        v, n, A = self.v, self.n, self.A; rt = v.rt
        X = rt.map_vector(x, n).a; Y = rt.map_vector(y, n).a; f = v.copy(X); v.store(Y, lambda i: v.sum(0, n, lambda j: v.at(A, i, j) * v.at(f, j)))

def _exact(v, part):
    """symmetric operator, all vectors stored: they stay orthonormal, T = Q'AQ, whatever the window (in exact arithmetic)"""
    if not v.sym: return
    nat = v.native(); rt = v.rt; n = v.dim("n", 1); deg = v.dim("deg", 1); ncv = deg + v.dim("wider", 0)
    if not bool(ncv >= 2): v.assume(deg <= 1)
    A = v.array("A", n, n); Q = v.arr((n, ncv), lambda i, a: v.const(0)); q = v.array("q", n); al = v.array("alpha", deg); be = v.array("beta", deg + 1); q0 = v.copy(q)
    orth = v.free("orth"); rtol = v.real("rtol", pos=True); nat.mod = _mod(v); st = v.ghost().d; u = v.uf
    qq = v.sum(0, n, lambda i: v.at(q0, i) * v.at(q0, i)); v.assume(qq > 0); dot = lambda f, g: v.sum(0, n, lambda i: f(i) * g(i)); A_ = lambda f: (lambda i: v.sum(0, n, lambda j: v.at(A, i, j) * f(j)))
    def orth_vector(w, U, start, p, reverse=False):
        """contract (C27): a vector orthogonal to every column is left as it was"""
        rt.same("sizes", w.rows(), U.rows()); a = v.free("col"); v.assume(a >= 0); v.assume(a + 1 <= U.cols()); v.eq("remainder orthogonal to every stored vector", dot(lambda i: v.at(w.a, i), lambda i: v.at(U.a, i, a)), 0)
    nat.orth_vector = orth_vector
    def assume_state(k):
        """columns 0..k orthonormal, A q_i = beta_i q_(i-1) + alpha_i q_i + beta_(i+1) q_(i+1) for i < k; A is symmetric"""
        v.lemma("", "orthonormal", [("Q1", ("i", "a")), ("Q1", ("i", "b"))], {"i": n}, lambda b: v.ite(b["a"] == b["b"], 1, 0), lambda b: [b["a"] <= k, b["b"] <= k])
        rel = lambda r: lambda b: v.ite(b["j"] >= 1, u("b1", b["j"]) * u("Q1", b[r], b["j"] - 1), 0) + u("a1", b["j"]) * u("Q1", b[r], b["j"]) + u("b1", b["j"] + 1) * u("Q1", b[r], b["j"] + 1)
        cond = lambda b: [b["j"] + 1 <= k, b["j"] >= 0]
        v.lemma("", "relation", [("A", ("r", "l")), ("Q1", ("l", "j"))], {"l": n}, rel("r"), cond); v.lemma("", "relation'", [("A", ("l", "r")), ("Q1", ("l", "j"))], {"l": n}, rel("r"), cond); v.novalue("Q1", "a1", "b1", "A")
    def check(loc, k):
        Qn = lambda a: (lambda i: v.at(loc["Q"].a, i, a)); a, b = v.free("a"), v.free("b")
        for x in (a, b): v.assume(x >= 0); v.assume(x <= k)
        v.true("a step remains", k + 1 <= deg)
        if part == "empty":
            z = v.free("z"); v.assume(z > k); v.assume(z + 1 <= ncv); v.eq("later columns are empty", v.arr((n,), Qn(z)), v.arr((n,), lambda i: 0)); v.eq("current column", loc["pos"][1], k); return
        last = [bool(a == k), part == "orthonormal" and bool(b == k)]
        if part == "orthonormal": v.eq("orthonormal", dot(Qn(k if last[0] else a), Qn(k if last[1] else b)), 1 if all(last) else 0 if any(last) else v.ite(a == b, 1, 0))
        if part == "relation" and not last[0]:
            prev = bool(a == k - 1); A1 = k - 1 if prev else a; B = lambda j: v.at(be, j)
            first = bool(A1 <= 0); one = lambda i: A_(Qn(A1))(i) - ((0 if first else B(A1) * Qn(A1 - 1)(i)) + v.at(al, A1) * Qn(A1)(i) + B(A1 + 1) * Qn(A1 + 1)(i))
            v.eq("three-term relation", v.arr((n,), one), v.arr((n,), lambda i: 0))
    def havoc(loc, k):
        v.assume(k + 1 <= deg); st["k"] = k; assume_state(k)
        v.store(Q, lambda i, a: v.ite(a <= k, u("Q1", i, a), 0)); v.store(q, lambda i: u("v1", i)); v.store(al, lambda i: u("a1", i)); v.store(be, lambda i: v.ite(i <= 0, 0, u("b1", i)))
        p, x = nat.mod(k - 1, ncv), nat.mod(k + 1, ncv)
        for s, y in enumerate((p, k, x)): list.__setitem__(loc["pos"], s, y)
        return {}
    v.invariant("native.lanczos_recurrence:0", check, havoc)
    nat.lanczos_recurrence(_Op(v, A, n), rt.ptr(q), deg, rtol, orth, rt.ptr(al), rt.ptr(be), rt.ptr(Q), ncv)
    if part != "projection": return
    k = st["k"]; i, j = v.free("i"), v.free("j"); c = lambda a: (lambda r: v.at(Q, r, a))
    for x in (i, j): v.assume(x >= 0); v.assume(x <= k)
    T = lambda i, j: v.ite(i == j, v.at(al, i), v.ite(i == j + 1, v.at(be, i), v.ite(j == i + 1, v.at(be, j), 0)))
    J = k if bool(j == k) else j; I_ = k if bool(i == k) else i
    v.eq("T = Q'AQ", dot(c(I_), A_(c(J))), T(I_, J))
def ob_exact_orthonormal(v): _exact(v, "orthonormal")
def ob_exact_relation(v): _exact(v, "relation")
def ob_exact_projection(v): _exact(v, "projection")
def ob_exact_empty(v): _exact(v, "empty")

def ob_start(v):
    """the first stored vector is the normalised start vector, from the first step to the last"""
    if not v.sym: return
    nat = v.native(); rt = v.rt; n = v.dim("n", 1); deg = v.dim("deg", 1); ncv = deg + v.dim("wider", 0)
    if not bool(ncv >= 2): v.assume(deg <= 1)
    A = v.array("A", n, n); Q = v.array("Q", n, ncv, order="F"); q = v.array("q", n); al = v.array("alpha", deg); be = v.array("beta", deg + 1); q0 = v.copy(q); orth = v.free("orth"); rtol = v.real("rtol", pos=True); nat.mod = _mod(v); u = v.uf
    qq = v.sum(0, n, lambda i: v.at(q0, i) * v.at(q0, i)); v.assume(qq > 0); first = lambda i: v.at(q0, i) / v.sqrt(qq); nat.orth_vector = lambda w, U, start, p, reverse=False: v.store(w.a, lambda i: u("reorth", i))
    def check(loc, k):
        v.true("a step remains", k + 1 <= deg); v.eq("current column", loc["pos"][1], k); v.eq("first vector", v.arr((n,), lambda i: v.at(loc["Q"].a, i, 0)), v.arr((n,), first))
    def havoc(loc, k):
        v.assume(k + 1 <= deg); v.store(Q, lambda i, a: v.ite(a <= 0, first(i), u("Q1", i, a))); v.store(q, lambda i: u("v1", i)); v.store(al, lambda i: u("a1", i)); v.store(be, lambda i: u("b1", i))
        for s, y in enumerate((nat.mod(k - 1, ncv), k, nat.mod(k + 1, ncv))): list.__setitem__(loc["pos"], s, y)
        return {}
    v.invariant("native.lanczos_recurrence:0", check, havoc)
    nat.lanczos_recurrence(_Op(v, A, n), rt.ptr(q), deg, rtol, orth, rt.ptr(al), rt.ptr(be), rt.ptr(Q), ncv)
    v.eq("first vector", v.arr((n,), lambda i: v.at(Q, i, 0)), v.arr((n,), first))

def _plain(v, n, dt="float64", kind=None):
    M = v.array("A", n, n, sym=True, dtype=dt); kind = kind or v.choice("container", ["dense", "sparse", "operator"])
    return M, {"dense": lambda: M, "sparse": lambda: v.sparse(M), "operator": lambda: v.linop(M)}[kind]()

def ob_types(v):
    """precision of the run: that of the operator unless asked otherwise; anything but 32- and 64-bit floats is rejected"""
    if not v.sym: return
    np = v.np; n = v.dim("n", 2); dt = v.choice("dtype", ["float64", "float32", "int64", "bool", "complex128"]); want = v.choice("asked for", [None, "float64", "float32"])
    M, A = _plain(v, n, dt); nat = _Native(v, n); v.override("_lanczos", nat); f = v.mod("lanczos").lanczos; kw = {} if want is None else {"dtype": getattr(np, want)}; x = v.array("x", n)
    if dt not in ("float64", "float32"): v.raises("rejected", lambda: f(A, v0=x, deg=2, **kw)); v.true("nothing is run", not nat.calls); return
    a, b = f(A, v0=x, deg=2, **kw); v.true("precision of the coefficients", a.dtype == b.dtype == np.dtype(getattr(np, want or dt)))

def ob_seed(v):
    """the random start vector depends on the seed alone and has as many entries as the operator columns"""
    if not v.sym: return
    n = v.dim("n", 1); M, A = _plain(v, n, kind="dense"); nat = _Native(v, n); v.override("_lanczos", nat); f = v.mod("lanczos").lanczos; s = v.seed(); kw = {"deg": v.dim("deg", 1)} if v.choice("degree", ["default", "given"]) == "given" else {}
    f(A, seed=s, **kw); q1 = nat.calls.pop(); f(A, seed=s, **kw); q2 = nat.calls.pop()
    v.eq("same start vector", q1[1], q2[1]); v.eq("same degree", q1[2], q2[2]); v.eq("same tolerance", q1[3], q2[3]); v.eq("same window", q1[4], q2[4]); v.eq("same basis", q1[5], q2[5])

def ob_reject(v):
    if not v.sym: return
    n = v.dim("n", 2); M, A = _plain(v, n); nat = _Native(v, n); v.override("_lanczos", nat); f = v.mod("lanczos").lanczos; why = v.choice("why", ["degree", "length"])
    if why == "degree": d = v.free("deg"); v.assume(d <= 0); v.raises("non-positive degree", lambda: f(A, deg=d))
    else:
        m = v.dim("m", 0); v.assume((m < n) | (m > n)); x = v.array("x", m); v.raises("start vector of the wrong length", lambda: f(A, v0=x, deg=2))
    v.true("nothing is run", not nat.calls)

def ob_ritz(v):
    """Ritz values and vectors are the eigenpairs of the matrix the front end returns, for the (capped) degree"""
    if not v.sym: return
    n = v.dim("n", 1); M, A = _plain(v, n, kind="dense"); log, out = v.ghost().items, v.ghost().items; nat = _Native(v, n); v.override("_lanczos", nat); kw = {}; D = n
    if v.choice("degree", ["default", "given"]) == "given": kw["deg"] = v.free("deg"); v.assume(kw["deg"] >= 1); D = n if bool(kw["deg"] >= n) else kw["deg"]
    if bool(D < 2) and bool(n >= 2): D = 2
    L = v.mod("lanczos")
    def lanczos(A, v0=None, deg=None, rtol=1e-8, orth=0, sparse_mat=False, return_basis=False, seed=None, dtype=None, **k):
        log.append((A, v0, deg, rtol, orth, sparse_mat, return_basis, seed, dtype, k)); T = v.array("al", deg), v.array("be", deg - 1); out.append(T)
        return (T, "basis") if return_basis else T
    eig = v.ghost().items
    def eigh(d, e, **k): eig.append(("vectors", d, e)); return "values", "vectors"
    def eigvalsh(d, e, **k): eig.append(("values", d, e)); return "values"
    v.contract("lanczos", "lanczos", lanczos); v.contract("lanczos", "eigh_tridiag", eigh); v.contract("lanczos", "eigvalsh_tridiag", eigvalsh)
    ev, rb = v.choice("vectors", [False, True]), v.choice("basis", [False, True]); rt, o, x = v.real("rtol"), v.free("orth"), v.array("x", n)
    r = L.rayleigh_ritz(A, return_eigenvectors=ev, rtol=rt, orth=o, v0=x, **({"return_basis": True} if rb else {}), **kw)
    (A1, v0, d, rt1, o1, sm, rb1, sd, dt, k), = log; v.true("operator", A1 is A); v.true("start vector", v0 is x); v.eq("degree", d, D); v.eq("tolerance", rt1, rt); v.eq("window", o1, o); v.true("formats", not sm and bool(rb1) == rb and dt is None and not k)
    (T,), ((how, e1, e2),) = out, eig; v.eq("diagonal", e1, T[0]); v.eq("off-diagonal", e2, T[1])
    want = (["values", "vectors"] if ev else ["values"]) + (["basis"] if rb else [])
    v.true("result", (list(r) if isinstance(r, tuple) else [r]) == want)

# ------------------------------------------------------------ the compiled code
def _case(v, dt="float64"):
    np = v.np; n = v.rnd.randint(2, 12); kind = v.rnd.choice(["random", "random", "positive", "diagonal", "banded", "integer"]); B = v.rng.normal(size=(n, n)); A = (B + B.T) / 2
    if kind == "positive": A = B @ B.T / n
    if kind == "diagonal": A = np.diag(v.rng.permutation(n) + v.rng.random(n) / 2)
    if kind == "banded": A = np.triu(np.tril(A, 2), -2)
    if kind == "integer": A = np.round(2 * A)
    x = v.rng.normal(size=n)
    if v.rnd.random() < .2: x = np.eye(n)[v.rnd.randrange(n)]
    v.trace.update(A=A, x=x); return A.astype(dt), x
FORMS = ["F", "C", "csr", "csc", "csr_array", "coo", "operator", "reversed view", "column view", "list product", "duck", "scratch"]
def _form(v, A, kind):
    np = v.np; import scipy.sparse as sp, scipy.sparse.linalg as sl; dt, n = A.dtype, A.shape[0]
    if kind == "F": return np.asfortranarray(A)
    if kind == "C": return np.ascontiguousarray(A)
    if kind in ("csr", "csc", "coo"): return getattr(sp, kind + "_matrix")(A)
    if kind == "csr_array": return sp.csr_array(A)
    B = A.copy(); rev = B[::-1].copy()
    def scratch(x):
        y = B @ x; x *= 0; return y
    f = {"scratch": scratch, "operator": lambda x: B @ x, "reversed view": lambda x: (rev @ x)[::-1], "column view": lambda x: np.ascontiguousarray(np.stack([B @ x] * 3, axis=-1))[..., 1], "list product": lambda x: B @ x, "duck": lambda x: B @ x}[kind]
    if kind == "duck":
        class Duck:
            shape, dtype = B.shape, B.dtype
            def matvec(self, x): return B @ x
            def __matmul__(self, x): return B @ x
        return Duck()
    return sl.LinearOperator((n, n), matvec=f, dtype=dt)
def _tri(np, a, b): return np.diag(a) + np.diag(b, 1) + np.diag(b, -1)
def _kept(A, A0): return bool(((A.toarray() if hasattr(A, "toarray") else A) == A0).all()) if hasattr(A, "tobytes") or hasattr(A, "toarray") else True
def extra_basis(v):
    """full re-orthogonalisation: orthonormal basis, first vector, T = Q'AQ; formats, Ritz values, inputs kept"""
    np = v.np; L = v.mod("lanczos"); dt = v.rnd.choice(["float64"] * 3 + ["float32"]); M, x = _case(v, dt); n = len(x); kind = v.rnd.choice(FORMS); A = _form(v, M, kind); deg = v.rnd.choice([None] + list(range(1, n + 3))); D = n if deg is None else min(deg, n); orth = v.rnd.choice([-1, D, D + 5, 10 ** 6]); v.trace.update(container=kind, dtype=dt, deg=deg, orth=orth)
    xin = x.astype(v.rnd.choice([dt, "float64"])) if v.rnd.random() < .8 else list(x); x1 = np.array(xin); A0 = M.copy(); kw = {} if deg is None else {"deg": deg}
    (a, b), Q = L.lanczos(A, v0=xin, orth=orth, return_basis=True, **kw); v.true(f"sizes {a.shape} {b.shape} {Q.shape}", a.shape == (D,) and b.shape == (D - 1,) and Q.shape == (n, D)); v.true("precision", a.dtype == b.dtype == Q.dtype == np.dtype(dt)); v.true("inputs kept", np.array_equal(np.array(xin), x1) and _kept(A, A0))
    sc = np.abs(np.linalg.eigvalsh(M.astype(float))).max(); e = 1e-9 if dt == "float64" else 1e-3; low = (np.sqrt(n) * 1e-8) * 10
    if b.size and (b.min() < (1e-3 if dt == "float64" else .1) * sc or b.min() <= low): raise v.skip("close to breakdown")
    Qd = Q.astype(float); v.true("orthonormal", np.abs(Qd.T @ Qd - np.eye(D)).max() < 10 * e); xx = x1.astype(float); v.true("first vector", np.abs(Qd[:, 0] - xx / np.linalg.norm(xx)).max() < e + (1e-6 if dt == "float32" else 0)); T = _tri(np, a.astype(float), b.astype(float))
    v.true("T = Q'AQ", np.abs(Qd.T @ M.astype(float) @ Qd - T).max() < 10 * e * (1 + sc))
    # other formats, same seed, Ritz values
    S = L.lanczos(A, v0=xin, orth=orth, sparse_mat=True, **kw); v.true("sparse form", S.shape == (D, D)); a2, b2 = L.lanczos(A, v0=xin, orth=orth, **kw); v.true("without the basis", a2.shape == (D,) and b2.shape == (D - 1,)); v.eq("formats agree", S.toarray().astype(float), _tri(np, a2.astype(float), b2.astype(float)))
    S3, Q3 = L.lanczos(A, v0=xin, orth=orth, sparse_mat=True, return_basis=True, **kw); v.eq("sparse form with basis", S3.toarray().astype(float), T); v.eq("same basis", Q3, Q)
    v.true("stored vectors do not matter", np.abs(a2 - a).max() < 100 * e * (1 + sc) and (D < 2 or np.abs(b2 - b).max() < 100 * e * (1 + sc)))
    if D >= 2:
        rw = L.rayleigh_ritz(A, v0=xin, orth=orth, **kw); v.true("Ritz values", rw.shape == (D,) and np.abs(np.sort(rw) - np.linalg.eigvalsh(T)).max() < 100 * e * (1 + sc)); rw, Y, Q4 = L.rayleigh_ritz(A, v0=xin, orth=orth, return_eigenvectors=True, return_basis=True, **kw); v.true("Ritz vectors", np.abs(T @ Y - Y * rw).max() < 100 * e * (1 + sc) and np.array_equal(Q4, Q))
        if D == n: v.true("the spectrum", np.abs(np.sort(rw) - np.linalg.eigvalsh(M.astype(float))).max() < 100 * e * (1 + sc))
def extra_windows(v):
    """every window and buffer: the first steps agree with the fully re-orthogonalised recurrence"""
    np = v.np; L = v.mod("lanczos"); M, x = _case(v); n = len(x); D = v.rnd.randint(1, min(n, 4)); orth = v.rnd.randint(-2, D + 3); A = _form(v, M, v.rnd.choice(FORMS)); v.trace.update(deg=D, orth=orth); a, b = L.lanczos(A, v0=x, deg=D, orth=orth); (a1, b1), Q = L.lanczos(A, v0=x, deg=D, orth=D, return_basis=True)
    sc = 1 + np.abs(M).max() * n
    if b1.size and b1.min() < .05 * sc: raise v.skip("close to breakdown")
    (a2, b2), Q2 = L.lanczos(A, v0=x, deg=D, orth=orth, return_basis=True); v.true(f"sizes with the basis {a2.shape} {b2.shape} {Q2.shape}", a2.shape == (D,) and b2.shape == (D - 1,) and Q2.shape == (n, D)); v.true("basis", np.abs(Q2 - Q).max() < 1e-6); rw = L.rayleigh_ritz(A, v0=x, deg=D, orth=orth) if D > 1 else None
    v.true("Ritz values", rw is None or rw.shape == (D,) and np.abs(np.sort(rw) - np.linalg.eigvalsh(_tri(np, a1, b1))).max() < 1e-6 * sc)
    v.true("coefficients", np.abs(a - a1).max() < 1e-6 * sc and (D == 1 or np.abs(b - b1).max() < 1e-6 * sc))
def extra_wide(v):
    """full re-orthogonalisation under every spelling on larger ill-conditioned operators, where a narrower window loses orthogonality"""
    np = v.np; L = v.mod("lanczos"); n = v.rnd.randint(25, 50); U = np.linalg.qr(v.rng.normal(size=(n, n)))[0]; w = np.logspace(0, 4, n) * v.rnd.choice([1, -1]); M = (U * w) @ U.T; M = (M + M.T) / 2; x = v.rng.normal(size=n)
    (a, b), Q = L.lanczos(_form(v, M, v.rnd.choice(FORMS)), v0=x, orth=v.rnd.choice([-1, -4, n, n + 7]), return_basis=True, **v.rnd.choice([{}, {"deg": n}, {"deg": n + 3}])); v.true("orthonormal", np.abs(Q.T @ Q - np.eye(n)).max() < 1e-8); v.true("T = Q'AQ", np.abs(Q.T @ M @ Q - _tri(np, a, b)).max() < 1e-6)
    rw = L.rayleigh_ritz(M, v0=x, orth=-1, **v.rnd.choice([{}, {"deg": n}, {"deg": n + 3}])); v.true(f"Ritz values {rw.shape}", rw.shape == (n,) and np.abs(np.sort(rw) - np.sort(w)).max() < 1e-6)
    k = v.rnd.randint(3, n - 1); rw = L.rayleigh_ritz(M, v0=x, deg=k, orth=-1); T = _tri(np, *L.lanczos(M, v0=x, deg=k, orth=-1)); v.true("Ritz values of a smaller space", rw.shape == (k,) and np.abs(np.sort(rw) - np.linalg.eigvalsh(T)).max() < 1e-6)
def extra_seeds(v):
    np = v.np; L = v.mod("lanczos"); M, x = _case(v); n = len(x); s = v.rnd.choice([0, 1, v.rnd.randint(0, 2 ** 31)]); D = v.rnd.randint(1, n); f = lambda s: L.lanczos(M, deg=D, orth=D, seed=s, return_basis=True); (a, b), Q = f(s); (a1, b1), Q1 = f(s); v.true("same seed, same result", a.tobytes() == a1.tobytes() and b.tobytes() == b1.tobytes() and Q.tobytes() == Q1.tobytes()); v.true("start vector", abs(np.linalg.norm(Q[:, 0]) - 1) < 1e-9)
    (a2, b2), Q2 = f(np.random.default_rng(s)); v.true("generators are accepted", Q2.tobytes() == Q.tobytes()); v.true("seeds matter", not np.array_equal(f(s + 1)[1][:, 0], Q[:, 0]))
def extra_rejects(v):
    np = v.np; L = v.mod("lanczos"); M, x = _case(v); n = len(x); f = L.lanczos; A = _form(v, np.round(M).astype(v.rnd.choice(["int64", "int32", "int16", "bool"])), v.rnd.choice(["F", "C", "csr", "operator"]))
    v.raises("integer operator", lambda: f(A, v0=x, deg=2), Exception); v.raises("degree", lambda: f(M, v0=x, deg=v.rnd.choice([0, -1, -n])), Exception); v.raises("degree", lambda: L.rayleigh_ritz(M, v0=x, deg=v.rnd.choice([0, -1])), Exception); k = v.rnd.choice([d for d in (-2, -1, 1, 2, n) if n + d > 0]); v.raises("length", lambda: f(M, v0=np.ones(n + k), deg=2), Exception)
    import scipy.sparse.linalg as sl; bad = v.rnd.choice([n - 1, n + 1]); 
    class Bad:
        shape, dtype = M.shape, M.dtype
        def __matmul__(self, y): return np.ones(n)
        def matvec(self, y): return np.ones(bad)
    v.raises("product of the wrong length", lambda: f(Bad(), v0=x, deg=2), Exception)

def extra_sizes(v):
    """larger operators, operators without a type, results that later calls do not change"""
    np = v.np; L = v.mod("lanczos"); n = v.big("n", 2, 250); D = v.rnd.randint(1, min(n, 12)); B = v.rng.normal(size=(n, n)) / np.sqrt(n); M = (B + B.T) / 2; x = v.rng.normal(size=n) * 10.0 ** v.rng.uniform(-v.rnd.choice([0, 12]), 0, size=n); s = 2.0 ** v.rnd.choice([-60, 0, 0, 40])
    class Bare:
        shape = M.shape
        def matvec(self, y): return M @ y
        def __matmul__(self, y): return M @ y
    A = Bare() if v.rnd.random() < .4 else _form(v, M, v.rnd.choice(FORMS)); (a, b), Q = L.lanczos(A, v0=s * x, deg=D, orth=-1, return_basis=True); old = [t.copy() for t in (a, b, Q)]
    v.true(f"precision {a.dtype}", a.dtype == b.dtype == Q.dtype == np.float64); v.true("orthonormal", bool(np.abs(Q.T @ Q - np.eye(D)).max() < 1e-8)); v.true("first vector", bool(np.all(np.abs(Q[:, 0] - x / np.linalg.norm(x)) <= 1e-9 * np.abs(x) / np.linalg.norm(x)))); v.true("T = Q'AQ", bool(np.abs(Q.T @ M @ Q - _tri(np, a, b)).max() < 1e-7))
    L.lanczos(A, v0=v.rng.normal(size=n), deg=D, orth=-1, return_basis=True); L.lanczos(A, v0=v.rng.normal(size=n), deg=D); v.true("earlier results are kept", all(np.array_equal(p, q) for p, q in zip((a, b, Q), old)))
    a2, b2 = L.lanczos(A, v0=x, deg=D); old = a2.copy(), b2.copy(); L.lanczos(A, v0=v.rng.normal(size=n), deg=D); L.rayleigh_ritz(A, v0=v.rng.normal(size=n), deg=max(D, 2)); v.true("earlier results are kept", np.array_equal(a2, old[0]) and np.array_equal(b2, old[1]))
BOUNDS["extra_sizes"] = "operators up to 250x250, up to 12 steps"

def ob_fresh(v):
    """what a run returned is not changed by a later run"""
    if not v.sym: return
    n = v.dim("n", 1); M, A = _plain(v, n, kind="dense"); nat = _Native(v, n); v.override("_lanczos", nat); f = v.mod("lanczos").lanczos; rb = v.choice("return_basis", [False, True]); d = v.dim("deg", 1); o = v.free("orth"); x, y = v.array("x", n), v.array("y", n)
    T = f(A, v0=x, deg=d, orth=o, return_basis=rb); T, Q = T if rb else (T, None); parts = [T[0], T[1]] + ([Q] if rb else []); old = [v.copy(t) for t in parts]; nat.calls.pop(); nat.tag = "2"; f(A, v0=y, deg=d, orth=o, return_basis=rb)
    for l, p, q in zip(("diagonal", "off-diagonal", "basis"), parts, old): v.eq(l + " kept", p, q)

def extra_again(v):
    """operators and start vectors that are overwritten between two calls stand for their values at each"""
    np = v.np; L = v.mod("lanczos"); n = v.rnd.randint(2, 9); D = v.rnd.randint(1, min(n, 4)); A, B = (v.rng.normal(size=(n, n)) for _ in "ab"); A, B = A + A.T, B + B.T; x, y = v.rng.normal(size=n), v.rng.normal(size=n); op = v.rnd.choice([lambda: A, lambda: v.linop(A)])(); f = lambda M, u: L.lanczos(M, v0=u, deg=D, orth=D, return_basis=True)
    f(op, x); x[...] = y; (a, b), Q = f(op, x); (a1, b1), Q1 = f(A.copy(), y.copy()); v.true("new vector", np.allclose(a, a1) and np.allclose(b, b1) and np.allclose(Q, Q1)); A[...] = B; (a, b), Q = f(op, x); (a1, b1), Q1 = f(B.copy(), y.copy()); v.true("new operator", np.allclose(a, a1) and np.allclose(b, b1) and np.allclose(Q, Q1)); s = v.seed(); A[...] = B + 3 * np.eye(n); v.true("new operator, start vector by seed", np.allclose(L.lanczos(op, deg=D, orth=D, seed=s)[0], L.lanczos(A.copy(), deg=D, orth=D, seed=s)[0]))
BOUNDS["extra_again"] = "operators up to 9x9"
