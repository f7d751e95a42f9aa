"""Matrix-function operator: action and quadratic form from the Krylov projection, for every number of Lanczos steps."""
FUNCTIONS = ["operators.MatrixFunction.__init__", "operators.MatrixFunction.fun", "operators.MatrixFunction._krylov_dim", "operators.MatrixFunction._matvec", "operators.MatrixFunction.quad", "operators.MatrixFunction.degree", "operators.MatrixFunction._adjoint", "operators.matrix_function", "integrate.quadrature"]
NATIVE = True; CON_SECONDS = 10; SYM_SECONDS = 240
BOUNDS = {"extra_weak": "Jacobi matrices up to 90x90 with one coupling near 1e-5", "extra_exact": "matrices up to 12x12 (random, low rank, clustered, banded), 10 functions, 6 containers, compiled extension", "extra_projection": "up to 12x12, all degrees; partial windows up to degree 5", "extra_window": "25x25 to 50x50, condition number 1e4", "extra_single": "up to 12x12, 32 bit", "extra_front": "up to 12x12"}
ASSUMPTIONS = ["contract of the extension (C27, C28): K steps, 1 <= K <= degree, orthonormal vectors starting with x/|x|, three-term relation, stop at the first remainder below sqrt(n)*rtol or at the degree; entries beyond the last step are left as they were; the vector handed over is overwritten",
               "contract of the scipy solver: eigendecomposition of the tridiagonal matrix", "the function acts on each entry of its argument", "real arithmetic"]

class _Native:
    _opaque_ghost = True
    first = True; orth, deg = 0, 1
    def __init__(self, v, A, n): self.v, self.A, self.n, self.runs = v, A, n, []
    def spec(self, x, deg=None, rtol=None):
        """the run on a start vector: (K, alpha, beta, vectors), a function of operator, vector, degree and tolerance"""
        v, n = self.v, self.n
        for y, d, r, K, s in self.runs:
            if v.same_array(x, y): return K, s
        if deg is None: raise v.unsupported("no run on this vector")
        t = str(len(self.runs)); al, be, QQ = "al" + t, "be" + t, "QQ" + t; thr = v.sqrt(n) * rtol; u = v.uf
        if v.choice("Krylov space " + t, ["as large as asked for", "exhausted"]) == "exhausted": K = v.dim("K" + t, 1); v.assume(K + 1 <= deg)
        else: K = deg
        x2 = v.sum(0, n, lambda i: v.at(x, i) * v.at(x, i)); v.assume(x2 > 0)
        v.lemma("", "orthonormal", [(QQ, ("i", "a")), (QQ, ("i", "b"))], {"i": n}, lambda b: v.ite(b["a"] == b["b"], 1, 0), lambda b: [b["a"] >= 0, b["b"] >= 0, b["a"] + 1 <= K, b["b"] + 1 <= K])
        if self.first: v.lemma("", "first vector", [(QQ, ("i", "a"))], {}, lambda b: v.at(x, b["i"]) / v.sqrt(x2), lambda b: [b["a"] == 0])
        v.novalue(QQ, al, be)
        v.forall(1, K, lambda j: u(be, j) >= thr)
        if K is not deg: v.known(u(be, K) < thr)
        self.runs.append((x, deg, rtol, K, (al, be, QQ))); return K, (al, be, QQ)
    def lanczos(self, A, q, deg, rtol, orth, alpha, beta, Q):
        v, n = self.v, self.n; v.true("operator", A is self.A); v.eq("vector: size", q.shape, (n,)); v.eq("basis: rows", Q.shape[0], n)
        v.true("steps", (deg >= 1) & (deg <= n)); v.true("every vector is kept", Q.shape[1] >= deg); v.true("alpha: size", alpha.shape[0] >= deg); v.true("beta: size", beta.shape[0] >= deg + 1)
        v.true("one precision", alpha.dtype == beta.dtype == Q.dtype == q.dtype and alpha.dtype in (v.np.float64, v.np.float32)); v.true("column order", Q.flags["F_CONTIGUOUS"])
        soft, v.softly = v.softly, True; v.true("window at least as wide as asked for", (orth >= v.ite((self.orth < 0) | (self.orth >= self.deg), self.deg - 1, self.orth))); v.softly = soft
        if bool(orth > 0): v.eq("nothing from earlier runs is orthogonalised against", Q, v.arr(Q.shape, lambda i, a: 0))
        K, (al, be, QQ) = self.spec(v.copy(q), deg, rtol); u = v.uf; a0, b0, Q0 = v.copy(alpha), v.copy(beta), v.copy(Q); m = Q.shape[1]
        v.store(alpha, lambda i: v.ite(i + 1 <= K, u(al, i), v.at(a0, i))); v.store(beta, lambda i: v.ite(i <= 0, 0, v.ite(i <= K, u(be, i), v.at(b0, i))))
        v.store(Q, lambda i, a: v.ite(a + 1 <= K, u(QQ, i, a), v.ite(a == m - 1, 0, v.at(Q0, i, a)))); q[:] = v.arr((n,), lambda i: u("rest" + al, i))
    # the values the property promises
    def rule(self, x):
        v = self.v; K, (al, be, QQ) = self.spec(x); u = v.uf
        th, Y = v.eigh_tri(v.arr((K,), lambda i: u(al, i)), v.arr((K - 1,), lambda i: u(be, i + 1))); return K, QQ, th, Y
    def action(self, x, f):
        v, n = self.v, self.n; K, QQ, th, Y = self.rule(x); nx = v.sqrt(v.sum(0, n, lambda i: v.at(x, i) * v.at(x, i)))
        return v.arr((n,), lambda i: nx * v.sum(0, K, lambda l: f(v.at(th, l)) * v.at(Y, 0, l) * v.sum(0, K, lambda a: v.uf(QQ, i, a) * v.at(Y, a, l))))
    def form(self, x, f):
        v, n = self.v, self.n; K, QQ, th, Y = self.rule(x)
        return v.sum(0, n, lambda i: v.at(x, i) * v.at(x, i)) * v.sum(0, K, lambda l: f(v.at(th, l)) * v.at(Y, 0, l) * v.at(Y, 0, l))

def _setup(v, name="phi", sym=True):
    """an operator of arbitrary size, degree and window, and the contract of the extension"""
    n = v.dim("n", 1); A = v.array("A", n, n, sym=sym); nat = _Native(v, A, n); v.override("_lanczos", nat); v.eigh_contract(); O = v.mod("operators"); fs = _fun(v, name); k = {}
    deg = k["deg"] = v.dim("deg", 2); D = n if bool(deg >= n) else deg
    k["orth"] = nat.orth = v.free("orth"); nat.deg = D
    M = O.MatrixFunction(A, fun=fs[0], **k); return n, A, nat, M, fs, D
def _fun(v, name):
    f = lambda t: v.fn(name, t)
    return (lambda z: v.arr(z.shape, lambda *i: f(v.at(z, *i)))), f

def ob_action(v):
    """|x| Q f(T) e1 from the first K steps"""
    if not v.sym: return
    n, A, nat, M, (fun, f), D = _setup(v); x = v.array("x", n); x0 = v.copy(x); A0 = v.copy(A); v.eq("degree", M.degree, D)
    y = M.matvec(x); v.eq("action", y, nat.action(x0, f)); v.eq("argument unchanged", x, x0); v.eq("matrix unchanged", A, A0)

def ob_adjoint(v):
    """f(A) is symmetric: the adjoint has the same action"""
    if not v.sym: return
    n, A, nat, M, (fun, f), D = _setup(v); x = v.array("x", n); x0 = v.copy(x); v.eq("action of the adjoint", v.np.ravel(M._adjoint()._matvec(x)), nat.action(x0, f)); v.eq("argument unchanged", x, x0)

def ob_quad_block(v):
    """an arbitrary column of a block, from an arbitrary state of the work spaces; columns still to come are as given"""
    if v.sym: _block(v)
def _block(v, before=None):
    n, A, nat, M, (fun, f), D = _setup(v)
    if before: f = before(M, A) or f
    A0 = v.copy(A); m = v.dim("m", 1); X = v.array("X", n, m, order=v.choice("order", ["C", "F"])); X0 = v.copy(X); u = v.uf; st = v.ghost().d; col = lambda t: v.arr((n,), lambda i: v.at(X0, i, t))
    def check(loc, k):
        y = loc["y"]
        if "k" in st: t = st["k"]; v.eq("this column's form", v.at(y, t), nat.form(col(t), f)); v.eq("other entries unchanged", y, v.arr((m,), lambda i: v.ite(i == t, v.at(y, t), u("y", i))))
        else: v.eq("result: one entry per column", y.shape, (m,))
        a = v.free("later"); v.assume(a >= k); v.assume(a + 1 <= m)
        v.eq("columns still to come", v.arr((n,), lambda i: v.at(loc["x"], i, a)), col(a))
    def havoc(loc, k):
        if bool(k + 1 <= m): st["k"] = k
        for name, w in vars(M).items():
            if v.isarr(w) and w is not A: v.store(w, (lambda nm: lambda *i: u("ws" + nm, *i))(name))
        if loc["x"].buf is not X.buf: v.store(loc["x"], lambda i, a: v.ite(a + 1 <= k, u("done", i, a), v.at(X0, i, a)))
        v.store(loc["y"], lambda i: u("y", i)); return {}
    v.invariant("operators.quad:0", check, havoc)
    y = M.quad(X); v.eq("one entry per column", y.shape, (m,)); v.eq("argument unchanged", X, X0); v.eq("matrix unchanged", A, A0)
def ob_quad_vector(v):
    if not v.sym: return
    n, A, nat, M, (fun, f), D = _setup(v); x = v.array("x", n); x0, A0 = v.copy(x), v.copy(A); y = M.quad(x); v.eq("shape", y.shape, (1,)); v.eq("quadratic form", v.at(y, 0), nat.form(x0, f)); v.eq("argument unchanged", x, x0); v.eq("matrix unchanged", A, A0)

def ob_agree(v):
    """x'(f(A)x) is the quadratic form"""
    if not v.sym: return
    n, A, nat, M, (fun, f), D = _setup(v); nat.first = False; x = v.array("x", n); y = M.matvec(x); K, QQ, th, Y = nat.rule(v.copy(x)); nx = v.sqrt(v.sum(0, n, lambda i: v.at(x, i) * v.at(x, i)))
    # x = |x| q_0, so x'q_a = |x| q_0'q_a, which is |x| for a = 0 and zero otherwise
    q = lambda a: (lambda i: v.uf(QQ, i, a)); a = v.free("a"); v.assume(a >= 0); v.assume(a + 1 <= K); v.eq("products with the first vector", v.sum(0, n, lambda i: nx * q(0)(i) * q(a)(i)), v.ite(a == 0, nx, 0))
    v.lemma("", "products with x", [("x", ("i",)), (QQ, ("i", "a"))], {"i": n}, lambda b: v.ite(b["a"] == 0, nx, 0), lambda b: [b["a"] >= 0, b["a"] + 1 <= K])
    v.eq("product with the action", v.sum(0, n, lambda i: v.at(x, i) * v.at(y, i)), nat.form(v.copy(x), f))

def ob_exhausted(v):
    """when the Krylov space is invariant (in particular: all n dimensions), the action is f(A)x: Ritz pairs are eigenpairs of A, and x is their combination"""
    if not v.sym: return
    n, A, nat, M, (fun, f), D = _setup(v, sym=False); x = v.array("x", n); y = M.matvec(x); x0 = v.copy(x); K, QQ, th, Y = nat.rule(x0); u = v.uf; _, (al, be, _) = nat.spec(x0)
    nx = v.sqrt(v.sum(0, n, lambda i: v.at(x, i) * v.at(x, i)))
    # the projection is exact: A q_j = beta_j q_(j-1) + alpha_j q_j + beta_(j+1) q_(j+1), no remainder after the last step (C28)
    rel = lambda b: v.ite(b["j"] >= 1, u(be, b["j"]) * u(QQ, b["r"], b["j"] - 1), 0) + u(al, b["j"]) * u(QQ, b["r"], b["j"]) + v.ite(b["j"] + 2 <= K, u(be, b["j"] + 1) * u(QQ, b["r"], b["j"] + 1), 0)
    v.lemma("", "relation", [("A", ("r", "l")), (QQ, ("l", "j"))], {"l": n}, rel, lambda b: [b["j"] >= 0, b["j"] + 1 <= K]); v.lemma("", "relation'", [("A", ("l", "r")), (QQ, ("l", "j"))], {"l": n}, rel, lambda b: [b["j"] >= 0, b["j"] + 1 <= K]); v.novalue("A")
    v.eigh_pointwise(th, Y, v.arr((K,), lambda i: u(al, i)), v.arr((K - 1,), lambda i: u(be, i + 1)))
    z = lambda l: (lambda i: v.sum(0, K, lambda a: u(QQ, i, a) * v.at(Y, a, l)))
    v.eq("Ritz vectors are eigenvectors", v.arr((n, K), lambda i, l: v.sum(0, n, lambda j: v.at(A, i, j) * z(l)(j))), v.arr((n, K), lambda i, l: v.at(th, l) * z(l)(i)))
    v.eq("the vector is their combination", v.arr((n,), lambda i: v.sum(0, K, lambda l: nx * v.at(Y, 0, l) * z(l)(i))), x0)
    v.eq("f acts on each", y, v.arr((n,), lambda i: v.sum(0, K, lambda l: f(v.at(th, l)) * nx * v.at(Y, 0, l) * z(l)(i))))

def ob_degree(v):
    if not v.sym: return
    n = v.dim("n", 1); A = v.array("A", n, n, sym=True); v.override("_lanczos", v.ghost()); O = v.mod("operators"); d = v.free("deg"); kw = {} if v.choice("degree", ["default", "given"]) == "default" else {"deg": d}; d = kw.get("deg", 20)
    if kw and bool(d < 2): v.raises("degree below two", lambda: O.MatrixFunction(A, deg=d)); return
    M = O.MatrixFunction(A, **kw); v.true("never above the dimension", M.degree <= n); v.true("never above what was asked for", M.degree <= d); v.true("as asked for when possible", M.degree == d if bool(d <= n) else M.degree == n); v.eq("shape", M.shape, (n, n))

def ob_function(v):
    """functions are checked when set; a name stands for the function it resolves to (C17)"""
    if not v.sym: return
    n = v.dim("n", 2); A = v.array("A", n, n, sym=True); v.override("_lanczos", v.ghost()); O = v.mod("operators"); log = v.ghost().items; good = lambda z: v.arr(z.shape, lambda *i: v.fn("g", v.at(z, *i)))
    how = v.choice("function", ["callable", "name", "default", "not callable", "wrong type", "wrong length", "replaced", "replaced by a bad one"])
    def param(fun, **k): log.append((fun, k)); return good
    v.contract("operators", "param_callable", param); bad = v.choice("bad", ["number", "list", "None"])
    if how == "callable": v.true("kept", O.MatrixFunction(A, fun=good).fun is good)
    elif how == "name": M = O.MatrixFunction(A, fun="exp", t=0.5); v.true("resolved with its parameters", M.fun is good and log == [("exp", {"t": 0.5})])
    elif how == "default": x = v.array("x", n); v.eq("identity", O.MatrixFunction(A).fun(x), x)
    elif how == "not callable": v.raises("rejected", lambda: O.MatrixFunction(A, fun=3.0))
    elif how == "wrong type": v.raises("rejected", lambda: O.MatrixFunction(A, fun=lambda z: {"number": 1.0, "list": [1.0, 2.0], "None": None}[bad]))
    elif how == "wrong length": d = v.dim("d", 1); v.assume((d < n) | (d > n)); v.raises("rejected", lambda: O.MatrixFunction(A, fun=lambda z: v.np.zeros(d)))
    else:
        M = O.MatrixFunction(A)
        if how == "replaced": M.fun = good; v.true("replaced", M.fun is good)
        else:
            old = M.fun
            def set_(): M.fun = {"number": 1.0, "list": [1.0, 2.0], "None": None}[bad]
            v.raises("rejected", set_); v.true("the old one stays", M.fun is old)

def ob_front(v):
    """matrix_function: the operator, or its action on a vector"""
    if not v.sym: return
    n = v.dim("n", 1); A = v.array("A", n, n, sym=True); nat = _Native(v, A, n); v.override("_lanczos", nat); v.eigh_contract(); O = v.mod("operators"); fun, f = _fun(v, "phi"); d = v.dim("deg", 2); x = v.array("x", n); x0 = v.copy(x)
    y = O.matrix_function(A, fun=fun, v=x, deg=d); v.eq("action", v.np.ravel(y), nat.action(x0, f)); v.eq("argument unchanged", x, x0); M = O.matrix_function(A, fun=fun, deg=d); v.true("operator", isinstance(M, O.MatrixFunction) and M.fun is fun)

# ------------------------------------------------------------ the compiled code
def _case(v, gen=None):
    """symmetric matrices of norm about one, with many or few distinct eigenvalues"""
    np = v.np; n = v.rnd.randint(2, 12); kind = gen or v.rnd.choice(["random", "random", "positive", "low rank", "clusters", "diagonal", "identity", "banded", "projector"]); V = np.linalg.qr(v.rng.normal(size=(n, n)))[0]
    w = {"random": lambda: v.rng.uniform(-1, 1, n), "positive": lambda: v.rng.uniform(.1, 1, n), "low rank": lambda: v.rng.uniform(.2, 1, n) * (np.arange(n) < max(1, n // 3)), "clusters": lambda: v.rng.choice([.25, .5, 1.0], n), "identity": lambda: np.ones(n), "diagonal": lambda: np.linspace(-1, 1, n), "banded": lambda: np.zeros(n), "projector": lambda: (np.arange(n) < n // 2) * 1.0}[kind]()
    A = np.diag(v.rng.permutation(w)) if kind == "diagonal" else (V * w) @ V.T
    if kind == "banded": B = v.rng.uniform(-1, 1, (n, n)); A = np.triu(np.tril(B + B.T, 1), -1) / 4
    A = np.ascontiguousarray((A + A.T) / 2); v.trace.update(A=A, kind=kind); return A, kind
def _funs(v, A):
    """functions with bounded derivatives, under every spelling"""
    np = v.np; c = v.rnd.uniform(.2, 2); fs = [(lambda x: x, "identity map"), (np.exp, "exp"), ("exp", "exp"), ("identity", "identity map"), (lambda x: x ** 2 - c * x, f"x^2 - {c} x"), (np.cos, "cos"), (lambda x: 1 / (2 + x), "1/(2+x)"), (np.tanh, "tanh"), (lambda x: np.ones_like(x), "one"), (lambda x: 1e4 * x, "1e4 x")]; return fs
def _value(np, e, x, c=None):
    import re
    if e.startswith("x^2"): return x ** 2 - float(e.split()[2]) * x
    return {"identity map": x, "exp": np.exp(x), "cos": np.cos(x), "1/(2+x)": 1 / (2 + x), "tanh": np.tanh(x), "one": np.ones_like(x), "1e4 x": 1e4 * x}[e]
def _container(v, A):
    import scipy.sparse as sp, scipy.sparse.linalg as sl; np = v.np; k = v.rnd.choice(["dense", "dense", "Fortran", "csr", "csc", "operator"]); v.trace["container"] = k
    return {"dense": lambda: A, "Fortran": lambda: np.asfortranarray(A), "csr": lambda: sp.csr_matrix(A), "csc": lambda: sp.csc_array(A), "operator": lambda: sl.aslinearoperator(A.copy())}[k]()
def _vec(v, A):
    np = v.np; n = A.shape[0]; w, U = np.linalg.eigh(A); k = v.rnd.choice(["normal", "normal", "unit", "eigenvector", "two eigenvectors", "scaled", "tiny", "signs"]); v.trace["vector"] = k
    return {"normal": lambda: v.rng.normal(size=n), "unit": lambda: np.eye(n)[v.rnd.randrange(n)], "eigenvector": lambda: U[:, v.rnd.randrange(n)].copy(), "two eigenvectors": lambda: U[:, 0] - 2 * U[:, -1], "scaled": lambda: 1e5 * v.rng.normal(size=n), "tiny": lambda: 1e-5 * v.rng.normal(size=n), "signs": lambda: v.rng.choice([-1.0, 1.0], n)}[k]()
def _close(v, label, got, want, sc, tol=1e-5):
    np = v.np; got, want = np.asarray(got).ravel(), np.asarray(want).ravel(); v.true(f"{label}: sizes {got.shape} {want.shape}", got.shape == want.shape); d = np.abs(got - want).max(); v.true(f"{label}: off by {d / sc}", bool(d <= tol * sc))
def _ref(np, A, x, D):
    """Krylov projection with full re-orthogonalisation, stopped at exhaustion"""
    Q = [x / np.linalg.norm(x)]; low = 1.0
    for j in range(1, D):
        r = A @ Q[-1]
        for _ in range(3):
            for q in Q: r = r - (q @ r) * q
        b = np.linalg.norm(r)
        if b < 1e-6: break
        low = min(low, b); Q.append(r / b)
    Q = np.array(Q).T; return Q, Q.T @ A @ Q, low

def extra_exact(v):
    """full degree and re-orthogonalisation: f(A)x and x'f(A)x of the dense eigendecomposition"""
    np = v.np; O = v.mod("operators"); A, kind = _case(v); n = A.shape[0]; g, e = v.rnd.choice(_funs(v, A)); v.trace["fun"] = e; B = _container(v, A); M = O.MatrixFunction(B, fun=g, deg=v.rnd.choice([n, n, n + 3, 100 + n]), orth=v.rnd.choice([-1, n, n + 5])) if v.rnd.random() < .8 else O.MatrixFunction(B, fun=g, deg=n, orth=n, dtype=np.dtype("float64")); v.true("degree", M.degree == n)
    if n < 2: raise v.skip("size")
    x = _vec(v, A); x0, A0 = x.copy(), A.copy(); w, U = np.linalg.eigh(A); F = (U * _value(np, e, w)) @ U.T; nx = np.linalg.norm(x); fs = max(1, np.abs(_value(np, e, np.linspace(-1, 1, 9))).max())
    if _ref(np, A, x, n)[2] < 1e-4: raise v.skip("close to breakdown")
    _close(v, "action", M.matvec(x), F @ x, nx * fs); _close(v, "adjoint", {"H": lambda: M.H @ x, "T": lambda: M.T @ x, "rmatvec": lambda: M.rmatvec(x)}[v.rnd.choice(["H", "T", "rmatvec"])](), F @ x, nx * fs); q = M.quad(x); v.true("shape", np.shape(q) == (1,)); _close(v, "form", q, x @ F @ x, nx ** 2 * fs); _close(v, "both agree", x @ M.matvec(x), q, nx ** 2 * fs); v.true("inputs kept", np.array_equal(x, x0) and np.array_equal(A, A0))
    m = v.rnd.randint(1, 4); X = np.asarray(v.rng.normal(size=(n, m)), order=v.rnd.choice("CF")); X0 = X.copy(); _close(v, "forms of a block", M.quad(X), np.einsum("ij,ij->j", X, F @ X), fs * 4 * n); _close(v, "action on a block", M @ X, F @ X, fs * 4 * n); v.true("block kept", np.array_equal(X, X0))
def extra_projection(v):
    """any degree: the value of the Krylov projection, also when it is exhausted early"""
    np = v.np; O = v.mod("operators"); A, kind = _case(v); n = A.shape[0]; g, e = v.rnd.choice(_funs(v, A)); v.trace["fun"] = e; deg = v.rnd.randint(2, n + 1); D = min(deg, n); full = v.rnd.random() < .6; orth = v.rnd.choice([-1, deg, deg + 4]) if full else v.rnd.choice([0, 1, 2, 3]); v.trace.update(deg=deg, orth=orth)
    x = _vec(v, A); Q, T, low = _ref(np, A, x, D); k = T.shape[0]
    if low < (1e-4 if full else 5e-2): raise v.skip("close to breakdown")
    if not full and D > 5: raise v.skip("loss of orthogonality expected")
    M = O.MatrixFunction(_container(v, A), fun=g, deg=deg, orth=orth); v.true("degree", M.degree == D); th, Y = np.linalg.eigh(T); nx = np.linalg.norm(x); fs = max(1, np.abs(_value(np, e, np.linspace(-1, 1, 9))).max()); y = M.matvec(x)
    _close(v, "action", y, nx * Q @ (Y @ (_value(np, e, th) * Y[0])), nx * fs); _close(v, "form", M.quad(x), nx ** 2 * (_value(np, e, th) @ Y[0] ** 2), nx ** 2 * fs); _close(v, "both agree", x @ np.ravel(y), M.quad(x), nx ** 2 * fs)
def extra_window(v):
    """full re-orthogonalisation under every spelling on ill-conditioned matrices, where a narrower window loses half of the digits"""
    np = v.np; O = v.mod("operators"); n = v.rnd.randint(25, 50); U = np.linalg.qr(v.rng.normal(size=(n, n)))[0]; w = np.logspace(0, 4, n) * v.rnd.choice([1, -1]); A = (U * w) @ U.T; A = (A + A.T) / 2; x = v.rng.normal(size=n); z = (U / w) @ (U.T @ x)
    M = O.MatrixFunction(_container(v, A), fun=lambda t: 1 / t, deg=v.rnd.choice([n, n + 4]), orth=v.rnd.choice([-1, -5, n, n + 7])); _close(v, "action", M.matvec(x), z, np.linalg.norm(z), 1e-6); _close(v, "form", M.quad(x), x @ z, abs(x @ z), 1e-6)
def extra_weak(v):
    """couplings far below the size of the operator, but above the tolerance of the stopping rule, are not dropped"""
    np = v.np; O = v.mod("operators"); n = v.rnd.choice([v.rnd.randint(2, 7), v.big("n", 2, 90)]); d = v.rng.normal(size=n) * 2; e = v.rng.uniform(.5, 1, size=n - 1); k = v.rnd.randrange(n - 1); e[k] = 10.0 ** v.rnd.uniform(-5.5, -4.5); A = np.diag(d) + np.diag(e, 1) + np.diag(e, -1); x = np.zeros(n); x[0] = v.rnd.uniform(.5, 2); v.trace.update(A=A)
    w, U = np.linalg.eigh(A); M = O.MatrixFunction(_container(v, A), deg=n, orth=v.rnd.choice([-1, n]), fun=lambda t: np.exp(t)); F = (U * np.exp(w)) @ U.T @ x; y = np.ravel(M.matvec(x)); v.true(f"action {y} expected {F}", np.abs(y - F)[:k + 1].max() < 1e-8 * np.abs(F).max() and np.abs(y - F)[k + 1:].max() < 1e-3 * e[k] * np.abs(F).max())
def extra_single(v):
    """32-bit operators"""
    np = v.np; O = v.mod("operators"); A, kind = _case(v, v.rnd.choice(["random", "positive", "diagonal"])); n = A.shape[0]; g, e = v.rnd.choice(_funs(v, A)); v.trace["fun"] = e; x = v.rng.normal(size=n)
    if _ref(np, A, x, n)[2] < .05: raise v.skip("close to breakdown")
    M = O.MatrixFunction(A.astype(np.float32), fun=g, deg=n, orth=n, dtype=np.float32); w, U = np.linalg.eigh(A); F = (U * _value(np, e, w)) @ U.T; nx = np.linalg.norm(x); fs = max(1, np.abs(_value(np, e, np.linspace(-1, 1, 9))).max()); _close(v, "action", M.matvec(x.astype(np.float32)), F @ x, nx * fs, 1e-2); _close(v, "form", M.quad(x.astype(np.float32)), x @ F @ x, nx ** 2 * fs, 1e-2)
def extra_front(v):
    np = v.np; O = v.mod("operators"); A, kind = _case(v); n = A.shape[0]; x = _vec(v, A); deg = v.rnd.randint(2, n + 2); t = v.rnd.uniform(.1, 2)
    if _ref(np, A, x, min(deg, n))[2] < 1e-2: raise v.skip("close to breakdown")
    a = O.matrix_function(A, fun="exp", v=x, deg=deg); M = O.matrix_function(A, fun="exp", deg=deg); v.true("operator", M.shape == (n, n)); _close(v, "same operator", a, M.matvec(x), np.linalg.norm(x)); _close(v, "a name and the callable", O.MatrixFunction(A, fun="exp", deg=deg, t=t).matvec(x), O.MatrixFunction(A, fun=lambda z: np.exp(t * z), deg=deg).matvec(x), 10 * np.linalg.norm(x)); _close(v, "default", O.MatrixFunction(A, deg=deg, orth=deg).quad(x), x @ A @ x, x @ x)
    M = O.MatrixFunction(A, fun="exp", deg=deg); old = M.fun
    for bad in (3.0, None, "exp", lambda z: 1.0, lambda z: [1.0] * n, lambda z: np.ones(n + 1), lambda z: np.ones((n, n + 1))):
        def put(): M.fun = bad
        v.raises("bad function set", put, Exception); v.true("function kept", M.fun is old)
        if bad is not None and bad != "exp": v.raises("bad function", lambda: O.MatrixFunction(A, fun=bad), Exception)
    v.raises("degree", lambda: O.MatrixFunction(A, deg=v.rnd.choice([1, 0, -3])), Exception); v.raises("not square", lambda: O.MatrixFunction(np.ones((n, n + 1))), Exception)

def extra_sizes(v):
    """larger operators; the action is homogeneous in the vector, whatever its size"""
    np = v.np; O = v.mod("operators"); n = v.big("n", 2, 200); D = min(n, v.rnd.randint(2, 12)); B = v.rng.normal(size=(n, n)) / np.sqrt(n); A = (B + B.T) / 4; x = v.rng.normal(size=n); s = 2.0 ** v.rnd.choice([-60, -40, -20, 0, 30]); v.trace["scale"] = s; Q, T, low = _ref(np, A, x, D)
    if low < 1e-3: raise v.skip("close to breakdown")
    th, Y = np.linalg.eigh(T); f = np.exp(th); nx = np.linalg.norm(x); M = O.MatrixFunction(_container(v, A), fun=np.exp, deg=D, orth=-1); y = M.matvec(s * x); y0 = y.copy()
    _close(v, "action", y / s, nx * Q @ (Y @ (f * Y[0])), nx); _close(v, "form", M.quad(s * x) / s ** 2, nx ** 2 * (f @ Y[0] ** 2), nx ** 2); k = v.rnd.randint(1, 3); X = np.column_stack([s * x] + [v.rng.normal(size=n)] * k); _close(v, "form in a block", M.quad(X)[0] / s ** 2, nx ** 2 * (f @ Y[0] ** 2), nx ** 2); M.matvec(v.rng.normal(size=n)); v.true("earlier results are kept", np.array_equal(y, y0)); v.eq("no vector", np.ravel(M.matvec(np.zeros(n))), np.zeros(n))
BOUNDS["extra_sizes"] = "operators up to 200x200, degrees up to 12, vectors at scales 2^-60 to 2^30"

def extra_again(v):
    """vectors and operators that are overwritten between two calls stand for their values at each"""
    np = v.np; O = v.mod("operators"); n = v.rnd.randint(2, 7); A = v.rng.normal(size=(n, n)); A = (A + A.T) / 2; x = v.rng.normal(size=n); y = x.copy(); y[-1] += v.rnd.choice([1.0, -4.0]); op = v.rnd.choice([lambda: A, lambda: v.linop(A)])(); M = O.MatrixFunction(op, fun=lambda t: t ** 2, deg=n, orth=n)
    for u in (x, y, 2 * x, np.r_[x[0], np.zeros(n - 1)]): w = u.copy(); _close(v, "action", M.matvec(w), A @ (A @ u), 100 * (1 + u @ u)); _close(v, "form", M.quad(w), u @ A @ (A @ u), 100 * (1 + u @ u))
    z = x.copy(); M.matvec(z); M.quad(z); z[...] = y; _close(v, "overwritten vector", M.matvec(z), A @ (A @ y), 100 * (1 + y @ y)); _close(v, "overwritten vector, form", M.quad(z), y @ A @ (A @ y), 100 * (1 + y @ y)); A[...] = np.diag(np.arange(1.0, n + 1)); _close(v, "overwritten operator", M.matvec(z), A @ (A @ y), 100 * (1 + y @ y) * n * n)
BOUNDS["extra_again"] = "operators up to 7x7"
