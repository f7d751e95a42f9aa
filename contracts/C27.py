"""Native recurrence: the instantiated C++ functions, extracted from clang's syntax tree on every run."""
FUNCTIONS = ["include/lanczos.h: mod", "include/lanczos.h: orth_vector", "include/lanczos.h: lanczos_recurrence", "include/eigen_operators.h: DenseEigenLinearOperator::matvec, ::shape", "include/eigen_operators.h: SparseEigenLinearOperator<F, false>::matvec, ::shape", "include/eigen_operators.h: constructors", "include/pylinop.h: PyLinearOperator::PyLinearOperator, ::matvec (pointers), ::shape", "_lanczos.cpp: the registered functions, per operator class"]
WEIGHT = {"extra_recurrence": 6.0}; NATIVE = True; EXTRACT = "binding"; PROBE = True; CON_SECONDS = 10; SYM_SECONDS = 150
BOUNDS = {"extra_recurrence": "matrices up to 10x10, all degrees, windows and buffer widths, compiled extension against the relation, guarded buffers", "extra_orth": "up to 10x8, compiled orth_vector", "extra_mod": "all |a| <= 200, b <= 60, compiled mod", "extra_operators": "up to 8x8, compiled operators", "extra_python": "up to 10x10, degrees up to 3, nine forms of the product", "extra_translation": "extracted text over numpy against the compiled functions"}
ASSUMPTIONS = ["sizes, degrees and indices are below 2^30 (no overflow of int)", "Eigen: maps, blocks, dot, norm, normalized and matrix-vector products compute what they name; Ref<const Matrix> of a contiguous map does not copy",
               "the extraction (engine/cxx.py) drops rounding, object lifetimes, copies of constant references and the clock; it reads the float and the double instantiation, which have to give the same text", "pybind11: an array of the registered type and order is passed without a copy, attribute access, calls and conversions of Python objects do what they name, the overload that needs no conversion is chosen", "termination is by the for loop's bound",
               "a Python operator's matvec returns the product as a vector of any length and does not hold on to its argument; a 2-d product is read in column order"]

def ob_mod(v):
    if not v.sym: return
    m = v.native(); a = v.free("a"); b = v.dim("b", 1); r = m.mod(a, b)
    v.true("not negative", r >= 0); v.true("below the modulus", r + 1 <= b); v.divisible("congruent", r - a, b)

def ob_mod_step(v):
    """consecutive residues are cyclically consecutive (a residue in range is unique)"""
    if not v.sym: return
    m = v.native(); a = v.free("a"); b = v.dim("b", 1); s = v.choice("step", [1, -1]); r = m.mod(a, b); r2 = m.mod(a + s, b); d = v.exact_div(r2 - r - s, b)
    if d >= 1: v.assume(b * (d - 1) >= 0)
    elif d <= -1: v.assume(b * (-d - 1) >= 0)
    if s == 1: v.eq("successor", v.ite(r + 1 >= b, 0, r + 1), r2)
    else: v.eq("predecessor", v.ite(r <= 0, b - 1, r - 1), r2)
    if a >= 0:
        if a + 1 <= b:
            d = v.exact_div(r - a, b)
            if d >= 1: v.assume(b * (d - 1) >= 0)
            elif d <= -1: v.assume(b * (-d - 1) >= 0)
            v.eq("already reduced", r, a)

def _mod(v):
    """the contract of mod, verified by ob_mod and ob_mod_step: the residue in [0, b); residues of consecutive numbers are cyclically consecutive"""
    memo = v.ghost()
    def mod(x, b):
        v.true("modulus is positive", b >= 1); v.assume(b >= 1)
        same = [(y, r) for y, c, r in memo.items if c is b or repr(c) == repr(b)]
        for y, r in same:
            if v.isconst(x - y, 0): return r
        for y, r in same:
            if v.isconst(x - y, 1): z = 0 if bool(r + 1 >= b) else r + 1
            elif v.isconst(x - y, -1): z = b - 1 if bool(r <= 0) else r - 1
            else: continue
            memo.items.append((x, b, z)); return z
        if v.isconst(x, 0): r = 0
        else: r = x + b * v.free("w"); v.assume(r >= 0); v.assume(r + 1 <= b)
        memo.items.append((x, b, r)); return r
    mod.memo = memo
    return mod

def _column(v, i, x, m):
    v.true("column inside the matrix", i >= 0); v.true("column inside the matrix", i + 1 <= m); v.divisible("cyclic column", i - x, m)
def ob_orth(v):
    """one projection per visited column, columns start, start +- 1, ... cyclically; U is not changed"""
    if not v.sym: return
    nat = v.native(); rt = v.rt; n = v.dim("n", 1); m = v.dim("m", 1); p = v.dim("p", 0); start = v.free("start"); rev = v.choice("reverse", [False, True]); sg = -1 if rev else 1; rt.eps = v.choice("machine epsilon", [2.0 ** -52, 2.0 ** -23])
    U = v.array("U", n, m, order="F"); w = v.array("v", n); U0, w0 = v.copy(U), v.copy(w); nat.mod = _mod(v); st = v.ghost().d; tol = 2 * rt.eps * v.sqrt(n)
    co = lambda a: v.uf("c", a)
    def check(loc, k):
        st.setdefault("carried", "i" in loc)       # is the column carried from one step to the next, or computed in each step?
        if st["carried"] or "w" in st: _column(v, loc["i"], start + sg * (k if st["carried"] else k - 1), m)
        cur = loc["v"].a
        if "w" not in st: v.eq("start", cur, w0); return
        W, i0 = st["w"], st["i"] if st["carried"] else loc["i"]; u = lambda r: v.at(U0, r, i0); uu = v.sum(0, n, lambda r: u(r) * u(r)); s = v.sum(0, n, lambda r: W(r) * u(r))
        if bool(uu > tol) and bool(v.abs(s) > tol):
            v.eq("subtracts the projection", cur, v.arr((n,), lambda r: W(r) - s / uu * u(r)))
            v.eq("orthogonal to the column afterwards", v.sum(0, n, lambda r: v.at(cur, r) * u(r)), 0)
            v.eq("stays in the span", cur, v.arr((n,), lambda r: v.at(w0, r) - v.sum(0, m, lambda a: v.at(U0, r, a) * (co(a) + v.ite(a == i0, s / uu, 0)))))
        else: v.eq("skips zero columns and projections", cur, v.arr((n,), W))
    def havoc(loc, k):
        if st["carried"]: i = start + sg * k + m * v.free("z"); v.assume(i >= 0); v.assume(i + 1 <= m); st["i"] = i
        W = lambda r: v.at(w0, r) - v.sum(0, m, lambda a: v.at(U0, r, a) * co(a))
        st["w"] = W; v.store(loc["v"].a, W); return {"i": i} if st["carried"] else {}
    v.invariant("native.orth_vector:0", check, havoc)
    nat.orth_vector(rt.vec(w), rt.mat(U), start, p, rev); v.eq("columns unchanged", U, U0)

def ob_orth_noop(v):
    """a vector orthogonal to every column is left exactly as it was"""
    if not v.sym: return
    nat = v.native(); rt = v.rt; n = v.dim("n", 1); m = v.dim("m", 1); p = v.dim("p", 0); start = v.free("start"); rev = v.choice("reverse", [False, True])
    U = v.array("U", n, m, order="F"); w = v.array("v", n); w0 = v.copy(w); nat.mod = _mod(v)
    v.lemma("", "orthogonal", [("U", ("i", "a")), ("v", ("i",))], {"i": n}, lambda b: v.const(0)); v.novalue("U", "v")
    def check(loc, k):
        if "i" in loc: i = loc["i"]; v.true("column inside the matrix", i >= 0); v.true("column inside the matrix", i + 1 <= m)
        v.eq("unchanged", loc["v"].a, w0)
    def havoc(loc, k):
        v.store(loc["v"].a, lambda r: v.at(w0, r))
        if "i" not in loc: return {}
        i = v.free("i"); v.assume(i >= 0); v.assume(i + 1 <= m); return {"i": i}
    v.invariant("native.orth_vector:0", check, havoc)
    nat.orth_vector(rt.vec(w), rt.mat(U), start, p, rev); v.eq("unchanged", w, w0)

class _Op:
    """contract of the operator: matvec writes A x to its output and reads nothing else (ob_dense, ob_sparse)"""
    _opaque_ghost = True
    def __init__(self, v, A, n): self.v, self.A, self.n, self.ext = v, A, n, None
    def shape(self): return self.v.rt.pair(self.n, self.n)
    def matvec(self, x, y):
        v, n, A = self.v, self.n, self.A; rt = v.rt
        X = rt.map_vector(x, n).a; Y = rt.map_vector(y, n).a; f = v.copy(X); v.store(Y, lambda i: v.sum(0, n, lambda j: v.at(A, i, j) * v.at(f, j)))

def _operator(v, cls):
    if not v.sym: return
    nat = v.native(); rt = v.rt; r, c = v.dim("rows", 1), v.dim("cols", 1); A = v.array("A", r, c, order="F"); li, lo = c + v.dim("pi", 0), r + v.dim("po", 0); x = v.array("x", li); y = v.array("y", lo)
    x0, y0 = v.copy(x), v.copy(y); self = v.record(A=rt.mat(A), matvec_time=0)
    getattr(nat, cls + "_matvec")(self, rt.ptr(x), rt.ptr(y))
    v.eq("product", y, v.arr((lo,), lambda i: v.ite(i + 1 <= r, v.sum(0, c, lambda j: v.at(A, i, j) * v.at(x0, j)), v.at(y0, i)))); v.eq("argument unchanged", x, x0)
    s = getattr(nat, cls + "_shape")(self); v.eq("shape", [s.first, s.second], [r, c])
def ob_dense(v): _operator(v, "dense")
def ob_sparse(v): _operator(v, "sparse")

class _PyOp:
    """a Python operator: a shape, and a matvec that returns the product (or a vector of another length) and may overwrite the array it is given"""
    _opaque_ghost = True
    def __init__(self, v, A, r, c, L): self.v, self.A, self.c, self.L, self.shape, self.calls = v, A, c, L, (r, c), 0
    def matvec(self, x):
        v, A = self.v, self.A; v.true("one vector", x.ndim == 1); v.eq("argument: size", x.shape[0], self.c); f = v.copy(x); self.calls += 1
        v.store(x, lambda i: v.uf("scratch", i)); return v.arr((self.L,), lambda i: v.sum(0, self.c, lambda j: v.at(A, i, j) * v.at(f, j)))
def ob_python(v):
    """the operator of a Python object: the product is written to the output vector and nowhere else, products of a wrong length are rejected"""
    if not v.sym: return
    nat = v.native(binding=True); rt = v.rt; r, c = v.dim("rows", 1), v.dim("cols", 1); x = v.array("x", c + v.dim("pi", 0)); lo = r + v.dim("po", 0); y = v.array("y", lo); x0, y0 = v.copy(x), v.copy(y)
    what = v.choice("object", ["operator", "wrong length", "no matvec", "no shape"])
    if what in ("no matvec", "no shape"):
        class Other: _opaque_ghost = True
        setattr(Other, *(("shape", (r, c)) if what == "no matvec" else ("matvec", lambda s, x: x))); v.raises("incomplete operators are rejected", lambda: nat.py_matvec(rt.object(nat.py_init, "PyLinearOperator", rt.pyobj(Other())), rt.ptr(x), rt.ptr(y)), (rt.Thrown, AttributeError)); v.eq("output untouched", y, y0); return
    L = r
    if what == "wrong length": L = v.dim("L", 0); v.assume(L != r)
    rows = L if what == "wrong length" else r; A = v.array("A", rows, c); op = _PyOp(v, A, r, c, L); self = rt.object(nat.py_init, "PyLinearOperator", rt.pyobj(op))
    s = nat.py_shape(self); v.eq("shape", [s.first, s.second], [r, c])
    if what == "wrong length": v.raises("products of a wrong length are rejected", lambda: nat.py_matvec(self, rt.ptr(x), rt.ptr(y)), rt.Thrown); v.eq("output untouched", y, y0)
    else: nat.py_matvec(self, rt.ptr(x), rt.ptr(y)); v.eq("product", y, v.arr((lo,), lambda i: v.ite(i + 1 <= r, v.sum(0, c, lambda j: v.at(A, i, j) * v.at(x0, j)), v.at(y0, i))))
    v.eq("one call", op.calls, 1); v.eq("argument unchanged", x, x0)
def ob_binding(v):
    """the registered functions hand the operator, the options and the caller's own buffers to one run of the recurrence"""
    if not v.sym: return
    nat = v.native(binding=True); rt = v.rt; n = v.dim("n", 1); ncv = v.dim("ncv", 1); deg = v.free("deg"); orth = v.free("orth"); rtol = v.real("rtol"); cls = v.choice("operator", ["dense", "sparse", "py"])
    A = v.array("A", n, n, order="F"); q, al, be = v.array("q", n), v.array("alpha", v.dim("na", 0)), v.array("beta", v.dim("nb", 0)); Q = v.array("Q", n, ncv, order="F"); keep = [(b, v.copy(b)) for b in (A, q, al, be, Q)]; runs = []
    nat.lanczos_recurrence = lambda *a: runs.append(a)
    op = _PyOp(v, A, n, n, n); getattr(nat, "wrap_" + cls)(rt.pyobj(op) if cls == "py" else rt.mat(A), *(rt.pyarray_of(b) for b in (q,)), deg, rtol, orth, *(rt.pyarray_of(b) for b in (al, be, Q)))
    v.eq("one run", len(runs), 1); o, *bufs = runs[0]; q1, d1, t1, o1, a1, b1, Q1, n1 = bufs
    v.eq("class of the operator", o.cls, {"dense": "DenseEigenLinearOperator", "sparse": "SparseEigenLinearOperator", "py": "PyLinearOperator"}[cls])
    if cls == "py": v.true("the object itself", o._op.obj is op)
    else: v.eq("operator", o.A.full(), A)
    for name, p, b in (("start vector", q1, q), ("alpha", a1, al), ("beta", b1, be), ("basis", Q1, Q)): v.true(name + ": the caller's buffer", p.a is b); v.eq(name + ": from its start", p.off, 0)
    v.eq("degree", d1, deg); v.eq("tolerance", t1, rtol); v.eq("window", o1, orth); v.eq("stored vectors", n1, ncv)
    for b, b0 in keep: v.eq("nothing else is written", b, b0)

def ob_recurrence(v):
    """the three-term relation at an arbitrary step, from an arbitrary state of all buffers"""
    if not v.sym: return
    nat = v.native(); rt = v.rt; n = v.dim("n", 1); deg = v.dim("deg", 1); ncv = v.dim("ncv", 2)
    wide = v.choice("window", ["several columns", "one column, one step"]) == "several columns"
    if not wide: ncv = 1; v.assume(deg <= 1)
    A = v.array("A", n, n); Q = v.array("Q", n, ncv, order="F"); q = v.array("q", n); al = v.array("alpha", deg + v.dim("pa", 0)); be = v.array("beta", deg + 1 + v.dim("pb", 0)); Q0, q0, al0, be0 = (v.copy(x) for x in (Q, q, al, be))
    orth = v.free("orth"); rtol = v.real("rtol", pos=True); nat.mod = mod = _mod(v); st = v.ghost().d; u = v.uf
    def orth_vector(w, U, start, p, reverse=False):
        rt.same("re-orthogonalisation: sizes", w.rows(), U.rows()); st["orth"] = (v.copy(w.a), U, start, p, reverse); v.store(w.a, lambda i: u("reorth", i))
    nat.orth_vector = orth_vector
    col = lambda X, a: (lambda i: v.at(X, i, a))
    def step(now):
        """now: (v, Q, alpha, beta) after the step; returns beta of the next step"""
        k, (p, c, x), (w1, Q1, a1, b1) = st["k"], st["pos"], now
        S = lambda f: v.sum(0, n, f); q_ = lambda i: u("Q1", i, c)
        r = lambda i: S(lambda j: v.at(A, i, j) * u("Q1", j, c)) - u("b1", k) * u("Q1", i, p)
        a = S(lambda i: q_(i) * r(i)); r2 = lambda i: r(i) - a * q_(i)
        v.eq("alpha is the projection of the remainder on the current vector", v.at(a1, k), a)
        v.eq("alpha: other entries unchanged", a1, v.arr(al.shape, lambda i: v.ite(i == k, v.at(a1, k), u("a1", i))))
        if "orth" in st:
            w, U, s, np_, rev = st["orth"]; v.true("re-orthogonalisation is asked for", orth > 0)
            v.eq("re-orthogonalises the remainder", w, v.arr((n,), r2)); v.true("against the stored vectors", U.a.buf is Q.buf and U.c is ncv or U.a.shape == Q.shape and v.isconst(U.cols() - ncv, 0)); v.eq("from the current vector", s, c); v.eq("as many as asked for", np_, orth); v.true("backwards", rev is True); fin = lambda i: u("reorth", i)
        else: v.true("no re-orthogonalisation is asked for", orth <= 0); fin = r2
        v.eq("beta is the norm of the remainder", v.at(b1, k + 1), v.sqrt(S(lambda i: fin(i) * fin(i))))
        v.eq("beta: other entries unchanged", b1, v.arr(be.shape, lambda i: v.ite(i == k + 1, v.at(b1, k + 1), u("b1", i))))
        v.eq("remainder", w1, v.arr((n,), fin)); return v.at(b1, k + 1), fin
    def check(loc, k):
        P = loc["pos"]; Qn, vn = loc["Q"].a, loc["v"].a; v.true("a step remains", k + 1 <= deg)
        v.eq("previous column", P[0], 0 if not wide else mod(k - 1, ncv)); v.eq("current column", P[1], 0 if not wide else mod(k, ncv)); v.eq("next column", P[2], 1 if not wide else mod(k + 1, ncv))
        if "k" not in st:
            nn = v.sum(0, n, lambda i: v.at(q0, i) * v.at(q0, i)); v.eq("beta_0", be, v.arr(be.shape, lambda i: v.ite(i == 0, 0, v.at(be0, i)))); v.eq("alpha untouched", al, al0)
            first = lambda i: v.at(q0, i) / v.sqrt(nn) if bool(nn > 0) else v.at(q0, i)
            f = v.arr((n,), first); v.eq("first vector", v.arr((n,), lambda i: v.at(Qn, i, 0)), f)
            v.eq("vectors before the first step", Qn, v.arr((n, ncv), lambda i, a: v.ite(a == 0, v.at(f, i), v.ite(a == ncv - 1, 0, v.at(Q0, i, a))))); return
        b, fin = step((vn, Qn, al, be)); x = st["pos"][2]
        v.true("continues only if the remainder is not negligible", b >= v.sqrt(n) * rtol)
        v.eq("next vector is the normalised remainder, the others unchanged", Qn, v.arr((n, ncv), lambda i, a: v.ite(a == x, fin(i) / b, u("Q1", i, a))))
    def havoc(loc, k):
        v.assume(k + 1 <= deg); st["k"] = k; mod.memo.items.clear()
        c = mod(k, ncv) if wide else 0; p = mod(k - 1, ncv) if wide else 0; x = mod(k + 1, ncv) if wide else 1; st["pos"] = (p, c, x)
        if wide: v.true("current and next column differ", c != x); v.true("current and previous column differ", c != p)
        v.store(Q, lambda i, a: u("Q1", i, a)); v.store(q, lambda i: u("v1", i)); v.store(al, lambda i: u("a1", i)); v.store(be, lambda i: u("b1", i))
        for s, y in enumerate((p, c, x)): list.__setitem__(loc["pos"], s, y)
        return {}
    v.invariant("native.lanczos_recurrence:0", check, havoc)
    nat.lanczos_recurrence(_Op(v, A, n), rt.ptr(q), deg, rtol, orth, rt.ptr(al), rt.ptr(be), rt.ptr(Q), ncv)
    b, fin = step((q, Q, al, be))
    if not bool(st["k"] + 1 >= deg): v.true("stops only when the remainder is negligible", b < v.sqrt(n) * rtol)
    v.eq("no vector is written in the last step", Q, v.arr((n, ncv), lambda i, a: u("Q1", i, a)))

# ------------------------------------------------------------ the compiled code
def _guard(v, shape, dtype, fill=None):
    """a buffer with sentinels around it: (view, check)"""
    np = v.np; big = np.full([d + 6 for d in shape[:1]] if len(shape) == 1 else (shape[0], shape[1] + 6), 7.25, dtype=dtype, order="F")
    view = big[3:3 + shape[0]] if len(shape) == 1 else big[:, 3:3 + shape[1]]
    if fill is not None: view[...] = fill
    return view, lambda: bool(np.all(big[..., :3] == 7.25) and np.all(big[..., -3:] == 7.25) if len(shape) == 2 else np.all(big[:3] == 7.25) and np.all(big[-3:] == 7.25))
def _orth_ref(np, w, U, start, p, rev, dt="float64"):
    tol = 2 * np.finfo(dt).eps * np.sqrt(U.shape[0]); m = U.shape[1]; w = w.copy()
    for k in range(p):
        u = U[:, (start - k if rev else start + k) % m]; uu, s = u @ u, w @ u
        if uu > tol and abs(s) > tol: w -= s / uu * u
    return w
def _data(v, dtype="float64"):
    np = v.np; n = v.rnd.randint(1, 10); kind = v.rnd.choice(["random", "random", "low rank", "clustered", "integer", "diagonal"]); B = v.rng.normal(size=(n, n))
    A = (B + B.T) / 2
    if kind == "low rank": r = v.rnd.randint(1, n); A = B[:, :r] @ B[:, :r].T
    if kind == "clustered": w, V = np.linalg.eigh(A); A = (V * np.round(w)) @ V.T; A = (A + A.T) / 2
    if kind == "integer": A = np.round(2 * A)
    if kind == "diagonal": A = np.diag(np.round(np.diag(A) * 3))
    x = v.rng.normal(size=n) if v.rnd.random() < .7 else np.round(v.rng.normal(size=n) * 2)
    if not x.any(): x[0] = 1.0
    v.trace.update(A=A, x=x); return A.astype(dtype), x.astype(dtype)
def _as(v, A, kind):
    import scipy.sparse as sp
    if kind == "dense": return v.np.asfortranarray(A)
    if kind == "sparse": return sp.csc_matrix(A)
    import scipy.sparse.linalg as sl
    return sl.aslinearoperator(A)
def extra_recurrence(v):
    np = v.np; L = v.mod("_lanczos").lanczos; dt = v.rnd.choice(["float64"] * 4 + ["float32"]); A, x = _data(v, dt); n = len(x); deg = v.rnd.randint(1, n + 2 if dt == "float64" else 3); ncv = v.rnd.randint(2 if deg > 1 else 1, deg + 2); orth = v.rnd.choice([-1, 0, 1, 2, ncv - 1, ncv, deg, 3 * deg]); rtol = v.rnd.choice([1e-8, 1e-8, 1e-3, .3, 2.0])
    v.trace.update(deg=deg, ncv=ncv, orth=orth, rtol=rtol); al, g1 = _guard(v, (deg + v.rnd.randint(1, 3),), dt); be, g2 = _guard(v, (deg + 1 + v.rnd.randint(0, 2),), dt, 0.0); Q, g3 = _guard(v, (n, ncv), dt, v.rng.normal(size=(n, ncv))); q, g4 = _guard(v, (n,), dt, x)
    a0, b0, M = al.copy(), be.copy(), _as(v, A, v.rnd.choice(["dense", "dense", "sparse"])); Aref = A.copy()
    Qr = Q.copy(order="F"); L(M, q, deg, rtol, orth, al, be, Q)
    v.true("buffers are not exceeded", g1() and g2() and g3() and g4()); v.true("the operator is unchanged", np.array_equal(M.toarray() if hasattr(M, "toarray") else M, Aref))
    # (the recurrence amplifies rounding: the comparison is as sharp as the reference itself is stable under perturbations of rounding size)
    eps = 2e-7 if dt == "float32" else 1e-15; ref = _lanczos_ref(np, A.astype(float), x.astype(float), Qr.astype(float), deg, ncv, orth, rtol, dt); errs = [0.0] * 4
    for _ in range(3):
        Ap = A * (1 + eps * v.rng.normal(size=A.shape)); o = _lanczos_ref(np, Ap + Ap.T - (Ap + Ap.T) / 2, x * (1 + eps * v.rng.normal(size=n)), Qr.astype(float), deg, ncv, orth, rtol, dt)
        if o[4] != ref[4]: raise v.skip("unstable number of steps")
        errs = [max(e, float(np.max(np.abs(s - t), initial=0.0))) for e, s, t in zip(errs, ref, o)]
    if max(errs) > 1e-4 or ref[5] or dt == "float32" and min(ref[1][1:-1], default=1) < .2: raise v.skip("unstable case")
    near = lambda p, q_, e: bool(np.all(np.abs(np.asarray(p, float) - q_) <= 1e3 * e + (2e-3 if dt == "float32" else 1e-9) * (1 + np.max(np.abs(A)))))
    k = ref[4]; v.eq("beta_0", float(be[0]), 0.0); v.true(f"alpha {al[:k]} expected {ref[0]}", near(al[:k], ref[0], errs[0])); v.true(f"beta {be[:k + 1]} expected {ref[1]}", near(be[:k + 1], ref[1], errs[1]))
    v.eq("alpha beyond the last step", al[k:], a0[k:]); v.eq("beta beyond the last step", be[k + 1:], b0[k + 1:]); v.true("vectors", near(Q, ref[2], errs[2])); v.true("remainder", near(q, ref[3], errs[3]))
def _lanczos_ref(np, A, x, Q, deg, ncv, orth, rtol, dt):
    """(alpha, beta, vectors, remainder, steps, uncertain): the relation of the property, step by step"""
    n = len(x); Q = Q.copy(); Q[:, (-1) % ncv] = 0; Q[:, 0] = x / np.sqrt(x @ x); al, be = [], [0.0]; thr = np.sqrt(n) * rtol; unsure = False
    for j in range(deg):
        p, c, nx = (j - 1) % ncv, j % ncv, (j + 1) % ncv; r = A @ Q[:, c] - be[-1] * Q[:, p]; a = float(Q[:, c] @ r); r = r - a * Q[:, c]
        if orth > 0: r = _orth_ref(np, r, Q, c, orth, True, dt)
        nb = float(np.sqrt(r @ r)); al.append(a); be.append(nb); unsure |= abs(nb - thr) <= 1e-3 * thr + 1e-5 * (dt == "float32") + 1e-12
        if j + 1 == deg or nb < thr: break
        Q[:, nx] = r / nb
    return np.array(al), np.array(be), Q, r, len(al), unsure
def extra_operators(v):
    P = v.probe(); np = v.np; import scipy.sparse as sp
    r, c = v.rnd.randint(1, 8), v.rnd.randint(1, 8); A = v.rng.normal(size=(r, c)) * (v.rng.random(size=(r, c)) < .6); x = v.rng.normal(size=c); y, g = _guard(v, (r,), "float64"); v.trace.update(A=A, x=x); x0 = x.copy()
    P.dense_matvec(np.asfortranarray(A), x, y); v.eq("dense product", y, A @ x); v.true("bounds", g()); y[:] = 3.0; P.sparse_matvec(sp.csc_matrix(A), x, y); v.eq("sparse product", y, A @ x); v.true("bounds", g()); v.eq("argument", x, x0); v.eq("shape", list(P.dense_shape(np.asfortranarray(A))), [r, c]); v.eq("shape", list(P.sparse_shape(sp.csc_matrix(A))), [r, c])
class _Obj:
    """a Python operator that returns the product in different forms, and may overwrite its argument"""
    def __init__(self, np, A, form): self.np, self.A, self.form = np, A, form; self.shape = A.shape; self.dtype = A.dtype; self.args = []
    def matvec(self, x):
        np = self.np; y = self.A @ np.asarray(x); self.args.append(x)
        if self.form == "strided": b = np.full(2 * len(y), 7.25); b[::2] = y; y = b[::2]
        elif self.form == "column": y = y[:, None]
        elif self.form == "reversed": y = y[::-1].copy()[::-1]
        elif self.form == "other width": y = y.astype(np.float32 if y.dtype == np.float64 else np.float64)
        elif self.form == "longer": y = np.append(y, 7.25)
        elif self.form == "shorter": y = y[:-1]
        elif self.form == "scratch": x[:] = 7.25
        elif self.form == "same buffer":
            if not hasattr(self, "out"): self.out = np.empty_like(y)
            self.out[:] = y; y = self.out
        return y
def extra_python(v):
    """Python operators against the same matrix stored densely"""
    np = v.np; L = v.mod("_lanczos").lanczos; dt = v.rnd.choice(["float64"] * 3 + ["float32"]); A, x = _data(v); A = np.round(A * 4) / 4; x = np.round(x * 4) + 1; x[0] += .5; A, x = A.astype(dt), x.astype(dt); n = len(x); deg = v.rnd.randint(1, 3); ncv = v.rnd.randint(2 if deg > 1 else 1, deg + 2); orth = v.rnd.choice([0, 1, deg]); form = v.rnd.choice(["plain", "strided", "column", "reversed", "other width", "scratch", "same buffer", "longer", "shorter"]); v.trace.update(A=A, x=x, deg=deg, ncv=ncv, orth=orth, form=form)
    def run(M):
        gs = [_guard(v, (deg + 1,), dt, 0.0), _guard(v, (deg + 2,), dt, 0.0), _guard(v, (n, ncv), dt, 0.0), _guard(v, (n,), dt, x)]; al, be, Q, q = (g[0] for g in gs)
        L(M, q, deg, .3, orth, al, be, Q); v.true("buffers are not exceeded", all(g[1]() for g in gs)); return [al, be, Q, q]
    op = _Obj(np, A, form)
    if form in ("longer", "shorter"): v.raises("products of a wrong length are rejected", lambda: run(op)); return
    if form == "other width" and dt == "float64": raise v.skip("rounds the product")
    want = run(np.asfortranarray(A)); got = run(op)
    if want[1][1:deg + 1].any() and min(want[1][1:deg + 1][want[1][1:deg + 1] != 0]) < .3 or abs(want[1] - .3 * np.sqrt(n)).min() < 1e-3: raise v.skip("unstable case")
    for name, p, q_ in zip(("alpha", "beta", "vectors", "remainder"), got, want): v.true(f"{name}: {p} expected {q_}", np.allclose(p, q_, rtol=1e-3 if dt == "float32" else 1e-7, atol=(1e-3 if dt == "float32" else 1e-7) * (1 + np.abs(A).max())))
    for bad in ({"shape": (n, n)}, {"matvec": op.matvec}): v.raises("incomplete operators are rejected", lambda: run(type("Other", (), dict(bad))()))
def extra_mod(v):
    P = v.probe(); a, b = v.rnd.randint(-200, 200), v.rnd.randint(1, 60); v.trace.update(a=a, b=b); v.eq("residue", P.mod(a, b), a % b)
def _orth_case(v):
    np = v.np; n, m = v.rnd.randint(1, 10), v.rnd.randint(1, 8); U, g = _guard(v, (n, m), "float64", v.rng.normal(size=(n, m)))
    if v.rnd.random() < .4: U[...] = np.linalg.qr(v.rng.normal(size=(max(n, m), m)))[0][:n]
    if v.rnd.random() < .4: U[:, v.rnd.randrange(m)] = v.rnd.choice([0.0, 1e-17, 1e-9, 1e-5])
    if v.rnd.random() < .2: U[...] = np.round(U)
    w, h = _guard(v, (n,), "float64", v.rng.normal(size=n))
    if v.rnd.random() < .3: w[...] = U @ v.rng.normal(size=m)
    if v.rnd.random() < .2: w *= v.rnd.choice([1e-9, 1e-14])
    start, p, rev = v.rnd.randint(-2 * m, 2 * m), v.rnd.randint(0, 2 * m + 1), v.rnd.random() < .5; v.trace.update(U=U.copy(), w=w.copy(), start=start, p=p, reverse=rev); return U, g, w, h, start, p, rev
def extra_orth(v):
    P = v.probe(); np = v.np; U, g, w, h, start, p, rev = _orth_case(v); ref = _orth_ref(np, w.copy(), U, start, p, rev); U0 = U.copy(); near = [abs(U[:, k] @ U[:, k]) for k in range(U.shape[1])]
    tol = 2 * 2.0 ** -52 * np.sqrt(len(w))
    P.orth_vector(w, U, start, p, rev); v.true("bounds", g() and h()); v.eq("columns", U, U0); sc = 1 + np.max(np.abs(ref)); v.true("projections", bool(np.all(np.abs(w - ref) <= 1e-6 * sc)))
def extra_translation(v):
    """the extracted text over numpy agrees with the compiled functions: otherwise the extraction is not trusted and nothing counts as proved"""
    N = v.native(); P = v.probe(); np = v.np; rt = N.rt; bad = None
    try:
        a, b = v.rnd.randint(-200, 200), v.rnd.randint(1, 60)
        if N.mod(a, b) != P.mod(a, b): bad = f"mod({a}, {b})"
        U, g, w, h, start, p, rev = _orth_case(v); w2 = w.copy(); P.orth_vector(w, U, start, p, rev); N.orth_vector(rt.vec(w2), rt.mat(U), start, p, rev)
        if not np.allclose(w, w2, rtol=1e-6, atol=1e-6 * (1 + np.abs(w2).max())): bad = "orth_vector"
        A, x = _data(v); n = len(x); deg = v.rnd.randint(1, n); ncv = v.rnd.randint(2 if deg > 1 else 1, deg + 1); orth = v.rnd.choice([0, 1, ncv, deg]); bufs = lambda: (x.copy(), np.zeros(deg + 1), np.zeros(deg + 1), np.zeros((n, ncv), order="F"))
        q1, a1, b1, Q1 = bufs(); q2, a2, b2, Q2 = bufs(); v.mod("_lanczos").lanczos(np.asfortranarray(A), q1, deg, .3, orth, a1, b1, Q1)
        class Op: pass
        Op.A = rt.mat(np.asfortranarray(A)); Op.matvec_time = 0
        Op.shape = lambda s: N.dense_shape(s); Op.matvec = lambda s, i, o: N.dense_matvec(s, i, o)
        N.lanczos_recurrence(Op(), rt.ptr(q2), deg, .3, orth, rt.ptr(a2), rt.ptr(b2), rt.ptr(Q2), ncv)
        op = _Obj(np, A, v.rnd.choice(["plain", "strided", "column", "reversed", "scratch", "longer", "shorter"])); res = []
        for f in (v.mod("_lanczos").lanczos, lambda M, q, d, t, o, a, b, Q: N.wrap_py(rt.pyobj(M), rt.pyarray_of(q), d, t, o, rt.pyarray_of(a), rt.pyarray_of(b), rt.pyarray_of(Q))) if not N.BINDING_ERRORS else ():
            q3, a3, b3, Q3 = bufs()
            try: f(op, q3, deg, .3, orth, a3, b3, Q3); res.append((q3, a3, b3, Q3))
            except (ValueError, rt.Thrown): res.append((None,) * 4)
        if res and (res[0][0] is None) != (res[1][0] is None): bad = "PyLinearOperator: exceptions"
        small = b1[1:][(b1[1:] != 0)]
        if not (len(small) and small.min() < 1e-2 or abs(b1 - .3 * np.sqrt(n)).min() < 1e-6) and not all(np.allclose(s, t, rtol=1e-5, atol=1e-5) for s, t in ((q1, q2), (a1, a2), (b1, b2), (Q1, Q2), *(zip(*res) if res and res[0][0] is not None and not bad else ()))): bad = "lanczos_recurrence"
    except (AttributeError, TypeError, ValueError, rt.CxxError) as e: bad = f"{type(e).__name__}: {e}"
    if bad: v.demote("the extracted text disagrees with the compiled code: " + bad)
    v.true("agrees or is not used", True)
