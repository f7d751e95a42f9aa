"""Matrix-function operator: results are functions of the operator and the vector, whatever was computed before."""
FUNCTIONS = ["operators.MatrixFunction._matvec", "operators.MatrixFunction.quad", "operators.MatrixFunction.fun", "operators.MatrixFunction._krylov_dim", "integrate.quadrature"]
NATIVE = True; CON_SECONDS = 12; SYM_SECONDS = 240
BOUNDS = {"extra_history": "operators up to 12x12, up to 8 earlier calls, blocks up to 5 columns, compiled extension"}
ASSUMPTIONS = ["contract of the extension (C27, C28): its results are functions of operator, start vector, degree and tolerance when the basis starts empty or the window is zero; only the buffers handed over are written", "contract of the scipy solver: eigendecomposition of the tridiagonal matrix", "the operator itself is unchanged between calls", "the function acts on each entry of its argument and is a function", "real arithmetic"]
from contracts.C29 import _Native, _setup, _fun, _block

HOW = ["action", "form"]
def _call(v, M, x, how): M.matvec(x) if how == "action" else M.quad(x)
def _then(v, last):
    """an earlier call on any vector (or on the same), then the call"""
    n, A, nat, M, (fun, f), D = _setup(v); y = v.array("y", n); x = v.array("x", n); x0, A0, y0 = v.copy(x), v.copy(A), v.copy(y)
    e = v.choice("earlier vector", ["another", "the same", "the same array, overwritten since"])
    if e == "another": _call(v, M, y, v.choice("earlier call", HOW)); v.eq("earlier argument unchanged", y, y0)
    else: _call(v, M, x, v.choice("earlier call", HOW))
    if e.endswith("since"): v.store(x, lambda i: v.uf("x2", i)); x0 = v.copy(x)
    if v.choice("function", ["kept", "replaced"]) == "replaced":
        fun, f = _fun(v, "psi"); M.fun = fun
    last(M, nat, x, x0, f); v.eq("argument unchanged", x, x0); v.eq("matrix unchanged", A, A0)
def ob_then_action(v):
    if v.sym: _then(v, lambda M, nat, x, x0, f: v.eq("action", M.matvec(x), nat.action(x0, f)))
def ob_then_form(v):
    if v.sym: _then(v, lambda M, nat, x, x0, f: v.eq("form", v.at(M.quad(x), 0), nat.form(x0, f)))

# any history: results from arbitrary contents of the work spaces, which calls leave as work spaces of the same shape
def _havoc(v, M, A, tag="ws"):
    for name, w in vars(M).items():
        if v.isarr(w) and w is not A: v.store(w, (lambda nm: lambda *i: v.uf(tag + nm, *i))(name))
def _frame(v, M, A):
    s = {k: ((tuple(w.shape), w.dtype, w.flags["F_CONTIGUOUS"]) if v.isarr(w) and w is not A else w) for k, w in vars(M).items()}
    def check():
        t = {k: ((tuple(w.shape), w.dtype, w.flags["F_CONTIGUOUS"]) if v.isarr(w) and w is not A else w) for k, w in vars(M).items()}
        v.true("same fields", sorted(s) == sorted(t))
        for k in s:
            if isinstance(s[k], tuple) and v.isarr(vars(M)[k]): v.eq("work space sizes", t[k][0], s[k][0]); v.true("work space formats", s[k][1:] == t[k][1:])
            elif v.isint(s[k]) or v.isfloat(s[k]): v.eq("parameters", t[k], s[k])
            else: v.true("other fields", s[k] is t[k] or s[k] == t[k])
    return check
def _any(v, last):
    v.softly = True; n, A, nat, M, (fun, f), D = _setup(v); x = v.array("x", n); x0, A0 = v.copy(x), v.copy(A); _havoc(v, M, A); chk = _frame(v, M, A); last(M, nat, x, x0, f); v.eq("argument unchanged", x, x0); v.eq("matrix unchanged", A, A0); chk()
def ob_any_action(v):
    if v.sym: _any(v, lambda M, nat, x, x0, f: v.eq("action", M.matvec(x), nat.action(x0, f)))
def ob_any_form(v):
    if v.sym: _any(v, lambda M, nat, x, x0, f: v.eq("form", v.at(M.quad(x), 0), nat.form(x0, f)))
def ob_any_block(v):
    """column t of any block: the same form as the vector alone, with the function set last"""
    def before(M, A): _havoc(v, M, A, "ws0"); M.fun, g = _fun(v, "psi"); return g
    if v.sym: v.softly = True; _block(v, before)
def ob_any_function(v):
    """setting the function changes nothing else"""
    if not v.sym: return
    v.softly = True; n, A, nat, M, (fun, f), D = _setup(v); _havoc(v, M, A); s = v.freeze({k: w for k, w in vars(M).items() if k not in ("_fun", "_A")}); g, _ = _fun(v, "psi"); M.fun = g; v.true("set", M.fun is g); v._cmp_frozen("other fields", s, v.freeze({k: w for k, w in vars(M).items() if k not in ("_fun", "_A")}), True)

# ------------------------------------------------------------ the compiled code
def extra_history(v):
    """random sequences of calls on one operator against operators used once"""
    from contracts.C29 import _case, _funs, _container
    np = v.np; O = v.mod("operators"); A, kind = _case(v); n = A.shape[0]; deg = v.rnd.randint(2, n + 2); orth = v.rnd.choice([0, 0, 1, 3, deg, -1]); (g1, e1), (g2, e2) = v.rnd.choice(_funs(v, A)), v.rnd.choice(_funs(v, A)); v.trace.update(deg=deg, orth=orth, fun=e1, fun2=e2)
    B = _container(v, A); A0 = A.copy(); mk = lambda f: O.MatrixFunction(B, fun=f, deg=deg, orth=orth); M = mk(g1); cur = g1; pool = [v.rng.normal(size=n) for _ in range(3)] + [np.eye(n)[v.rnd.randrange(n)], 1e3 * v.rng.normal(size=n)]; w, U = np.linalg.eigh(A); pool += [U[:, 0] + U[:, -1], U[:, v.rnd.randrange(n)].copy()]
    hist = []; v.trace["history"] = hist; buf = np.empty(n)
    for step in range(v.rnd.randint(2, 8)):
        op = v.rnd.choice(["action", "action", "form", "form", "block", "block", "product", "function"]); ks = [v.rnd.randrange(len(pool)) for _ in range(v.rnd.randint(1, 5))]; buf[:] = pool[ks[0]]; x = buf; hist.append((op, ks)); X = np.array([pool[k] for k in ks]).T; X = X.copy(order=v.rnd.choice("CF"))
        if op == "function": cur = v.rnd.choice([f for f in (g1, g2, np.sin) if callable(f)]); M.fun = cur; continue
        X0, x0 = X.copy(), x.copy()
        if op == "action": got, want = M.matvec(x), mk(cur).matvec(x0.copy())
        elif op == "form": got, want = M.quad(x), mk(cur).quad(x0.copy())
        elif op == "block": got, want = M.quad(X), np.array([mk(cur).quad(X0[:, j].copy())[0] for j in range(X.shape[1])])
        else: got, want = M @ X, np.stack([mk(cur).matvec(X0[:, j].copy()) for j in range(X.shape[1])], axis=1)
        got, want = np.asarray(got), np.asarray(want); v.true(f"call {step} ({op}): arguments unchanged", np.array_equal(X, X0) and np.array_equal(x, x0)); v.true("matrix unchanged", np.array_equal(A, A0) and np.array_equal(B.toarray() if hasattr(B, "toarray") else A0, A0))
        sc = 1e-300 + np.abs(want).max(); v.true(f"call {step} ({op}): same as an operator used once, differs by {np.abs(got.ravel() - want.ravel()).max() / sc}", got.size == want.size and np.allclose(got.ravel(), want.ravel(), rtol=0, atol=1e-5 * sc))

def extra_functions(v):
    """any function set afterwards, whatever it is called or was set before, gives the operator built with it"""
    import functools
    np = v.np; O = v.mod("operators"); P = v.mod("special").param_callable; n = v.rnd.randint(2, 7); B = v.rng.normal(size=(n, n)); A = B @ B.T / n + np.eye(n); x = v.rng.normal(size=n); deg = v.rnd.randint(2, n)
    class F:
        def __call__(self, t): return 1 / (1 + t)
    def log(t): return t ** 2
    pool = [np.log, np.exp, np.sqrt, np.abs, np.sin, np.reciprocal, np.tanh, F(), log, functools.partial(np.power, 2.0), lambda t: t ** 3] + [P(k) for k in ("identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank")]
    M = O.MatrixFunction(A, fun=v.rnd.choice([v.rnd.choice(pool), "log", "exp", "inv"]), deg=deg, orth=deg)
    for f in v.rnd.sample(pool, 4) + [v.rnd.choice(pool)] * 2:
        M.fun = f; N = O.MatrixFunction(A, fun=f, deg=deg, orth=deg); sc = 1e-9 + np.abs(N.matvec(x)).max(); v.true("kept", M.fun is f); v.true(f"action of {f}", np.abs(M.matvec(x) - N.matvec(x)).max() < 1e-9 * sc); v.eq("form", M.quad(x), N.quad(x))
BOUNDS["extra_functions"] = "matrices up to 7x7, twenty functions"

def extra_blocks(v):
    """wide blocks and long histories against operators used once"""
    np = v.np; O = v.mod("operators"); n = v.rnd.randint(2, 8); B = v.rng.normal(size=(n, n)); A = (B + B.T) / 4; deg = v.rnd.randint(2, n); m = v.big("m", 1, 300); X = v.rng.normal(size=(n, m)) * 2.0 ** v.rng.integers(-30, 10, size=m); M = O.MatrixFunction(A, fun=np.exp, deg=deg, orth=deg); q = M.quad(X); q0 = q.copy(); js = [v.rnd.randrange(m) for _ in range(5)] + [m - 1]
    for j in js: w = O.MatrixFunction(A, fun=np.exp, deg=deg, orth=deg).quad(X[:, j].copy())[0]; v.true(f"column {j}: {q[j]} expected {w}", bool(abs(q[j] - w) <= 1e-8 * abs(w)))
    for g in (np.sin, np.exp):
        M.fun = g; p = M.quad(X)
        for j in js: w = O.MatrixFunction(A, fun=g, deg=deg, orth=deg).quad(X[:, j].copy())[0]; v.true(f"column {j} after setting the function: {p[j]} expected {w}", bool(abs(p[j] - w) <= 1e-8 * abs(w) + 1e-12 * (X[:, j] @ X[:, j])))
    k = v.big("calls", 1, 250)
    for i in range(k): y = M.matvec(X[:, i % m])
    w = O.MatrixFunction(A, fun=np.exp, deg=deg, orth=deg).matvec(X[:, (k - 1) % m].copy()); v.true("after many calls", bool(np.abs(y - w).max() <= 1e-8 * np.abs(w).max())); v.true("earlier results are kept", np.array_equal(q, q0))
BOUNDS["extra_blocks"] = "blocks of up to 300 columns, up to 250 calls"
