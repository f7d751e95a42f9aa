"""Tridiagonal eigensolver front ends: dispatch, fallback, conventions, frame."""
FUNCTIONS = ["tridiag.eigh_tridiag", "tridiag.eigvalsh_tridiag", "tridiag._eigh_tridiag"]
BOUNDS = {"extra_solvers": "matrices up to 14x14, all methods, real solvers"}
ASSUMPTIONS = ["contract of tqli (what property C14 states): overwrites d with the eigenvalues and a Z that starts as the identity with the eigenvectors",
               "contract of the scipy solvers: eigendecomposition of the tridiagonal matrix, or LinAlgError"]

def _solvers(v, fail, log):
    """assumed contracts of both solvers; `fail`: the library solver raises"""
    v.eigh_contract((lambda: log.append("lib") or fail))
    if not v.sym: return
    def tqli(d, e, Z, max_iter=30):
        log.append("tqli"); n = d.shape[0]; v.true("tqli: sweeps allowed", max_iter >= 30)
        if not bool(v.len(e) == n): raise AssertionError("lengths")
        v.eq("tqli: leading off-diagonal", v.at(e, 0), 0)
        th, V = v.eigh_tri(v.arr((n,), lambda i: v.at(d, i)), v.arr((n - 1,), lambda i: v.at(e, i + 1)))
        if Z.ndim == 2 and not (isinstance(Z.shape[0], int) and Z.shape[0] == 0):
            v.eq("tqli: starts at the identity", Z, v.arr((n, n), lambda i, j: v.ite(i == j, 1, 0))); Z[:] = V
        d[:] = th; e[:] = v.arr((n,), lambda i: v.uf("destroyed", i))
    import types
    m = types.SimpleNamespace(tqli=tqli); v.override("tqli", m)

def _case(v):
    n = v.dim("n", 1, 8); conv = v.choice("convention", ["short", "long"]); d = v.array("d", n); b = v.array("b", n - 1)
    return n, d, b, (b if conv == "short" else v.np.append([0.0], b))

def _run(v, name):
    fail = v.choice("library solver", [False, True]); meth = v.choice("method", [None, "auto", "mrrr", "tqli"]); log = []
    _solvers(v, fail, log); f = getattr(v.mod("tridiag"), name); n, d, b, e = _case(v); d0, e0 = v.copy(d), v.copy(e); E = v.mod("tridiag").np.linalg.LinAlgError
    call = lambda: f(d, e) if meth is None else f(d, e, method=meth)
    if meth == "mrrr" and fail:
        v.raises("failure reported", call, E); v.unchanged("diagonal", d, d0); v.unchanged("off-diagonal", e, e0); return None
    r = call(); v.unchanged("diagonal", d, d0); v.unchanged("off-diagonal", e, e0)
    ql = meth == "tqli" or fail and meth != "mrrr"
    if v.sym: v.true("solver used", ("tqli" in log) == ql)
    if meth == "tqli": v.true("library solver not called", "lib" not in log)
    return n, d, b, r, ql

def ob_full(v):
    """values and orthonormal vectors, whichever solver answers"""
    q = _run(v, "eigh_tridiag")
    if q is None: return
    n, d, b, (w, V), ql = q; th, U = v.eigh_tri(v.copy(d), v.copy(b))
    if v.sym: v.eq("values", w, th); v.eq("vectors", V, U); return
    np = v.np; T = np.diag(d) + np.diag(b, 1) + np.diag(b, -1)
    v.eq("values", np.sort(w), th); v.eq("orthonormal", V.T @ V, np.eye(n)); v.eq("eigenvectors", T @ V, V * w)

def ob_values(v):
    q = _run(v, "eigvalsh_tridiag")
    if q is None: return
    n, d, b, w, ql = q; th, U = v.eigh_tri(v.copy(d), v.copy(b))
    v.eq("values", w if v.sym else v.np.sort(w), th)

def ob_reject(v):
    v.eigh_contract(); T = v.mod("tridiag"); f = getattr(T, v.choice("function", ["eigh_tridiag", "eigvalsh_tridiag"])); n = v.dim("n", 3, 8); d = v.array("d", n)
    v.raises("unknown method", lambda: f(d, v.array("e", n - 1), method=v.choice("method", ["", "AUTO", "qr", "golub_welsch"])), AssertionError)
    m = v.dim("m", 0, 12); v.assume(((m < n - 1) | (m > n)))
    v.raises("lengths", lambda: f(d, v.array("e", m)), AssertionError)

def extra_solvers(v):
    np = v.np; T = v.mod("tridiag"); n = v.dim("n", 1, 14)
    d, b = v.rng.normal(size=n), v.rng.normal(size=n - 1); s = v.rnd.randrange(6)
    if s == 0: d[:] = v.rnd.choice([0.0, 2.0])
    if s == 1: d, b = np.round(2 * d), np.round(2 * b)
    if s == 2 and n > 2: b[v.rnd.randrange(n - 1)] = 0
    if s == 3: b[:] = 0
    if s == 4: d *= 1e4; b *= 1e-3
    e = b if v.rnd.random() < .5 else np.append([0.0], b); meth = v.rnd.choice(["auto", "mrrr", "tqli"]); d0, e0 = d.copy(), e.copy()
    J = np.diag(d) + np.diag(b, 1) + np.diag(b, -1); ref = np.linalg.eigvalsh(J)
    w, V = T.eigh_tridiag(d, e, method=meth); u = T.eigvalsh_tridiag(d, e, method=meth)
    v.eq("values", np.sort(w), ref); v.eq("values only", np.sort(u), ref); v.eq("orthonormal", V.T @ V, np.eye(n)); v.eq("decomposition", V @ np.diag(w) @ V.T, J)
    v.unchanged("diagonal", d, d0); v.unchanged("off-diagonal", e, e0)

def extra_chebyshev(v):
    """a family with known eigenvalues and eigenvectors, of any size and scale"""
    np = v.np; n = v.big("n", 1, 120); c, s = v.rnd.choice([0.0, 3.0, -1.0]), 2.0 ** v.rnd.choice([-45, 0, 0, 20]); k = np.arange(n, 0, -1) * np.pi / (n + 1); x0, w0 = c + np.cos(k), 2 / (n + 1) * np.sin(k) ** 2; d, b = np.full(n, s * c), np.full(n - 1, s / 2); e = b if v.rnd.random() < .5 else np.append([0.0], b)
    T = v.mod("tridiag"); meth = v.rnd.choice(["auto", "mrrr", "tqli"]); l, V = T.eigh_tridiag(d, e, method=meth); old = l.copy(), V.copy(); u = T.eigvalsh_tridiag(d, e, method=meth); p = np.argsort(l); v.eq("values", l[p] / s, x0); v.eq("values only", np.sort(u) / s, x0); v.eq("leading entries", V[0, p] ** 2, w0); v.eq("orthonormal", V.T @ V, np.eye(n))
    T.eigh_tridiag(1 - d, e, method=meth); T.eigvalsh_tridiag(1 - d, e, method=meth); v.true("earlier results are kept", np.array_equal(l, old[0]) and np.array_equal(V, old[1]))
BOUNDS["extra_chebyshev"] = "up to 120x120, scales 2^-45 to 2^20"

def ob_again(v):
    """the decomposition is that of the values the arrays hold at the call"""
    log = []; _solvers(v, v.choice("library solver", [False, True]), log); T = v.mod("tridiag"); n, d, b, e = _case(v); p = v.array("p", n); p0 = v.copy(p); b0 = v.copy(b); f = v.choice("function", ["eigh_tridiag", "eigvalsh_tridiag"])
    getattr(T, f)(d, e); d[...] = p; r = getattr(T, f)(d, e); th, U = v.eigh_tri(p0, b0); w = r if f == "eigvalsh_tridiag" else r[0]
    v.eq("values", w if v.sym else v.np.sort(w), th)
