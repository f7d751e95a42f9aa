"""Golub-Welsch quadrature: the Gauss rule of the leading block of the Jacobi matrix."""
FUNCTIONS = ["integrate.quadrature", "tridiag.eigh_tridiag", "tridiag._eigh_tridiag"]
BOUNDS = {"extra_exact": "matrices up to 12x12, every polynomial degree up to 2k-1", "extra_tqli": "the same rule with the QL iteration as solver, up to 9x9"}
ASSUMPTIONS = ["degree at least one; off-diagonal leading entry exactly zero where a value is claimed"]
NATIVE = None

def _rule(v, n, k, d, e):
    """specification: eigendecomposition of the leading k-by-k block"""
    return v.eigh_tri(v.arr((k,), lambda i: v.at(d, i)), v.arr((k - 1,), lambda i: v.at(e, i)))
def _inputs(v, conv):
    n = v.dim("n", 1, 8); d = v.array("d", n); b = v.array("e", n - 1)
    e = b if conv == "short" else v.np.append([0.0], b)
    return n, d, b, e

def ob_rule(v):
    v.eigh_contract(); q = v.mod("integrate").quadrature; n, d, b, e = _inputs(v, v.choice("convention", ["short", "long"]))
    how = v.choice("degree", ["none", "given", "larger"]); k = n if how != "given" else v.dim("k", 1, 9); v.assume(k <= n)
    meth = v.choice("method", [None, "gw", "golub_welsch"]); d0, e0 = v.copy(d), v.copy(e)
    kw = {} if meth is None else {"quad": meth}
    x, w = q(d, e, **kw) if how == "none" else q(d, e, deg=k, **kw) if how == "given" else q(d, e, deg=n + v.dim("more", 0, 3), **kw)
    th, V = _rule(v, n, k, d, b)
    v.eq("number of nodes", x.shape, (k,)); v.eq("nodes", x, th); v.eq("weights", w, v.arr((k,), lambda j: v.at(V, 0, j) * v.at(V, 0, j)))
    v.unchanged("diagonal", d, d0); v.unchanged("off-diagonal", e, e0)
    W = lambda p: v.sum(0, k, lambda j: v.at(w, j) * p(v.at(x, j)))
    v.eq("sum to one", W(lambda t: 1), 1); v.eq("first moment", W(lambda t: t), v.at(d, 0))

def ob_outputs(v):
    v.eigh_contract(); q = v.mod("integrate").quadrature; n, d, b, e = _inputs(v, v.choice("convention", ["short", "long"])); k = v.dim("k", 1, 9); v.assume(k <= n)
    X, W = v.array("X", k), v.array("W", k); which = v.choice("outputs", ["both", "nodes", "weights"])
    kw = {} if which == "weights" else {"nodes": X}
    if which != "nodes": kw["weights"] = W
    x, w = q(d, e, k, **kw); y, u = q(d, e, k)
    v.eq("same nodes", x, y); v.eq("same weights", w, u)
    if which != "weights": v.eq("node output", X, y)
    if which != "nodes": v.eq("weight output", W, u)

def ob_repeat(v):
    """the rule depends on the entries at the time of the call, not on earlier calls with the same arrays"""
    v.eigh_contract(); q = v.mod("integrate").quadrature; n = v.dim("n", 1, 8); d = v.array("d", n); e = v.array("e", n); b2, d2 = v.array("b2", n), v.array("d2", n); e[0] = 0.0; k = v.dim("k", 1, 9); v.assume(k <= n)
    x, w = q(d, e, k); x0, w0 = v.copy(x), v.copy(w); which = v.choice("overwritten", ["diagonal", "off-diagonal", "both"])
    if which != "off-diagonal": d[...] = d2
    if which != "diagonal": e[...] = b2; e[0] = 0.0
    y, u = q(d, e, k); z, t = q(v.copy(d), v.copy(e), k); v.eq("same nodes", y, z); v.eq("same weights", u, t); v.eq("earlier nodes kept", x, x0); v.eq("earlier weights kept", w, w0)

def ob_reject(v):
    v.eigh_contract(); q = v.mod("integrate").quadrature; n = v.dim("n", 1, 6); d = v.array("d", n); b = v.array("b", n)
    v.raises("unknown method", lambda: q(d, v.np.append([0.0], b[1:]), quad=v.choice("method", ["", "GW", "lanczos", None])), ValueError)
    c = v.real("c"); v.assume((c > 0.001) | (c < -0.001))
    v.raises("leading entry", lambda: q(d, v.np.append([c], b[1:])), AssertionError)
    long = v.array("long", n + 1 + v.dim("extra", 0, 2)); v.raises("too long", lambda: q(d, long), AssertionError)
    m = v.dim("m", 3, 6); v.raises("too short", lambda: q(v.array("d3", m), v.array("s", m - 2)), AssertionError)
    X = v.array("X", n + 1); v.raises("output sizes", lambda: q(d, v.np.append([0.0], b[1:]), nodes=X, weights=X), AssertionError)

def extra_exact(v):
    np = v.np; n = v.dim("n", 1, 12); k = v.rnd.randint(1, n + 2); d = v.rng.normal(size=n) * v.rnd.choice([1, 5]); b = v.rng.normal(size=n - 1) * v.rnd.choice([1, 1, 0.01])
    if v.rnd.random() < .3 and n > 2: b[v.rnd.randrange(n - 1)] = 0.0
    if v.rnd.random() < .2: d[:] = 1.0
    e = b if v.rnd.random() < .5 else np.append([0.0], b)
    x, w = v.mod("integrate").quadrature(d, e, k); m = min(k, n); J = np.diag(d) + np.diag(b, 1) + np.diag(b, -1)
    v.eq("count", len(x), m); v.true("nonnegative", bool(np.all(w >= 0))); v.eq("sum", w.sum(), 1.0)
    s = max(1.0, np.linalg.norm(J, 2)); e1 = np.eye(n)[0]
    p = e1.copy()
    for t in range(2 * m):
        v.eq(f"moment {t}", (w * (x / s) ** t).sum(), p[0]); p = (J / s) @ p
    v.eq("nodes", np.sort(x), np.linalg.eigvalsh(J[:m, :m])); v.eq("function", (w * np.exp(x / s)).sum(), _fun(np, J[:m, :m] / s))
def _fun(np, T):
    l, U = np.linalg.eigh(T); return (U[0] ** 2 * np.exp(l)).sum()

def extra_tqli(v):
    np = v.np; n = v.dim("n", 1, 9); d = v.rng.normal(size=n); e = np.append([0.0], v.rng.normal(size=n - 1)); q = v.mod("integrate").quadrature
    x, w = q(d, e, method="tqli"); y, u = q(d, e); o, p = np.argsort(x), np.argsort(y)
    v.eq("nodes", x[o], y[p]); v.eq("weights", w[o], u[p])

def extra_edges(v):
    """leading entries that are not zero, unknown methods, tiny and huge matrices, weights in full precision"""
    np = v.np; q = v.mod("integrate").quadrature; n = v.dim("n", 1, 9); d = v.rng.normal(size=n); b = v.rng.normal(size=n - 1); z = v.rnd.choice([1e-6, -1e-6, 1e-4, -1e-3, 0.5])
    v.raises(f"leading entry {z}", lambda: q(d, np.r_[z, b]), AssertionError)
    w = v.rnd.choice(v.strangers("integrate", ["gw", "golub_welsch", "fttr"])); v.raises(f"method {w!r}", lambda: q(d, b, quad=w), ValueError)
    s = 10.0 ** v.rnd.choice([-12, -6, 6, 12]); x, t = q(d, b); y, u = q(s * d, s * b); v.eq("scaled nodes", y / s, x, tol=1e-9); v.eq("scaled weights", u, t, tol=1e-9)
    J = np.diag(d) + np.diag(b, 1) + np.diag(b, -1); l, V = np.linalg.eigh(J); v.eq("nodes", np.sort(x), l, tol=1e-11); v.eq("moments", [(t * x ** k).sum() for k in range(4)], [np.linalg.matrix_power(J, k)[0, 0] for k in range(4)], tol=1e-11)
BOUNDS["extra_edges"] = "matrices up to 9x9 at five scales"

def extra_chebyshev(v):
    """the rule of the second-kind Chebyshev polynomials is known in closed form"""
    np = v.np; n = v.big("n", 1, 200); c, s = v.rnd.choice([0.0, 3.0, -1.0]), 2.0 ** v.rnd.choice([-45, 0, 0, 20]); k = np.arange(n, 0, -1) * np.pi / (n + 1); x0, w0 = c + np.cos(k), 2 / (n + 1) * np.sin(k) ** 2; d, b = np.full(n, s * c), np.full(n - 1, s / 2); e = b if v.rnd.random() < .5 else np.append([0.0], b)
    q = v.mod("integrate").quadrature; r = q(d, e); (x, w), old = r, [t.copy() for t in r]; p = np.argsort(x); v.eq("nodes", x[p] / s, x0); v.eq("weights", w[p], w0)
    h = v.rnd.randint(1, n); j = np.arange(h, 0, -1) * np.pi / (h + 1); y, u = q(d, e, h); p = np.argsort(y); v.eq("nodes of a smaller rule", y[p] / s, c + np.cos(j)); v.eq("its weights", u[p], 2 / (h + 1) * np.sin(j) ** 2)
    q(-2 * d + s, e); v.true("earlier rules are kept", np.array_equal(x, old[0]) and np.array_equal(w, old[1]))
BOUNDS["extra_chebyshev"] = "up to 200 nodes"
