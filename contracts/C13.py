"""Three-term-recurrence weights equal the Golub-Welsch weights."""
WIDE = False     # the recurrence is unstable for larger matrices: sizes as sampled only
FUNCTIONS = ["fttr.ortho_poly", "fttr.fttr", "integrate.quadrature", "tridiag.eigvalsh_tridiag", "tridiag._eigh_tridiag"]
BOUNDS = {}
ASSUMPTIONS = ["all off-diagonals are nonzero"]

def ob_ortho(v):
    """contract of ortho_poly: z[0] = mu, the three-term recurrence, nothing outside the first n entries"""
    f = v.mod("fttr").ortho_poly; n = v.dim("n", 1, 9); N = n + v.dim("extra", 0, 2)
    a, b, z = v.array("a", N), v.array("b", N, pos=True), v.array("z", N); x, mu = v.real("x"), v.real("mu", pos=True); a0, b0, z0 = v.copy(a), v.copy(b), v.copy(z)
    v.eq("returns nothing", f(x, mu, a, b, z, n), None)
    A, B, Z = (lambda i: v.at(a, i)), (lambda i: v.at(b, i)), (lambda i: v.at(z, i))
    v.eq("first", Z(0), mu); v.unchanged("a", a, a0); v.unchanged("b", b, b0)
    m = v.dim("m", 0, 12)
    if m >= n and m < N: v.eq("outside", Z(m), v.at(z0, m))
    if n >= 2: v.eq("second", Z(1), (x - A(0)) * Z(0) / B(1))
    if m >= 2 and m < n: v.eq("recurrence", v.unfold(Z(m)), ((x - A(m - 1)) * Z(m - 1) - B(m - 1) * Z(m - 2)) / B(m))

def ob_lemma(v):
    """z_m V[0,j] = mu V[m,j] by induction on m: V solves the same recurrence, started at V[0,j]"""
    n = v.dim("n", 2, 8); d, b = v.array("d", n), v.array("b", n - 1, pos=True); th, V = v.eigh_tri(d, b)
    if v.sym: v.eigh_pointwise(th, V, d, b)
    j, m, mu, V0 = v.dim("j", 0, 7), v.dim("m", 0, 7), v.real("mu"), None; v.assume((j < n) & (m + 1 < n)); x = v.at(th, j)
    A, B, Y = (lambda i: v.at(d, i)), (lambda i: v.at(b, i - 1)), (lambda i: v.at(V, i, j))
    if m == 0: v.eq("base", (x - A(0)) * mu * Y(0) / B(1), mu * Y(1)); return
    step = lambda p, q: ((x - A(m)) * p - B(m) * q) / B(m + 1)
    p, q = v.real("z_m"), v.real("z_m-1")
    v.eq("linear", step(p, q) * Y(0), step(p * Y(0), q * Y(0))); v.eq("step", step(mu * Y(m), mu * Y(m - 1)), mu * Y(m + 1))

def _ghost(v, n):
    """ortho_poly by its contract: z[m] for node j is Z(j, m), with Z(j, 0) = mu; used with the lemma"""
    calls = []
    if not v.sym: return calls
    def ortho_poly(x, mu, a, b, z, k):
        calls.append((x, mu, a, b, k))
        if x.op != "app": raise NotImplementedError("node expression")
        z[:k] = v.arr((k,), lambda m: v.uf("Z", *x.args[1], m))
    v.mod("fttr").ortho_poly = ortho_poly
    return calls

def ob_quadrature(v):
    """the recurrence rule equals the Golub-Welsch rule of the same degree"""
    v.eigh_contract(); q = v.mod("integrate").quadrature; n = v.dim("n", 1, 8); d = v.array("d", n); b = v.array("b", n - 1, pos=True); conv = v.choice("convention", ["short", "long"])
    e = b if conv == "short" else v.np.append([0.0], b); d0, e0 = v.copy(d), v.copy(e)
    k = n if v.choice("degree", ["none", "given"]) == "none" else v.dim("k", 1, 9); v.assume(k <= n)
    calls = _ghost(v, n); x, w = q(d, e, deg=k, quad="fttr") if k is not n else q(d, e, quad="fttr")
    th, V = v.eigh_tri(v.arr((k,), lambda i: v.at(d, i)), v.arr((k - 1,), lambda i: v.at(b, i)))
    for c in calls:
        v.eq("recurrence length", c[4], k); v.eq("recurrence diagonal", v.arr((k,), lambda i: v.at(c[2], i)), v.arr((k,), lambda i: v.at(d, i)))
        v.eq("recurrence off-diagonal", v.arr((k - 1,), lambda i: v.at(c[3], i + 1)), v.arr((k - 1,), lambda i: v.at(b, i)))
    if calls: v.poly_lemma("Z", V, calls[0][1])
    v.eq("nodes", x, th); v.eq("weights", w, v.arr((k,), lambda j: v.at(V, 0, j) * v.at(V, 0, j)))
    v.unchanged("diagonal", d, d0); v.unchanged("off-diagonal", e, e0)

def ob_frame(v):
    """one weight per node, nothing outside; inputs unchanged"""
    f = v.mod("fttr").fttr; n = v.dim("n", 1, 8); k = v.dim("k", 1, 8); v.assume(k <= n)
    th, a, b = v.array("theta", n, pos=True), v.array("a", n), v.array("b", n, pos=True); N = n + v.dim("extra", 0, 2); w = v.array("w", N)
    c = [v.copy(t) for t in (th, a, b, w)]; _ghost(v, n); f(th, a, b, k, w)
    for l, t, o in zip(("theta", "alpha", "beta"), (th, a, b), c): v.unchanged(l, t, o)
    m = v.dim("m", 0, 12)
    if m >= k and m < N: v.eq("outside", v.at(w, m), v.at(c[3], m))
    if m < k and not v.sym: v.true("positive", v.at(w, m) > 0)  # ob_quadrature proves w = V[0,j]^2; strictness stays bounded

def extra_rule(v):
    np = v.np; q = v.mod("integrate").quadrature; n = v.dim("n", 1, 11); d = v.rng.normal(size=n) * v.rnd.choice([0, 1, 1, 5]) + v.rnd.choice([0, 3]); b = np.abs(v.rng.normal(size=n - 1)) + .3; b *= v.rng.choice([-1, 1], size=n - 1)
    k = v.rnd.randint(1, n + 1); e = b if v.rnd.random() < .5 else np.append([0.0], b)
    x, w = q(d, e, k, quad="fttr"); y, u = q(d, e, k); v.eq("nodes", x, y, tol=1e-6); v.eq("weights", w, u, tol=1e-5); v.true("positive", bool(np.all(w > 0)))
BOUNDS["extra_rule"] = "matrices up to 11x11 with off-diagonals of either sign, bounded away from zero"

def extra_chebyshev(v):
    """the rule of the second-kind Chebyshev polynomials is known in closed form (its recurrence is stable)"""
    np = v.np; n = v.big("n", 1, 140); c, s = v.rnd.choice([0.0, 3.0, -1.0]), 2.0 ** v.rnd.choice([-45, 0, 0, 20]); k = np.arange(n, 0, -1) * np.pi / (n + 1); x0, w0 = c + np.cos(k), 2 / (n + 1) * np.sin(k) ** 2; d, b = np.full(n, s * c), np.full(n - 1, s / 2); e = b if v.rnd.random() < .5 else np.append([0.0], b)
    q = v.mod("integrate").quadrature; x, w = q(d, e, quad="fttr"); old = x.copy(), w.copy(); p = np.argsort(x); v.eq("nodes", x[p] / s, x0); v.eq("weights", w[p], w0, tol=1e-6)
    q(-2 * d + s, e, quad="fttr"); v.true("earlier rules are kept", np.array_equal(x, old[0]) and np.array_equal(w, old[1]))
BOUNDS["extra_chebyshev"] = "up to 140 nodes"

def extra_again(v):
    """the rule is that of the values the arrays hold at the call"""
    np = v.np; q, F = v.mod("integrate").quadrature, v.mod("fttr").fttr; n = v.rnd.randint(1, 8); d, e = v.rng.normal(size=n), np.append([0.0], v.rng.uniform(.4, 1, size=n - 1)); q(d, e, quad="fttr"); d[:] = v.rng.normal(size=n); e[1:] = v.rng.uniform(.4, 1, size=n - 1)
    x, w = q(d, e, quad="fttr"); th, V = np.linalg.eigh(np.diag(d) + np.diag(e[1:], 1) + np.diag(e[1:], -1)); p = np.argsort(x); v.eq("nodes", x[p], th, tol=1e-6); v.eq("weights", w[p], V[0] ** 2, tol=1e-5)
    t, z = np.zeros(n), np.zeros(n); t[:] = v.rng.normal(size=n); F(t, d, e, n, z); t[:] = th; F(t, d, e, n, z); v.eq("weights of the nodes given", z, V[0] ** 2, tol=1e-5)
BOUNDS["extra_again"] = "matrices up to 8x8"
