"""Implicit QL: every loop carries an invariant; a sweep in progress is the tridiagonal matrix with one bulge.  In real arithmetic."""
FUNCTIONS = ["tqli.tqli", "tqli.sign"]
BOUNDS = {"extra_decomposition": "matrices up to 12x12, random, integer, repeated, zero and graded entries", "extra_scales": "matrices up to 60x60, scales 1e-18 to 1e18, default budget", "extra_small": "integer matrices up to 3x3 with entries in -2..2, sampled"}
ASSUMPTIONS = ["exact real arithmetic (a subdiagonal entry is negligible exactly when it is zero; r never underflows)",
               "the decomposition is claimed when the budget is not exhausted; termination is by the budget (variant of the inner loop)"]
NATIVE = "fast"; SYM_SECONDS = 220

def _tri(v, Z, D, E, n):
    """(r, j) -> entry of Z M for the tridiagonal M with diagonal D and off-diagonals E(j) between j and j + 1"""
    return lambda r, j: Z(r, j) * D(j) + v.ite(j >= 1, Z(r, j - 1) * E(j - 1), 0.0) + v.ite(j + 2 <= n, Z(r, j + 1) * E(j), 0.0)

def ob_vectors(v): _iteration(v, "vectors", False)
def ob_values(v): _iteration(v, "values", False)
def ob_vectors_exhausted(v): _iteration(v, "vectors", True)
def ob_values_exhausted(v): _iteration(v, "values", True)
def _iteration(v, mode, ex):
    """ex: the budget of an earlier row was exhausted (all that remains true then is the orthonormality of the vectors)"""
    tqli = v.mod("tqli").tqli; np = v.np; n = v.dim("n", 1, 7); mx = v.dim("max_iter", 0, 40)
    d0 = v.array("d", n); e0 = v.arr((n,), lambda i: v.ite(i == 0, 0.0, v.at(_pad(v, n), i))); D0, E0 = v.copy(d0), v.copy(e0)
    Z0 = np.eye(n) if mode == "vectors" else np.zeros((0, 0))
    if not v.sym:
        tqli(d0, e0, Z0, 300); T = np.diag(D0) + np.diag(E0[1:], 1) + np.diag(E0[1:], -1); v.eq("eigenvalues", np.sort(d0), np.linalg.eigvalsh(T))
        if mode == "vectors": v.eq("orthonormal", Z0.T @ Z0, np.eye(n)); v.eq("eigenvectors", T @ Z0, Z0 * d0)
        return
    st = {"level": 0}; names = {}; u = v.uf
    T0 = lambda r, j: v.ite(r == j, v.at(D0, r), 0.0) + v.ite(r == j + 1, v.at(E0, r), 0.0) + v.ite(j == r + 1, v.at(E0, j), 0.0)
    zero = lambda it: lambda j, f: v.ite(j < it, 0.0, v.ite(j == n - 1, 0.0, f))
    def Zprog(loc): return loc["Z"] if mode == "vectors" else st["Z"]
    def similar(Zc, M, lab, explicit=False):
        """Z'Z = I and A Z = Z M"""
        z = lambda r, j: v.at(Zc, r, j)
        v.eq(lab + "orthonormal", v.arr((n, n), lambda a, b: v.sum(0, n, lambda i: z(i, a) * z(i, b))), v.arr((n, n), lambda a, b: v.ite(a == b, 1.0, 0.0)))
        if M is None: return
        A = T0 if explicit else (lambda r, k: u("A", r, k))
        v.eq(lab + "similar", v.arr((n, n), lambda r, j: v.sum(0, n, lambda k: A(r, k) * z(k, j))), v.arr((n, n), M(z)))
    def fresh_Z(tag, M):
        """an arbitrary orthogonal matrix with A Z = Z M"""
        nm = "Z" + tag; v.matrix(nm, n, n); v.orthonormal(nm, n, n); z = lambda r, j: u(nm, r, j)
        if M is not None: v.lemma("", "sim:" + nm, [("A", ("r", "k")), (nm, ("k", "j"))], {"k": n}, lambda b: M(z)(b["r"], b["j"]))
        v.novalue("A", "d" + tag, "e" + tag); return z
    def setZ(loc, z):
        if mode == "vectors": v.store(loc["Z"], z)
        else: st["Z"] = v.arr((n, n), z)
    def tri(d, e): return lambda z: _tri(v, z, lambda j: v.at(d, j), lambda j: v.at(e, j), n)
    # ---- rows of the spectrum found so far
    def state(loc, it, lab, first=False):
        d, e = loc["d"], loc["e"]
        if first and mode == "values": st["Z"] = np.eye(n)
        ok = not st.get("exhausted"); similar(Zprog(loc), tri(d, e) if ok else None, lab, explicit=first)
        if ok: v.eq(lab + "decoupled", v.arr((n,), lambda j: v.ite(j < it, v.at(e, j), v.ite(j == n - 1, v.at(e, j), 0.0))), np.zeros(n))
    def arbitrary(loc, tag, it):
        ok = not st.get("exhausted"); D = lambda j: u("d" + tag, j); Ef = (lambda j: zero(it)(j, u("e" + tag, j))) if ok else (lambda j: u("e" + tag, j))
        z = fresh_Z(tag, (lambda z: _tri(v, z, D, Ef, n)) if ok else None); v.store(loc["d"], D); v.store(loc["e"], Ef); setZ(loc, z); st.update(D=D, E=Ef)
    def c0(loc, k):
        if "it" in st and st.get("inL0") and not st.get("exhausted") and bool(loc["m"] != st["it"]):
            v.true("only the budget leaves a subdiagonal entry", loc["ii"] > mx); st["exhausted"] = True
        state(loc, k, "between: ", first=not st.get("inL0"))
    def h0(loc, k): st["inL0"] = True; st["exhausted"] = ex; st["it"] = k; arbitrary(loc, "0", k); return {}
    # ---- one eigenvalue
    def c1(loc, k):
        it = st["it"]; state(loc, it, "sweep: "); m = loc["m"]
        if "ii" in st: v.true("variant: the sweeps of an eigenvalue are counted", loc["ii"] >= st["ii"] + 1); v.true("variant: no sweep once the budget is used up", st["ii"] <= mx)
        v.true("range", v.ite(it <= m, v.ite(m <= n - 1, 1.0, 0.0), 0.0) == 1.0); v.true("last", v.ite(it == n - 1, v.ite(m == it, 1.0, 0.0), 1.0) == 1.0)
    def h1(loc, k):
        it = st["it"]; arbitrary(loc, "1", it); m = v.dim("m", 0, 6); v.assume(it <= m); v.assume(m <= n - 1)
        if bool(it == n - 1): m = it
        st["ii"] = v.dim("ii", 0, 40); return {"ii": st["ii"], "m": m}
    # ---- first negligible entry
    def c2(loc, k):
        it, E = st["it"], st["E"]
        if st.get("scan") is not None: v.true("passed entries are nonzero", E(it + k - 1) != 0); v.true("scan position", loc["m"] == it + k)
    def h2(loc, k):
        it, E = st["it"], st["E"]; st["scan"] = k; st["nonzero"] = it + k
        if bool(k == 0): st["scan"] = k; return {"m": loc["m"]}
        v.assume(E(it) != 0); return {"m": it + k}
    # ---- one sweep: k rotations done, next index i = m - 1 - k
    def bulge(m, k, d, e, s, c, p, g):
        i = m - 1 - k; D = lambda j: d(j) - v.ite(j == i + 1, p, 0.0)
        E = lambda j: v.ite(j == m, 0.0, v.ite(j == i, c * e(j), v.ite(j == i + 1, g, e(j)))); B = v.ite(k >= 1, s * e(i), 0.0) if not bool(k == 0) else None
        return lambda z: (lambda r, j: _tri(v, z, D, E, n)(r, j) + (v.ite(i >= 0, v.ite(j == i + 2, z(r, i) * B, 0.0) + v.ite(j == i, z(r, i + 2) * B, 0.0), 0.0) if B is not None else 0.0))
    def c3(loc, k):
        it, m, d, e = st["it"], loc["m"], loc["d"], loc["e"]; i = m - 1 - k; s, c, p, g = (loc[x] for x in "scpg")
        if st.get("sweep") is None:
            v.true("scan result", v.ite(st["nonzero"] >= m, 1.0, 0.0) == 1.0); v.eq("negligible", v.ite(m == n - 1, 0.0, v.at(e, m)), 0.0); v.true("block", it < m)
        ok = not st.get("exhausted")
        M = bulge(m, k, lambda j: v.at(d, j), lambda j: v.at(e, j), s, c, p, g)
        similar(rotated(loc) if st.get("sweep") is not None and mode == "values" else Zprog(loc), M if ok else None, "rotation: "); v.true("rotation never degenerates", s != 0)
        v.eq("untouched entries", v.arr((n,), lambda j: v.ite(j <= i, v.at(e, j) - st["E"](j), v.ite(j > m, v.at(e, j) - st["E"](j), 0.0))), np.zeros(n))
        if st.get("sweep") is not None: step(loc, k)
    def step(loc, k):
        """the new state is a function of the old one that does not mention the vectors"""
        o = st["old"]; i = o["i"]; f, b = o["s"] * o["e"](i), o["c"] * o["e"](i); r = v.sqrt(f * f + o["g"] * o["g"]); s, c = f / r, o["g"] / r; D = o["d"](i + 1) - o["p"]; r2 = (o["d"](i) - D) * s + 2.0 * c * b
        v.eq("step: s", loc["s"], s); v.eq("step: c", loc["c"], c); v.eq("step: p", loc["p"], s * r2); v.eq("step: g", loc["g"], c * r2 - b)
        v.eq("step: d", loc["d"], v.arr((n,), lambda j: v.ite(j == i + 1, D + s * r2, o["d"](j)))); v.eq("step: e", loc["e"], v.arr((n,), lambda j: v.ite(j == i + 1, r, o["e"](j))))
    def rotated(loc):
        o = st["old"]; i = o["i"]; z = o["z"]; s, c = loc["s"], loc["c"]
        return v.arr((n, n), lambda r, j: v.ite(j == i + 1, s * z(r, i) + c * z(r, i + 1), v.ite(j == i, c * z(r, i) - s * z(r, i + 1), z(r, j))))
    def h3(loc, k):
        it, m = st["it"], loc["m"]; i = m - 1 - k; st["sweep"] = k; E1 = st["E"]; v.novalue("s", "c", "p", "g")
        s, c, p, g = (1.0, 1.0, 0.0, loc["g"]) if bool(k == 0) else (v.real("s"), v.real("c"), v.real("p"), v.real("g")); v.assume(s != 0) if not bool(k == 0) else None
        d = lambda j: u("d3", j); e = lambda j: v.ite(j <= i, E1(j), v.ite(j > m, E1(j), u("e3", j))); ok = not st.get("exhausted")
        z = fresh_Z("3", bulge(m, k, d, e, s, c, p, g) if ok else None); v.store(loc["d"], d); v.store(loc["e"], e); setZ(loc, z)
        if bool(i >= it): v.assume(E1(i) != 0)
        st["old"] = dict(i=i, d=d, e=e, s=s, c=c, p=p, g=g, z=z)
        return {"s": s, "c": c, "p": p, "g": g}
    def c4(loc, k): v.eq("rows rotated", loc["Z"], mixed(loc, k))
    def mixed(loc, k):
        rot = rotated(loc); z = st["old"]["z"]; return v.arr((n, n), lambda r, j: v.ite(r < k, v.at(rot, r, j), z(r, j)))
    def h4(loc, k): f = mixed(loc, k); v.store(loc["Z"], lambda r, j: v.at(f, r, j)); return {}
    for q, (c, h) in enumerate([(c0, h0), (c1, h1), (c2, h2), (c3, h3), (c4, h4)]): v.invariant(f"tqli.tqli:{q}", c, h)
    tqli(d0, e0, Z0, mx)
    if st.get("exhausted"): return
    Zf = Z0 if mode == "vectors" else st["Z"]
    similar(Zf, lambda z: (lambda r, j: z(r, j) * v.at(d0, j)), "finished: ")

def _pad(v, n):
    if v.sym: return v.array("e", n)
    return v.np.r_[0.0, v.array("e", n - 1)] if n > 1 else v.np.zeros(1)

def ob_reject(v):
    f = v.mod("tqli").tqli; n = v.dim("n", 1, 5); np = v.np
    v.raises("lengths", lambda: f(v.array("d", n), v.array("e", n + 1), np.zeros((0, 0))), AssertionError)

def ob_shift(v):
    """the shift never divides by zero: |g + sign(r, g)| >= 1 for r = hypot(g, 1)"""
    m = v.mod("tqli"); g = v.real("g"); r = v.sqrt(g * g + 1.0); x = m.sign(r, g)
    v.eq("squared", x * x, g * g + 1.0); v.true("same sign", (x > 0) if bool(g >= 0) else (x < 0))

def _check(v, d, e, scale):
    np = v.np; f = v.mod("tqli").tqli; n = len(d); T = np.diag(d) + np.diag(e[1:], 1) + np.diag(e[1:], -1); a, b, Z = d.copy(), e.copy(), np.eye(n, order=v.rnd.choice("CF")); tol = 1e-6 * max(scale, 1)
    with np.errstate(divide="raise", invalid="raise"): f(a, b, Z, 200)
    v.eq("eigenvalues", np.sort(a), np.linalg.eigvalsh(T), tol=tol); v.eq("orthonormal", Z.T @ Z, np.eye(n), tol=1e-6); v.eq("eigenvectors", T @ Z, Z * a, tol=tol)
    a2, b2 = d.copy(), e.copy(); f(a2, b2, np.zeros((0, 0)), 200); v.eq("values only", a2, a, tol=tol)
def extra_decomposition(v):
    np = v.np; n = v.rnd.randint(1, 12); k = v.rnd.choice(["random", "integer", "repeated", "zero", "graded", "constant"])
    d, e = {"random": lambda: (v.rng.normal(size=n), v.rng.normal(size=n)), "integer": lambda: (v.rng.integers(-3, 4, size=n) * 1.0, v.rng.integers(-2, 3, size=n) * 1.0), "repeated": lambda: (np.repeat(v.rng.normal(), n), v.rng.choice([0.0, 1.0], size=n)),
            "zero": lambda: (np.zeros(n), v.rng.choice([0.0, 1.0, -1.0], size=n)), "graded": lambda: (10.0 ** -v.rng.uniform(0, 6, size=n), 10.0 ** -v.rng.uniform(0, 6, size=n)), "constant": lambda: (np.full(n, 2.0), np.full(n, -1.0))}[k]()
    e[0] = 0.0; _check(v, d, e, float(np.abs(d).max() + np.abs(e).max()))
def extra_scales(v):
    """tiny and huge matrices, decoupled blocks of very different size, and matrices larger than the budget: every eigenvalue converges within the default budget"""
    np = v.np; f = v.mod("tqli").tqli; k = v.rnd.choice(["scaled", "blocks", "large"]); n = v.rnd.randint(34, 60) if k == "large" else v.rnd.randint(2, 7)
    d, e = v.rng.normal(size=n), v.rng.normal(size=n); e[0] = 0.0; s = 10.0 ** v.rnd.choice([-14, -9, 9, 14]) if k == "scaled" else 1.0
    T = lambda d, e: np.diag(d) + np.diag(e[1:], 1) + np.diag(e[1:], -1)
    if k != "blocks":
        a, b, Z = s * d, s * e, np.eye(n); M = T(a, b); f(a, b, Z, 30); v.eq("eigenvalues", np.sort(a) / s, np.linalg.eigvalsh(M / s), tol=1e-9); v.eq("orthonormal", Z.T @ Z, np.eye(n), tol=1e-9); v.eq("eigenvectors", (M @ Z - Z * a) / s, np.zeros((n, n)), tol=1e-9)
        a2, b2 = s * d, s * e; f(a2, b2, np.zeros((0, 0)), 30); v.eq("values only", a2 / s, a / s, tol=1e-9)
        return
    m = v.rnd.randint(1, 4); d2, e2 = v.rng.normal(size=m), v.rng.normal(size=m); e2[0] = 0.0; s = 10.0 ** v.rnd.choice([-18, 18]); a, b, Z = np.r_[s * d2, d], np.r_[s * e2, e], np.eye(n + m); f(a, b, Z, 30)
    own = (Z[:m] ** 2).sum(axis=0) > .5; v.eq("first block", np.sort(a[own]) / s, np.linalg.eigvalsh(T(d2, e2)), tol=1e-9); v.eq("second block", np.sort(a[~own]), np.linalg.eigvalsh(T(d, e)), tol=1e-9)
def extra_small(v):
    n = v.rnd.choice([3, 3, 3, 2, 4]); d = v.rng.integers(-2, 3, size=n) * 1.0; e = v.rng.integers(-2, 3, size=n) * 1.0; e[0] = 0.0; _check(v, d, e, 5.0)
