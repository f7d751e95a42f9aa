"""Values of isotropic samples, for every state of the generator and every shape."""
FUNCTIONS = ["random.isotropic", "random._rademacher_inplace", "random._normal_inplace", "random._sphere_inplace"]
BOUNDS = {"extra_values": "arrays up to 40x12, three distributions, both orders", "extra_single": "single-precision arrays up to 40x12"}
ASSUMPTIONS = ["Generator.random draws lie in [0, 1)", "a normal column is not identically zero (sphere: division by its norm)"]
NAMES = {"rademacher": "rademacher", "signs": "rademacher", "normal": "normal", "gaussian": "normal", "sphere": "sphere"}

def _raw(v, pdf, shape, s, order="F"):
    """the raw draws of the distribution for this seed, filled in the memory order of the array"""
    g = v.np.random.default_rng(s); W = v.np.empty(shape=shape, order=order)
    if NAMES[pdf] == "rademacher": g.random(out=W)
    else: g.standard_normal(out=W)
    return W
def _nonzero(v, Z, n, j):
    q = v.sum(0, n, lambda i: v.at(Z, i, j) * v.at(Z, i, j)); v.assume(q > 0)
    return q
def _check(v, W, Z, pdf, n, m):
    i, j = v.dim("i", 0, 7), v.dim("j", 0, 7); v.assume((i < n) & (j < m)); w, z = v.at(W, i, j), v.at(Z, i, j)
    if NAMES[pdf] == "rademacher":
        v.unit_interval(Z)
        v.eq("sign of the draw", w, v.ite(z >= 0.5, 1, -1)); v.true("exactly one of the signs", (w == 1) | (w == -1))
    elif NAMES[pdf] == "normal": v.eq("raw stream", w, z)
    else:
        q = _nonzero(v, Z, n, j)
        v.eq("squared length", v.sum(0, n, lambda r: v.at(W, r, j) * v.at(W, r, j)), n); v.eq("direction", w * v.sqrt(q), v.sqrt(n) * z)

def ob_matrix(v):
    f = v.mod("random").isotropic; pdf = v.choice("pdf", list(NAMES)); n, m = v.dim("n", 1, 7), v.dim("m", 1, 6); s = v.seed()
    W = f((n, m), pdf=pdf, seed=s); v.eq("shape", W.shape, (n, m)); _check(v, W, _raw(v, pdf, (n, m), s), pdf, n, m)

def ob_column(v):
    """an integer size is a single column; a one-tuple is a vector; the default distribution is Rademacher"""
    f = v.mod("random").isotropic; pdf = v.choice("pdf", list(NAMES)); n = v.dim("n", 1, 9); s = v.seed(); W = f(n, pdf=pdf, seed=s); V = f((n, 1), pdf=pdf, seed=s)
    v.eq("shape", W.shape, (n, 1)); v.eq("same column", W, V); u = f((n,), pdf=pdf, seed=s); v.eq("vector shape", u.shape, (n,))
    v.eq("vector values", u, v.arr((n,), lambda i: v.at(W, i, 0))); v.eq("default distribution", f(n, seed=s), f(n, pdf="rademacher", seed=s))

def ob_alias(v):
    f = v.mod("random").isotropic; a, b = v.choice("alias", [("signs", "rademacher"), ("gaussian", "normal")]); n, m = v.dim("n", 1, 7), v.dim("m", 1, 6); s = v.seed()
    v.eq("alias", f((n, m), pdf=a, seed=s), f((n, m), pdf=b, seed=s))

def ob_out(v):
    """filling an array: same values in place, nothing returned"""
    f = v.mod("random").isotropic; pdf = v.choice("pdf", list(NAMES)); n, m = v.dim("n", 1, 7), v.dim("m", 1, 6); s = v.seed(); order = v.choice("order", ["F", "C"])
    W = v.array("W", n, m, order=order); v.eq("returns nothing", f((n, m), pdf=pdf, seed=s, out=W), None); _check(v, W, _raw(v, pdf, (n, m), s, order), pdf, n, m)
    if order == "F": v.eq("same as drawing", W, f((n, m), pdf=pdf, seed=s))

def ob_reject(v):
    f = v.mod("random").isotropic; v.raises("unknown distribution", lambda: f((3, 2), pdf=v.choice("pdf", ["", "Normal", "uniform", "spheres", "sign"])), AssertionError)
    v.raises("not an array", lambda: f((2, 2), out=[[0.0, 0.0], [0.0, 0.0]]), AssertionError)

def extra_single(v):
    """a single-precision array is filled in single precision"""
    np = v.np; f = v.mod("random").isotropic; n, m = v.rnd.randint(1, 40), v.rnd.randint(1, 12); pdf = v.rnd.choice(list(NAMES)); s = v.seed(); W = np.zeros((n, m), dtype=np.float32, order=v.rnd.choice("FC")); v.eq("returns nothing", f((n, m), pdf=pdf, seed=s, out=W), None)
    g = np.random.default_rng(s); Z = np.zeros_like(W); (g.random if NAMES[pdf] == "rademacher" else g.standard_normal)(out=Z, dtype=np.float32); v.true("stays single precision", W.dtype == np.float32)
    if NAMES[pdf] == "rademacher": v.true("signs", bool(np.all(W == np.where(Z >= .5, 1.0, -1.0))))
    elif NAMES[pdf] == "normal": v.true("raw", np.array_equal(W, Z))
    else: v.eq("norms", (W.astype(float) ** 2).sum(0), np.full(m, float(n)), tol=1e-4)
def extra_values(v):
    np = v.np; f = v.mod("random").isotropic; n, m = v.rnd.randint(1, 40), v.rnd.randint(0, 12); pdf = v.rnd.choice(list(NAMES)); s = v.seed(); W = f((n, m), pdf=pdf, seed=s)
    v.true("float64, column major", W.dtype == np.float64 and W.shape == (n, m) and W.flags.f_contiguous); Z = _raw(v, pdf, (n, m), s)
    if NAMES[pdf] == "rademacher": v.true("signs", bool(np.all(W == np.where(Z >= .5, 1.0, -1.0))))
    elif NAMES[pdf] == "normal": v.true("raw", np.array_equal(W, Z))
    else: v.eq("norms", (W ** 2).sum(0), np.full(m, float(n)))
    g = np.random.default_rng(s); v.true("generator accepted", np.array_equal(f((n, m), pdf=pdf, seed=g), W)); N = v.rnd.choice([np.int64, np.int32, np.uint8])(n); v.true("numpy integer size", f(N, pdf=pdf, seed=s).shape == (n, 1))
    w = v.rnd.choice(v.strangers("random", list(NAMES))); v.raises(f"distribution {w!r}", lambda: f((3, 2), pdf=w), AssertionError)

def extra_boundary(v):
    """draws at the ends of the unit interval and next to one half"""
    np = v.np; f = v.mod("random").isotropic; vals = np.array([0.0, 2.0 ** -53, 0.5 - 2.0 ** -53, 0.5, 0.5 + 2.0 ** -53, 1 - 2.0 ** -53]); n, m = v.rnd.randint(1, 9), v.rnd.randint(1, 5); Z = np.asfortranarray(v.rng.choice(vals, size=(n, m))); used = []
    class G(np.random.Generator):
        def random(self, size=None, dtype=np.float64, out=None):
            if out is None or out.shape != Z.shape or dtype not in (np.float64, "float64", "d", float): raise v.skip("draws in another way")
            used.append(1); out[...] = Z; return out
    W = f((n, m), pdf=v.rnd.choice(["rademacher", "signs"]), seed=G(np.random.PCG64(1)))
    if len(used) != 1: raise v.skip("draws in another way")
    v.true(f"signs of {Z.tolist()}: {W.tolist()}", bool(np.all(W == np.where(Z >= .5, 1.0, -1.0))))
BOUNDS["extra_boundary"] = "six boundary values in arrays up to 9x5"
def extra_sizes(v):
    np = v.np; f = v.mod("random").isotropic; n = v.big("n", 1, 3000); m = v.big("m", 1, max(2, 60000 // n)); pdf = v.rnd.choice(list(NAMES)); s = v.seed(); W = f((n, m), pdf=pdf, seed=s); v.true(f"shape {W.shape}", W.shape == (n, m) and W.dtype == np.float64); W0 = W.copy(); Z = _raw(v, pdf, (n, m), s)
    if NAMES[pdf] == "rademacher": v.true("signs", bool(np.all(W == np.where(Z >= .5, 1.0, -1.0))))
    elif NAMES[pdf] == "normal": v.true("raw", np.array_equal(W, Z))
    else: v.eq("norms", (W ** 2).sum(0), np.full(m, float(n)), tol=1e-9); v.true("directions", bool(np.abs(W * np.linalg.norm(Z, axis=0) - np.sqrt(n) * Z).max() < 1e-8 * n))
    V = f((n, m), pdf=pdf, seed=s + 1); V[...] = 7.0; f((n, m), pdf=pdf, seed=s + 2); v.true("earlier samples are kept", np.array_equal(W, W0)); v.true("filled in place", f((n, m), pdf=pdf, seed=s, out=V) is None and np.array_equal(V, W0))
BOUNDS["extra_sizes"] = "arrays of up to 60000 entries"
