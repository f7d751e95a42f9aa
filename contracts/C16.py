"""Built-in spectral functions: value at every element, for every input array."""
FUNCTIONS = ["special.softsign", "special.smoothstep", "special.step", "special.exp", "special.identity"]
BOUNDS = {"extra_limits": "one thousand grid points"}
ASSUMPTIONS = ["np.exp is the exponential"]

def _both(v, f, x, **kw):
    """value given data == value of the built function at the data; the input is not modified"""
    x0 = v.copy(x); y = f(x, **kw); v.eq("built first", f(**kw)(x), y); v.unchanged("input", x, x0)
    return y
def _clip(v, t, lo, hi): return v.ite(t < lo, lo, v.ite(t > hi, hi, t))

def ob_softsign(v):
    f = v.mod("special").softsign; q = v.dim("q", 0, 6); n = v.dim("n", 1, 7); x = v.array("x", n); y = _both(v, f, x, q=q)
    v.eq("shape", y.shape, (n,)); k = v.dim("k", 0, 6); v.assume(k < n)
    if not v.sym:
        t = _clip(v, v.at(x, k), -1.0, 1.0); s = 0.0; J = 1.0
        for i in range(q + 1): s += t * (1 - t * t) ** i * J; J *= (2 * i + 1) / (2 * i + 2)
        v.eq("series", v.at(y, k), s)
        v.eq("odd", f(-x, q=q), -y); v.true("bounded", bool(v.np.all(v.np.abs(y) <= 1 + 1e-12)))
        return
    t = _clip(v, v.at(x, k), -1, 1); J = lambda i: v.prod(1, i + 1, lambda j: v.ratio(2 * j - 1, 2 * j))
    v.eq("series", v.at(y, k), t + v.sum(0, q, lambda i: t * v.power(1 - t * t, i + 1) * J(i + 1)))
    v.eq("odd", f(-x, q=q), -y)

def ob_softsign_default(v):
    f = v.mod("special").softsign; n = v.dim("n", 1, 7); x = v.array("x", n); y = _both(v, f, x); k = v.dim("k", 0, 6); v.assume(k < n)
    t = _clip(v, v.at(x, k), -1, 1); v.eq("q = 1", v.at(y, k), t + t * (1 - t * t) / 2)
    c = v.real("c"); u = _clip(v, c, -1, 1); z = f(c); v.eq("scalar", z, v.arr((1,), lambda i: u + u * (1 - u * u) / 2))

def ob_smoothstep(v):
    f = v.mod("special").smoothstep; n = v.dim("n", 1, 7); x = v.array("x", n); k = v.dim("k", 0, 6); v.assume(k < n); how = v.choice("interval", ["given", "default", "only b"])
    kw = {} if how == "default" else {"b": v.real("b", pos=True)}; a, b = (0, 1) if how == "default" else (0, kw["b"])
    if how == "given": a = kw["a"] = v.real("a"); kw["b"] = b = a + v.real("width", pos=True)
    y = _both(v, f, x, **kw); s = v.at(x, k); t = (s - a) / (b - a)
    v.eq("shape", y.shape, (n,)); r = v.at(y, k)
    if s <= a: v.eq("below", r, 0)
    elif s >= b: v.eq("above", r, 1)
    else: v.eq("between", r, 3 * t * t - 2 * t * t * t)
    v.raises("even degree", lambda: f(x, deg=v.choice("deg", [0, 2, 4])), AssertionError)

def ob_step(v):
    f = v.mod("special").step; n = v.dim("n", 1, 7); x = v.array("x", n); k = v.dim("k", 0, 6); v.assume(k < n)
    kw = {}
    if v.choice("threshold", ["default", "given"]) == "given": kw["c"] = v.real("c")
    c = kw.get("c", 0.0); m = v.choice("magnitude", [None, False, True])
    if m is not None: kw["nonnegative"] = m
    y = _both(v, f, x, **kw); t = v.at(x, k); t = v.abs(t) if m else t
    v.eq("value", v.at(y, k), v.ite(t < c, 0, 1)); s = v.real("s"); u = v.abs(s) if m else s
    v.eq("scalar", f(s, **kw), v.ite(u < c, 0, 1)); v.eq("at the threshold", f(c if not m else v.abs(c), **kw), 1)

def ob_exp(v):
    S = v.mod("special"); n = v.dim("n", 1, 7); x = v.array("x", n); k = v.dim("k", 0, 6); v.assume(k < n); kw = {}
    if v.choice("t", ["default", "given"]) == "given": kw["t"] = v.real("t")
    y = _both(v, S.exp, x, **kw); v.eq("value", v.at(y, k), v.fn("exp", kw.get("t", 1.0) * v.at(x, k)))
    z = v.real("z"); v.same("identity", S.identity(x), x); v.same("identity", S.identity(z), z)

def extra_limits(v):
    np = v.np; S = v.mod("special"); x = np.linspace(-2, 2, 1001); q = v.rnd.randint(0, 30); y = S.softsign(x, q=q)
    v.true("monotone in q", bool(np.all(np.abs(S.softsign(x, q=q + 1)) >= np.abs(y) - 1e-12))); v.eq("end points", y[[0, -1]], [-1.0, 1.0])
    a = v.rng.normal(); b = a + abs(v.rng.normal()) + .01; z = S.smoothstep(x, a=a, b=b); v.true("range", bool(np.all((z >= 0) & (z <= 1)) and np.all(np.diff(z) >= -1e-12)))
    v.eq("two-dimensional", S.smoothstep(x.reshape(7, 143), a=a, b=b).ravel(), z); v.eq("two-dimensional", S.step(x.reshape(7, 143), c=a).ravel(), S.step(x, c=a))

def extra_precise(v):
    """full precision, narrow intervals, empty and scalar data"""
    np = v.np; S = v.mod("special"); x = np.r_[v.rng.uniform(-1, 1, size=5), 0.0, 1.0, -1.0, 3.0, 1e-9]; q = v.rnd.randint(0, 25); t = np.clip(x, -1, 1); r = np.zeros_like(t); J = 1.0
    for i in range(q + 1): r += t * (1 - t * t) ** i * J; J *= (2 * i + 1) / (2 * i + 2)
    v.eq("series", S.softsign(x, q=q), r, tol=1e-13)
    w = 10.0 ** -v.rnd.randint(0, 9); a = v.rng.normal() * v.rnd.choice([0, 1]); u = np.array([-1.0, 0.0, .25, .5, .875, 1.0, 2.0]); t = np.clip(((a + w * u) - a) / ((a + w) - a), 0, 1); v.eq(f"interval of width {w}", S.smoothstep(a + w * u, a=a, b=a + w), 3 * t ** 2 - 2 * t ** 3, tol=1e-9)
    z = np.zeros(0)
    for f, kw in ((S.exp, {"t": 2.0}), (S.step, {"c": 1.0}), (S.smoothstep, {"a": 0.0, "b": 2.0}), (S.softsign, {"q": 3})): v.eq("no data", f(z, **kw), f(**kw)(z)); v.eq("scalar zero", np.ravel(f(0.0, **kw)), np.ravel(f(**kw)(0.0)))
    y = v.rng.normal(size=6) * 300; c = v.rnd.choice([0.0, -1.0, .5, 2.0]); v.true("exp", bool(np.allclose(S.exp(y, t=c), np.exp(c * y), rtol=1e-13, atol=0)))
    k = np.arange(-3, 4); v.eq("integers", S.step(k, c=1), (k >= 1) * 1.0); v.eq("integers", S.smoothstep(k, a=-1, b=2), S.smoothstep(k * 1.0, a=-1.0, b=2.0)); v.eq("integers", S.softsign(k, q=3), S.softsign(k * 1.0, q=3)); v.eq("integers", S.exp(k, t=2), np.exp(2.0 * k))
BOUNDS["extra_precise"] = "vectors of at most ten entries, interval widths from 1 to 1e-9, up to 26 terms"

def extra_sizes(v):
    """long vectors, many terms, results that later calls do not change"""
    np = v.np; S = v.mod("special"); x = v.rng.uniform(-1.5, 1.5, size=v.big("size", 1, 3000)); q = v.big("q", 1, 250); x0 = x.copy(); t = np.clip(x, -1, 1); r = np.zeros_like(t); J = 1.0; u = np.ones_like(t)
    for i in range(q + 1): r += t * u * J; u *= 1 - t * t; J *= (2 * i + 1) / (2 * i + 2)
    fs = [S.softsign, S.smoothstep, S.step, S.exp, S.identity]; kws = [{"q": q}, {"a": -1.0, "b": .5}, {"c": .25}, {"t": -2.0}, {}]; y = np.clip((x + 1) / 1.5, 0, 1); want = [r, 3 * y ** 2 - 2 * y ** 3, None, np.exp(-2 * x), x]; got = [f(x, **k) for f, k in zip(fs, kws)]; old = [np.array(g) for g in got]
    for f, k, g, w in zip(fs, kws, got, want): v.eq(f.__name__, g, w if w is not None else (x >= .25) * 1.0, tol=1e-9) if w is not None or not np.any(x == .25) else None; v.eq(f.__name__ + " built", f(**k)(x) if f is not S.identity else g, g)
    for f, k in zip(fs, kws): f(-x0, **k)
    v.true("earlier results are kept", all(np.array_equal(g, o) for g, o in zip(got, old))); v.true("data unchanged", np.array_equal(x, x0))
BOUNDS["extra_sizes"] = "vectors of up to 3000 entries, up to 250 terms"

def ob_again(v):
    """built functions give the value of what the data hold at the call"""
    S = v.mod("special"); n = v.dim("n", 1, 7); x, y = v.array("x", n), v.array("y", n); g = {"softsign": lambda: S.softsign(q=v.dim("q", 0, 6)), "smoothstep": lambda: S.smoothstep(b=v.real("b", pos=True)), "step": lambda: S.step(c=v.real("c")), "exp": lambda: S.exp(t=v.real("t"))}[v.choice("function", ["softsign", "smoothstep", "step", "exp"])](); z = v.copy(y); w = g(y)
    g(x); x[...] = z; v.eq("value", g(x), w)
