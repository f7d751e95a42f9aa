"""Function names resolve to their scalar functions, defaults and keyword overrides."""
FUNCTIONS = ["special.param_callable", "special.softsign", "special.smoothstep", "special.step", "special.exp", "special.identity"]
BOUNDS = {}
ASSUMPTIONS = ["np.abs, np.sqrt, np.log, np.reciprocal, np.exp are the named real functions", "machine epsilon of float64 is 2^-52"]
EPS = 2.0 ** -52

def _elem(v, g, lo=None, pos=False):
    n = v.dim("n", 1, 7); x = v.array("x", n, pos=pos); k = v.dim("k", 0, 6); v.assume(k < n); x0 = v.copy(x)
    y = g(x); v.unchanged("input", x, x0); v.eq("shape", y.shape, (n,))
    return v.at(x, k), v.at(y, k)
def _clip(v, t, lo, hi): return v.ite(t < lo, lo, v.ite(t > hi, hi, t))

def ob_plain(v):
    P = v.mod("special").param_callable; name = v.choice("name", [None, "identity", "abs", "sqrt", "log", "inv"])
    x, y = _elem(v, P(name), pos=name in ("sqrt", "inv"))
    if name in (None, "identity"): v.eq("identity", y, x)
    elif name == "abs": v.eq("abs", y, v.abs(x))
    elif name == "sqrt": v.eq("sqrt", y * y, x); v.le("sqrt sign", 0, y)
    elif name == "inv": v.eq("inv", y * x, 1)
    else: v.eq("log", y, v.fn("log", v.ite(x < EPS, EPS, x)))

def ob_inv_negative(v):
    c = v.real("c", pos=True); g = v.mod("special").param_callable("inv"); v.eq("inv", g(-c) * c, -1)

def ob_exp(v):
    kw = {"t": v.real("t")} if v.choice("given", [False, True]) else {}
    x, y = _elem(v, v.mod("special").param_callable("exp", **kw)); v.eq("exp", y, v.fn("exp", kw.get("t", 1.0) * x))

def ob_smoothstep(v):
    kw = {}; a, b = 0, 1
    g = v.choice("given", ["none", "a", "b", "both"])
    if g == "a": a = kw["a"] = v.real("a", hi=0.9)
    if g == "b": b = kw["b"] = v.real("b", lo=0.1)
    if g == "both": a = kw["a"] = v.real("a"); b = kw["b"] = a + v.real("w", pos=True)
    x, y = _elem(v, v.mod("special").param_callable("smoothstep", **kw)); t = _clip(v, (x - a) / (b - a), 0, 1); v.eq("smoothstep", y, 3 * t * t - 2 * t * t * t)

def ob_softsign(v):
    """ten terms by default: the same function as the built soft sign (whose value property C16 fixes)"""
    P, S = v.mod("special").param_callable, v.mod("special"); kw = {}; q = 10
    if v.choice("given", [False, True]): q = kw["q"] = v.dim("q", 0, 12)
    n = v.dim("n", 1, 7); x = v.array("x", n); x0 = v.copy(x); y = P("softsign", **kw)(x); v.unchanged("input", x, x0)
    v.eq("softsign", y, S.softsign(x, q=q))

def ob_numrank(v):
    kw = {"threshold": v.real("threshold")} if v.choice("given", [False, True]) else {}
    x, y = _elem(v, v.mod("special").param_callable("numrank", **kw)); c = kw.get("threshold", 1e-6)
    v.eq("numrank", y, v.ite(v.abs(x) < c, 0, 1)); g = v.mod("special").param_callable("numrank", **kw)
    if not kw or bool(c > 0): v.eq("at the threshold", g(-c), 1); v.eq("zero", g(0.0), 0)

def ob_dispatch(v):
    P = v.mod("special").param_callable
    f = v.choice("callable", [abs, len, lambda x: x, type("F", (), {"__call__": lambda s, x: x})()])
    v.same("callable kept", P(f), f); v.same("keywords ignored", P(f, t=1, q=2), f)
    v.raises("unknown name", lambda: P(v.choice("bad", ["", "Exp", "cos", "exp ", "softsign2", "none"])), (AssertionError, ValueError))
    v.raises("not a function", lambda: P(v.choice("object", [3, 1.5, [], ("exp",), {}])), (ValueError, TypeError, AssertionError))

def extra_names(v):
    np = v.np; P, S = v.mod("special").param_callable, v.mod("special"); x = v.rng.normal(size=v.dim("n", 1, 9)) * v.rnd.choice([1, 1e-3, 1e-6, 3]); p = np.abs(x) + 1e-9
    for n in S._BUILTIN_MATRIX_FUNCTIONS:
        v.true("known", callable(P(n)))
    with np.errstate(all="ignore"):
        v.eq("log", P("log")(x), np.log(np.maximum(x, np.finfo(float).eps))); v.eq("sqrt", P("sqrt")(p), np.sqrt(p)); v.eq("inv", P("inv")(p) * p, np.ones_like(p))
    v.eq("numrank", P("numrank")(x), (np.abs(x) >= 1e-6).astype(float)); t = v.rng.normal(); v.eq("exp", P("exp", t=t)(x), np.exp(t * x))
    q = v.rnd.randint(0, 20); v.eq("softsign", P("softsign", q=q)(x), S.softsign(x, q=q)); v.eq("softsign default", P("softsign")(x), S.softsign(x, q=10))
    with np.errstate(all="ignore"):
        z = v.rng.normal(size=4) * 10.0 ** v.rnd.choice([-14, -9, 9, 14]); v.true("inv", bool(np.allclose(P("inv")(z), 1 / z, rtol=1e-13, atol=0))); v.true("sqrt of a negative number", bool(np.all(np.isnan(P("sqrt")(-np.abs(z)))))); v.true("sqrt", bool(np.allclose(P("sqrt")(np.abs(z)) ** 2, np.abs(z), rtol=1e-13, atol=0)))
    for kw, g in (({"a": -2.0, "b": 0.0}, 0.0), ({"a": 0.0, "b": 0.5}, 0.0), ({"b": -1.0, "a": -3.0}, -1.0), ({"a": 0, "b": 2}, 0)): v.eq(f"smoothstep {kw}", P("smoothstep", **kw)(x), S.smoothstep(x, **kw)); v.eq(f"smoothstep {kw}", P("smoothstep", **kw)(np.array([kw["a"], (kw["a"] + kw["b"]) / 2, kw["b"]]) * 1.0), [0.0, 0.5, 1.0])
    for c in (0.0, 0, 1e-12, 0.5, 1): v.eq(f"threshold {c}", P("numrank", threshold=c)(x), (np.abs(x) >= c).astype(float)); v.eq(f"threshold {c}", P("numrank", threshold=c)(np.zeros(2)), np.full(2, float(c <= 0)))
    v.eq("t = 0", P("exp", t=0)(x), np.ones_like(x)); v.eq("q = 0", P("softsign", q=0)(x), np.clip(x, -1, 1))
    w = v.rnd.choice(v.strangers("special", ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"])); v.raises(f"unknown name {w!r}", lambda: P(w), (AssertionError, ValueError))
BOUNDS["extra_names"] = "vectors up to length 9 at several scales, extreme and zero parameters, near-miss names"
