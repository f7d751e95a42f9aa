"""Confidence intervals have the textbook end points."""
FUNCTIONS = ["stats.confidence_interval"]
BOUNDS = {}

def _spec(v, f, n, conf, q):
    mu = v.sum(0, n, f) / n
    s = v.sqrt(v.sum(0, n, lambda i: (f(i) - mu) * (f(i) - mu)) / (n - 1))
    return mu - q * s / v.sqrt(n), mu + q * s / v.sqrt(n)

def ob_t(v):
    n = v.dim("n", 2, 40); a = v.array("a", n, dtype=v.choice("dtype", [float, int])); conf = v.real("confidence", lo=0, hi=0.999)
    kw = v.choice("call", ["keyword", "positional", "default"]); f = v.mod("stats").confidence_interval; a0 = v.copy(a)
    if kw == "default": conf = 0.95; lo, hi = f(a)
    elif kw == "keyword": lo, hi = f(a, confidence=conf, sdist="t")
    else: lo, hi = f(a, conf, "t")
    L, H = _spec(v, lambda i: v.at(a, i), n, conf, v.fn("t.ppf", (1 + conf) / 2, n - 1))
    v.eq("lower", lo, L); v.eq("upper", hi, H); v.unchanged("sample", a, a0)

def ob_normal(v):
    n = v.dim("n", 2, 40); a = v.array("a", n, dtype=v.choice("dtype", [float, int])); conf = v.real("confidence", lo=0, hi=0.999); a0 = v.copy(a)
    lo, hi = v.mod("stats").confidence_interval(a, conf, sdist="normal")
    L, H = _spec(v, lambda i: v.at(a, i), n, conf, v.sqrt(2) * v.fn("erfinv", conf))
    v.eq("lower", lo, L); v.eq("upper", hi, H); v.unchanged("sample", a, a0)
    v.eq("centred", (lo + hi) / 2, v.sum(0, n, lambda i: v.at(a, i)) / n)

def ob_reject(v):
    a = v.array("a", v.dim("n", 2, 9)); c = v.real("confidence"); v.assume((c < 0) | (c > 1)); f = v.mod("stats").confidence_interval
    v.raises("confidence", lambda: f(a, c), AssertionError)
    v.raises("distribution", lambda: f(a, 0.9, v.choice("name", ["", "T", "gauss", "uniform"])), ValueError)

def extra_sorted(v):
    import scipy.stats
    np = v.np; n = v.dim("n", 2, 60); a = v.rng.normal(size=n) * v.rnd.choice([1, 100]) + v.rnd.choice([0, 10]); c = v.rnd.choice([0.0, .1, .5, .9, .95, .999]); sd = v.rnd.choice(["t", "normal"])
    lo, hi = v.mod("stats").confidence_interval(a, c, sd); v.le("ordered", lo, hi)
    q = scipy.stats.t.ppf((1 + c) / 2, n - 1) if sd == "t" else scipy.stats.norm.ppf((1 + c) / 2)
    h = q * np.sqrt(((a - a.mean()) ** 2).sum() / (n - 1)) / np.sqrt(n)
    v.eq("ends", np.array([lo, hi]), np.array([a.mean() - h, a.mean() + h]))
    w = v.rnd.choice(v.strangers("stats", ["t", "normal"])); v.raises(f"distribution {w!r}", lambda: v.mod("stats").confidence_interval(a, c, w), ValueError)
    for bad in (-0.1, 1.1, -1e-9, 1 + 1e-9, 95): v.raises("confidence", lambda: v.mod("stats").confidence_interval(a, bad, sd), AssertionError)
    lo, hi = v.mod("stats").confidence_interval(np.full(n, 3.0), c, sd); v.eq("no spread", np.array([lo, hi]), np.array([3.0, 3.0])); lo, hi = v.mod("stats").confidence_interval(a, 1, sd); v.true("certainty", lo == -np.inf and hi == np.inf)

def extra_scale(v):
    """long samples, any scale, means a million times the spread"""
    import scipy.stats
    np = v.np; n = v.big("n", 2, 3000); e = v.rnd.choice([-200, -45, 0, 45]); c = v.rnd.choice([0, 0, 1e6]); a = v.rng.normal(size=n); k = v.rnd.choice([.5, .9, .99]); sd = v.rnd.choice(["t", "normal"]); v.trace.update(exponent=e, shift=c); lo, hi = v.mod("stats").confidence_interval((a + c) * 2.0 ** e, k, sd); q = scipy.stats.t.ppf((1 + k) / 2, n - 1) if sd == "t" else scipy.stats.norm.ppf((1 + k) / 2); h = q * a.std(ddof=1) / np.sqrt(n)
    v.eq("ends", np.array([lo * 2.0 ** -e - c, hi * 2.0 ** -e - c]), np.array([a.mean() - h, a.mean() + h]), tol=1e-5)
BOUNDS["extra_scale"] = "up to 3000 samples, scales 2^-200 to 2^45"

def ob_again(v):
    """the interval is that of the values the sample holds at the call"""
    n = v.dim("n", 2, 40); a, b = v.array("a", n), v.array("b", n); conf = v.real("confidence", lo=0, hi=0.999); f = v.mod("stats").confidence_interval; sd = v.choice("distribution", ["t", "normal"]); b0 = v.copy(b)
    f(a, conf, sd); a[...] = b; lo, hi = f(a, conf, sd); L, H = _spec(v, lambda i: v.at(b0, i), n, conf, v.fn("t.ppf", (1 + conf) / 2, n - 1) if sd == "t" else v.sqrt(2) * v.fn("erfinv", conf)); v.eq("lower", lo, L); v.eq("upper", hi, H)
