"""Confidence criterion: margin of error with the right quantile, at least three samples."""
FUNCTIONS = ["estimators.ConfidenceCriterion.__init__", "estimators.ConfidenceCriterion._error", "estimators.ConfidenceCriterion.__call__", "estimators.MeanEstimator.update", "stats.Covariance.update", "stats.Covariance.__call__"]
BOUNDS = {}

def _setup(v, n):
    conf = v.real("confidence", lo=0.01, hi=0.99); atol, rtol = v.real("atol", lo=0, hi=3), v.real("rtol", lo=0, hi=1)
    form = v.choice("tolerances", ["both", "no atol", "no rtol", "default"])
    C = v.mod("estimators").ConfidenceCriterion
    if form == "both": c = C(conf, atol, rtol)
    elif form == "no atol": c = C(confidence=conf, atol=None, rtol=rtol); atol = 0
    elif form == "no rtol": c = C(confidence=conf, atol=atol, rtol=None); rtol = 0
    else: c = C(); conf, atol, rtol = 0.95, 0.0, 0.01
    return c, conf, atol, rtol

def _verdict(v, f, n, conf, atol, rtol):
    mu = v.sum(0, n, f) / n
    var = v.sum(0, n, lambda i: (f(i) - mu) * (f(i) - mu)) / (n - 1)
    se = v.sqrt(var) / v.sqrt(n)
    score = v.ite(n < 30, v.fn("t.ppf", (conf + 1) / 2, n - 1), v.sqrt(2) * v.fn("erfinv", conf))
    if not v.sym: v.tie((score * se, atol), (se, rtol * v.abs(mu)))
    return (score * se <= atol) | (v.abs(se / mu) <= rtol)

def ob_few(v):
    n = v.dim("n", 1, 2); v.assume(n < 3)
    c, conf, atol, rtol = _setup(v, n); E = v.mod("estimators").MeanEstimator(covariance=True)
    v.eq("no samples", c(E), False)
    E.update(v.array("X", n)); v.eq("verdict", c(E), False)

def ob_verdict(v):
    n = v.dim("n", 3, 40); X = v.array("X", n); c, conf, atol, rtol = _setup(v, n)
    E = v.mod("estimators").MeanEstimator(covariance=True); E.update(X); s, t = v.freeze(E), v.freeze(c)
    v.eq("verdict", c(E), _verdict(v, lambda i: v.at(X, i), n, conf, atol, rtol))
    v.state_is("estimator unchanged", E, s); v.state_is("criterion unchanged", c, t)

def ob_verdict_batches(v):
    """the same after two batches"""
    N, n = v.dim("N", 1, 30), v.dim("n", 2, 15); X, Y = v.array("X", N), v.array("Y", n); c, conf, atol, rtol = _setup(v, n)
    E = v.mod("estimators").MeanEstimator(covariance=True); E.update(X); E.update(Y)
    Z = v.np.concatenate([X, Y])
    v.eq("verdict", c(E), _verdict(v, lambda i: v.at(Z, i), N + n, conf, atol, rtol))

def ob_reject(v):
    C = v.mod("estimators").ConfidenceCriterion
    p = v.real("p"); v.assume((p <= 0) | (p >= 1))
    v.raises("confidence", lambda: C(p), AssertionError)
    class Other:
        n_samples = 5; estimate = 1.0; delta = 0.0; values = None
        def __len__(s): return 5
    v.raises("estimator", lambda: C()(Other()), AssertionError)

def extra_thresholds(v):
    """thresholds placed next to the exact margin of error and relative error (bounded)"""
    import math, scipy.stats
    np = v.np; n = v.rnd.choice([3, 4, 5, 10, 27, 28, 29, 30, 31, 32, 60]); X = v.rng.normal(size=n) + v.rnd.choice([0, 1, 5]); conf = v.rnd.choice([.5, .8, .9, .95, .99])
    m = v.mod("estimators"); E = m.MeanEstimator(covariance=True)
    k = 0
    while k < n:
        b = v.rnd.choice([1, 2, 7, n]); E.update(X[k:k + b]); k += b
    se = X.std(ddof=1) / math.sqrt(n); q = scipy.stats.t.ppf((1 + conf) / 2, n - 1) if n < 30 else scipy.stats.norm.ppf((1 + conf) / 2)
    for f in (1 - 1e-6, 1 + 1e-6):
        v.eq(f"margin n={n}", bool(m.ConfidenceCriterion(conf, atol=q * se * f, rtol=0.0)(E)), f > 1)
        v.eq(f"relative n={n}", bool(m.ConfidenceCriterion(conf, atol=0.0, rtol=abs(se / X.mean()) * f)(E)), f > 1)
        v.eq(f"relative, atol None n={n}", bool(m.ConfidenceCriterion(conf, atol=None, rtol=abs(se / X.mean()) * f)(E)), f > 1)
        v.eq(f"margin, rtol None n={n}", bool(m.ConfidenceCriterion(conf, atol=q * se * f, rtol=None)(E)), f > 1)

def extra_exact(v):
    """zero spread, zero mean, and thresholds that are met exactly"""
    np = v.np; m = v.mod("estimators"); C = m.ConfidenceCriterion; n = v.rnd.choice([3, 4, 8, 29, 30, 31]); c = v.rnd.choice([1.0, -2.0, 4.0])
    E = m.MeanEstimator(covariance=True); E.update(np.full(n, c))
    for kw in ({"atol": 0.0, "rtol": 0.0}, {"atol": None, "rtol": None}, {}): v.eq("no spread", bool(C(**kw)(E)), True)
    Z = m.MeanEstimator(covariance=True); x = np.tile([1.0, -1.0], 20)[:2 * (n // 2)]; x = np.r_[x, 0.0] if len(x) < 3 else x; Z.update(x)
    v.eq("zero mean, wide margin", bool(C(0.9, atol=1e6, rtol=0.5)(Z)), True); v.eq("zero mean, narrow margin", bool(C(0.9, atol=1e-6, rtol=0.5)(Z)), False)
    class Other:
        n_samples = 9; estimate = 1.0; delta = 0.0; values = None; _cov = E._cov
        def __len__(s): return 9
    v.raises("not a mean estimator", lambda: C()(Other()), AssertionError)
    for p in (0, 1, 0.0, 1.0, -0.5, 1.5, 2, 95): v.raises("confidence", lambda: C(p), AssertionError)

def extra_sizes(v):
    """long runs at any scale, means far larger than the spread: the spread is not lost"""
    import math, scipy.stats
    np = v.np; m = v.mod("estimators"); n = v.big("n", 3, 2500); s = 2.0 ** v.rnd.choice([-60, -45, 0, 45]); c = v.rnd.choice([0, 1, 1e4]); conf = v.rnd.choice([.5, .9, .95, .999]); X = v.rng.normal(size=n) + c; E = m.MeanEstimator(covariance=True); b = v.rnd.choice([7, v.big("batch", 1, n), n]); k = 0; v.trace.update(scale=s, shift=c)
    while k < n: E.update(s * X[k:k + b]); k += b
    se = X.std(ddof=1) / math.sqrt(n); q = scipy.stats.t.ppf((1 + conf) / 2, n - 1) if n < 30 else scipy.stats.norm.ppf((1 + conf) / 2)
    for f in (1 - 1e-4, 1 + 1e-4):
        v.eq(f"margin n={n}", bool(m.ConfidenceCriterion(conf, atol=q * se * s * f, rtol=v.rnd.choice([0.0, None]))(E)), f > 1)
        v.eq(f"relative n={n}", bool(m.ConfidenceCriterion(conf, atol=v.rnd.choice([0.0, None]), rtol=abs(se / X.mean()) * f)(E)), f > 1)
    Z = m.MeanEstimator(covariance=True); Z.update(2.0 ** 45 + np.tile([1.0, -1.0], 4))
    for kw in ({"atol": 0.0, "rtol": 0.0}, {"atol": None, "rtol": None}, {"atol": 0.0, "rtol": None}): v.eq("no tolerance at all", bool(m.ConfidenceCriterion(conf, **kw)(Z)), False)
BOUNDS["extra_sizes"] = "up to 2500 samples, scales 2^-60 to 2^45, means up to 1e4 times the spread"
