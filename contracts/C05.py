"""Count and tolerance criteria stop exactly at their thresholds."""
FUNCTIONS = ["estimators.CountCriterion.__init__", "estimators.CountCriterion.__call__", "estimators.ToleranceCriterion.__init__", "estimators.ToleranceCriterion.__call__", "estimators.MeanEstimator.update", "estimators.MeanEstimator.__init__"]
BOUNDS = {"extra_orders": "vectors of up to 6 entries, the listed norm orders"}

class Est:
    """any estimator: only what the protocol promises"""
    def __init__(s, n, estimate, delta): s.n_samples = n; s.estimate = estimate; s.delta = delta; s.values = None
    def __len__(s): return s.n_samples

def ob_count(v):
    n, c = v.dim("n", 0, 8), v.dim("count", 0, 8)
    e = Est(n, v.real("mu"), v.array("delta", 1)); C = v.mod("estimators").CountCriterion(c); s, t = v.freeze(e), v.freeze(C)
    v.eq("verdict", C(e), n >= c); v.state_is("estimator unchanged", e, s); v.state_is("criterion unchanged", C, t)

def ob_count_mean(v):
    """on the real mean estimator"""
    n, c = v.dim("n", 1, 8), v.dim("count", 0, 12); E = v.mod("estimators").MeanEstimator(); C = v.mod("estimators").CountCriterion(c)
    v.eq("initially", C(E), c <= 0)
    E.update(v.array("X", n)); v.eq("verdict", C(E), n >= c)

def _crit(v):
    form = v.choice("arguments", ["all", "no order", "default"])
    T = v.mod("estimators").ToleranceCriterion
    rtol, atol = v.real("rtol", lo=0, hi=2), v.real("atol", lo=0, hi=2)
    if form == "all":
        o = v.choice("ord", [2.0, 2, 1, float("inf"), None]); return T(rtol, atol, o), rtol, atol, o
    if form == "no order": return T(rtol=rtol, atol=atol), rtol, atol, 2.0
    return T(), 0.01, 1.49e-08, 2.0

def _norm(v, x, n, o):
    if o in (None, 2): return v.sqrt(v.sum(0, n, lambda i: v.at(x, i) * v.at(x, i)))
    if o == 1: return v.sum(0, n, lambda i: v.abs(v.at(x, i)))
    return v.linalg.norm(x, ord=o)

def ob_tolerance_vector(v):
    k = v.dim("k"); mu, d = v.array("mu", k), v.array("delta", k)
    C, rtol, atol, o = _crit(v); e = Est(v.dim("n", 0, 8), mu, d); s, t = v.freeze(e), v.freeze(C)
    err, nrm = _norm(v, d, k, o), _norm(v, mu, k, o)
    v.tie((err, atol), (err, rtol * nrm)); v.eq("verdict", C(e), (err < atol) | (err < rtol * nrm)); v.state_is("estimator unchanged", e, s); v.state_is("criterion unchanged", C, t)

def ob_tolerance_scalar(v):
    mu, d = v.real("mu"), v.real("delta")
    C, rtol, atol, o = _crit(v); e = Est(v.dim("n", 0, 8), mu, d if v.choice("delta", ["float", "array"]) == "float" else v.arr((1,), lambda i: d))
    if o == float("inf") and v.sym: return
    v.eq("verdict", C(e), (v.abs(d) < atol) | (v.abs(d) < rtol * v.abs(mu)))

def ob_nothing(v):
    """no estimate, or nothing sampled yet"""
    C, rtol, atol, o = _crit(v)
    v.eq("no estimate", C(Est(v.dim("n", 0, 8), None, v.array("delta", v.dim("k")))), False)
    E = v.mod("estimators").MeanEstimator(dim=v.choice("dim", [1, 3]))
    v.eq("nothing sampled", C(E), False)

def ob_tolerance_mean(v):
    """on the real mean estimator: the last change of the mean decides"""
    rtol, atol = v.real("rtol", lo=0, hi=1), v.real("atol", lo=0, hi=1)
    E = v.mod("estimators").MeanEstimator(covariance=v.choice("cov", [False, True])); C = v.mod("estimators").ToleranceCriterion(rtol=rtol, atol=atol)
    N, n = v.dim("N"), v.dim("n"); X, Y = v.array("X", N), v.array("Y", n); E.update(X); E.update(Y)
    m0 = v.sum(0, N, lambda i: v.at(X, i)) / N; m1 = (v.sum(0, N, lambda i: v.at(X, i)) + v.sum(0, n, lambda i: v.at(Y, i))) / (N + n)
    v.tie((v.abs(m1 - m0), atol), (v.abs(m1 - m0), rtol * v.abs(m1)))
    v.eq("verdict", C(E), (v.abs(m1 - m0) < atol) | (v.abs(m1 - m0) < rtol * v.abs(m1)))

def extra_orders(v):
    np = v.np; k = v.dim("k", 1, 6); mu, d = v.array("mu", k), v.array("delta", k) * v.rnd.choice([1, .01, .1])
    o = v.rnd.choice([0, 1, 2, 3, .5, -1, np.inf, -np.inf]); rtol, atol = v.rnd.random(), v.rnd.random()
    e = Est(3, mu, d); err, nrm = np.linalg.norm(d, ord=o), np.linalg.norm(mu, ord=o)
    v.eq("verdict", v.mod("estimators").ToleranceCriterion(rtol, atol, o)(e), bool(err < atol or err < rtol * nrm))
    m = v.mod("estimators"); E = m.MeanEstimator(dim=k)
    v.eq("infinite tolerances, no samples", m.ToleranceCriterion(rtol=v.rnd.choice([0.01, 1e9]), atol=v.rnd.choice([1e-8, 1e300]))(E), False)
    # tolerances of zero are tolerances of zero
    z = v.rnd.choice([0.0, 1e-9, 1e-30]); t = m.ToleranceCriterion
    v.eq("no tolerance", t(rtol=0.0, atol=0.0, ord=v.rnd.choice([2.0, 1, np.inf]))(Est(3, mu, np.full(k, z))), False); v.eq("no tolerance, scalar", t(rtol=0.0, atol=0)(Est(3, 1.5, z)), False)
    for dl, verdict in ((1e-13, True), (1e-11, False)): v.eq("relative, tiny", t(rtol=0.5, atol=0.0)(Est(3, np.full(k, 1e-12), np.full(k, dl))), verdict); v.eq("absolute, zero estimate", t(rtol=0.5, atol=1e-12 * np.sqrt(k))(Est(3, np.zeros(k), np.full(k, dl))), verdict)
    # matrix-valued estimates: matrix norms
    o = v.rnd.choice(["fro", "nuc", 2, 1, np.inf, None]); M, D = v.rng.normal(size=(3, k)), v.rng.normal(size=(3, k)) * v.rnd.choice([.1, 1]); err, nrm = np.linalg.norm(D, ord=o), np.linalg.norm(M, ord=o)
    for rt, at, w in ((0.0, err * 1.0001, True), (0.0, err * .9999, False), (err / nrm * 1.0001, 0.0, True), (err / nrm * .9999, 0.0, False)): v.eq("matrix norm", t(rt, at, o)(Est(3, M, D)), w)
BOUNDS["extra_orders"] = "vectors of up to 6 entries and matrices of three rows, the listed norm orders"

def extra_counts(v):
    """counts of any size, and counts that are not integers"""
    np = v.np; m = v.mod("estimators"); n = v.big("n", 1, 3000); E = m.MeanEstimator(); E.update(v.rng.normal(size=n))
    for c in (n - 1, n, n + 1, n - .5, n + .5, 2 * n, np.inf, 0, -3, np.int64(n), float(n)): v.eq(f"{n} samples, count {c}", bool(m.CountCriterion(c)(E)), bool(n >= c)); v.eq("keyword", bool(m.CountCriterion(count=c)(E)), bool(n >= c))
BOUNDS["extra_counts"] = "up to 3000 samples"
