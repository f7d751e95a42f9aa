"""Knee criterion: the Kneedle rule on the cumulative absolute change of the running mean."""
FUNCTIONS = ["estimators.KneeCriterion.__init__", "estimators.KneeCriterion.__call__"]
BOUNDS = {"extra_curves": "up to 60 recorded samples"}
ASSUMPTIONS = ["the running mean of the recorded samples is not constant (otherwise the normalised curve is 0/0)"]

class Est:
    def __init__(s, values): s.values = values; s.n_samples = 0 if values is None else len(values); s.estimate = 0.0; s.delta = 0.0
    def __len__(s): return s.n_samples

def _nonconstant(v, f, n):
    y = _curve(v, f, n); v.assume(v.np.max(y) - v.np.min(y) > 0); return y
def _curve(v, f, n):
    mean = lambda k: v.sum(0, k + 1, f) / (k + 1)
    return v.arr((n - 1,), lambda k: v.sum(0, k + 1, lambda i: v.abs(mean(i + 1) - mean(i))))
def _rule(v, f, n, S):
    """Kneedle on samples f(0..n-1)"""
    np = v.np; y = _curve(v, f, n)
    lo, hi = np.min(y), np.max(y)
    D = v.arr((n - 1,), lambda k: (v.at(y, k) - lo) / (hi - lo) - k / (n - 2))
    return (np.max(D) - v.at(D, n - 2) > S / (n - 2)) & (S / (n - 2) > 0)

def ob_none(v):
    K = v.mod("estimators").KneeCriterion(v.real("S", pos=True))
    k = v.choice("recorded", [None, 0, 1, 2])
    e = Est(None if k is None else [v.arr((1,), lambda i, j=j: v.real(f"x{j}")) for j in range(k)])
    v.eq("verdict", K(e), False)

def ob_rule(v):
    n = v.dim("n", 4, 12); x = v.array("x", n, kind="normal"); S = v.real("S", pos=True); K = v.mod("estimators").KneeCriterion(S)
    _nonconstant(v, lambda i: v.at(x, i), n)
    E = v.mod("estimators").MeanEstimator(record=True); E.update(x); s, t = v.freeze(E), v.freeze(K)
    v.eq("verdict", K(E) == True, _rule(v, lambda i: v.at(x, i), n, S))
    v.state_is("estimator unchanged", E, s); v.state_is("criterion unchanged", K, t)

def ob_default(v):
    n = v.dim("n", 4, 12); x = v.array("x", n, kind="normal"); m = v.mod("estimators"); _nonconstant(v, lambda i: v.at(x, i), n)
    E = m.MeanEstimator(record=True); E.update(x)
    v.eq("S = 1", m.KneeCriterion()(E) == True, m.KneeCriterion(S=1.0)(E) == True)

def ob_shift_scale(v):
    """shifting or rescaling all samples does not change the verdict"""
    n = v.dim("n", 4, 12); x = v.array("x", n, kind="normal"); a, b = v.real("a"), v.real("b"); v.assume((a > 0.1) | (a < -0.1)); m = v.mod("estimators"); K = m.KneeCriterion(v.real("S", pos=True)); _nonconstant(v, lambda i: v.at(x, i), n)
    E, F = m.MeanEstimator(record=True), m.MeanEstimator(record=True); E.update(x); F.update(a * x + b)
    v.eq("verdict", K(F) == True, K(E) == True)

def extra_curves(v):
    np = v.np; m = v.mod("estimators"); n = v.dim("n", 3, 60); S = v.rnd.choice([.1, .5, 1, 2, 5]); x = v.rng.normal(size=n) + v.rnd.choice([0, 3]); K = m.KneeCriterion(S)
    E = m.MeanEstimator(record=True); k = 0
    while k < n:
        b = v.rnd.choice([1, 3, 10]); E.update(x[k:k + b]); k += b
    mu = np.cumsum(x) / np.arange(1, n + 1); y = np.cumsum(np.abs(np.diff(mu))); D = (y - y.min()) / (y.max() - y.min()) - np.linspace(0, 1, len(y))
    g = D.max() - D[-1] - S / (len(y) - 1)
    if abs(g) < 1e-9: return
    v.eq("verdict", bool(K(E)), bool(g > 0))
    a, b = v.rnd.choice([-3.0, .01, 7.0]), v.rnd.choice([0, -4.0, 2.5])
    F = m.MeanEstimator(record=True); F.update(a * x + b); v.eq("rescaled", bool(K(F)), bool(g > 0))
    s = 2.0 ** v.rnd.choice([-60, -30, 30, 60]); F = m.MeanEstimator(record=True); F.update(s * x); v.eq("rescaled by a power of two", bool(K(F)), bool(K(E)))
    if abs(g) > 1e-4: F = m.MeanEstimator(record=True); F.update(x + v.rnd.choice([1e6, -1e6])); v.eq("large shift", bool(K(F)), bool(g > 0))
def extra_boundary(v):
    """an excess of exactly S over the number of intervals does not suffice (all quantities are dyadic)"""
    np = v.np; m = v.mod("estimators"); c, s = v.rnd.choice([0.0, 1.0, -2.0]), v.rnd.choice([1.0, -1.0, 4.0, 0.25])
    E = m.MeanEstimator(record=True); E.update(c + s * np.array([0.0, 2.0, 3.25, 2.75]))  # running means 0, 1, 1.75, 2: curve 0, 3/4, 1
    for S, w in ((0.5, False), (0.5 - 2.0 ** -20, True), (0.5 + 2.0 ** -20, False)): v.eq(f"S = {S}", bool(m.KneeCriterion(S)(E)), w)
BOUNDS["extra_boundary"] = "one curve, twelve affine images"

def extra_long(v):
    """long runs"""
    np = v.np; m = v.mod("estimators"); n = v.big("n", 4, 20000); S = v.rnd.choice([.1, 1, 5, 50]); x = v.rng.normal(size=n) * np.linspace(1, v.rnd.choice([0, 1, 4]), n) ** 2; E = m.MeanEstimator(record=True); E.update(x[:n // 2]); E.update(x[n // 2:]); mu = np.cumsum(x) / np.arange(1, n + 1); y = np.cumsum(np.abs(np.diff(mu)))
    if not y.max() > y.min(): return
    D = (y - y.min()) / (y.max() - y.min()) - np.linspace(0, 1, len(y)); top = D.max() - D[-1]
    for S in (S, top * (len(y) - 1) * .999, top * (len(y) - 1) * 1.001):
        if S > 0 and abs(top - S / (len(y) - 1)) > 1e-7: v.eq("verdict", bool(m.KneeCriterion(S)(E)), bool(top - S / (len(y) - 1) > 0))
    v.true("estimator unchanged", np.array_equal(np.ravel(E.values), x))
BOUNDS["extra_long"] = "up to 20000 recorded samples"
