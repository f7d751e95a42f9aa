"""Combined criteria are the boolean combination of their parts."""
FUNCTIONS = ["estimators.ConvergenceCriterion.__init__", "estimators.ConvergenceCriterion.__or__", "estimators.ConvergenceCriterion.__and__", "estimators.ConvergenceCriterion.__invert__", "estimators.ConvergenceCriterion.__call__"]
BOUNDS = {"extra_nesting": "random nestings of up to depth 5 over the built-in criteria and custom operations"}

class Est:
    def __init__(s, n, x): s.n_samples = n; s.estimate = x; s.delta = x; s.values = None
    def __len__(s): return s.n_samples

def _parts(v):
    """two arbitrary criteria: a base one with any operation, or a subclass with any verdict"""
    m = v.mod("estimators"); out = []
    for k in "PQ":
        f = lambda est, k=k: v.boolfn(k, est.n_samples, est.estimate)
        if v.choice("kind" + k, ["operation", "subclass"]) == "operation": out.append(m.ConvergenceCriterion(f))
        else:
            class C(m.ConvergenceCriterion):
                def __init__(s, g): s.g = g
                def __call__(s, est): return s.g(est)
            out.append(C(f))
    return m, out[0], out[1]

def ob_combine(v):
    """one combination of two arbitrary criteria; nesting follows, since the combination is itself a criterion"""
    m, P, Q = _parts(v); e = Est(v.dim("n", 0, 9), v.real("x"))
    p, q = v.boolfn("P", e.n_samples, e.estimate), v.boolfn("Q", e.n_samples, e.estimate)
    s, fp, fq = v.freeze(e), v.freeze(P), v.freeze(Q)
    op = v.choice("op", ["or", "and", "not", "or same", "and same"])
    K = {"or": lambda: P | Q, "and": lambda: P & Q, "not": lambda: ~P, "or same": lambda: P | P, "and same": lambda: P & P}[op]()
    want = lambda p, q: (p | q) if op == "or" else (p & q) if op == "and" else (p == False) if op == "not" else p
    v.true("criterion", isinstance(K, m.ConvergenceCriterion))
    v.eq("verdict", K(e), want(p, q))
    # evaluated when asked: the verdict follows the estimator
    e2 = Est(v.dim("n2", 0, 9), v.real("x2")); p2, q2 = v.boolfn("P", e2.n_samples, e2.estimate), v.boolfn("Q", e2.n_samples, e2.estimate)
    v.eq("another state", K(e2), want(p2, q2))
    v.eq("component usable", P(e), p); v.eq("second component usable", Q(e), q)
    v.state_is("estimator unchanged", e, s); v.state_is("P unchanged", P, fp); v.state_is("Q unchanged", Q, fq)
    K2 = ~(K | Q)
    v.eq("nested", K2(e), (want(p, q) | q) == False)
    v.eq("nested again", (K2 & K)(e), ((want(p, q) | q) == False) & want(p, q))
    v.eq("after nesting", K(e), want(p, q))

def ob_lazy(v):
    """nothing is evaluated while combining"""
    m = v.mod("estimators"); calls = []
    def f(est): calls.append(est); return True
    P = m.ConvergenceCriterion(f); Q = m.ConvergenceCriterion(f)
    K = v.choice("op", [lambda: P | Q, lambda: P & Q, lambda: ~P])()
    v.eq("calls while combining", len(calls), 0)
    e = Est(v.dim("n", 0, 9), v.real("x")); K(e)
    v.true("evaluated on that estimator", len(calls) >= 1 and all(c is e for c in calls))

def ob_reject(v):
    m = v.mod("estimators"); bad = v.choice("bad", [None, 3, "count", (1, 2)])
    v.raises("not callable", lambda: m.ConvergenceCriterion(bad), AssertionError)

def extra_nesting(v):
    m = v.mod("estimators"); np = v.np
    E = m.MeanEstimator(covariance=True, record=True)
    leaves = [m.CountCriterion(v.rnd.randint(0, 20)), m.ToleranceCriterion(rtol=.1, atol=.01), m.ConfidenceCriterion(.9, atol=.5, rtol=.1), m.KneeCriterion(), m.ConvergenceCriterion(lambda e: len(e) % 3 == 1)]
    def gen(d):
        if d == 0 or v.rnd.random() < .2: L = v.rnd.choice(leaves); return L, (lambda e: bool(L(e)))
        o = v.rnd.randrange(3); A, f = gen(d - 1)
        if o == 0: return ~A, lambda e: not f(e)
        B, g = gen(d - 1)
        return (A | B, lambda e: f(e) or g(e)) if o == 1 else (A & B, lambda e: f(e) and g(e))
    K, f = gen(v.rnd.randint(1, 5))
    for k in range(v.rnd.randint(4, 15)):
        E.update(v.rng.normal(size=v.rnd.choice([1, 2, 5])) + 1)
        v.eq("verdict", bool(K(E)), f(E))

def _zoo(v):
    m = v.mod("estimators"); n = lambda: v.rnd.randint(0, 6)
    return [lambda: m.CountCriterion(n()), lambda: m.ToleranceCriterion(rtol=v.rnd.choice([0.0, .5]), atol=v.rnd.choice([0.0, .7])), lambda: m.ConfidenceCriterion(v.rnd.choice([.5, .9]), atol=v.rnd.choice([.2, 1, 3]), rtol=v.rnd.choice([0.0, .3])), lambda: m.KneeCriterion(v.rnd.choice([.1, 1])),
            lambda: m.ConvergenceCriterion(lambda e, k=n(): len(e) > k), lambda: ~m.CountCriterion(n()), lambda: m.CountCriterion(n()) | m.CountCriterion(n()), lambda: m.CountCriterion(n()) & m.ToleranceCriterion(.5, .5)]
def extra_pairs(v):
    """every pair of kinds of criteria, on several states of one estimator and on an estimator without an estimate"""
    m = v.mod("estimators"); Z = _zoo(v); P, Q = v.rnd.choice(Z)(), v.rnd.choice(Z)(); fp, fq = v.freeze(P), v.freeze(Q); O, A, N, NN = P | Q, P & Q, ~P, ~~P
    E = m.MeanEstimator(covariance=True, record=True); F = m.MeanEstimator(covariance=True, record=True); F.update(v.rng.normal(size=4))
    for k in range(5):
        E.update(v.rng.normal(size=v.rnd.choice([1, 1, 2])) + 2)
        for e in (E, F, E):
            p, q = bool(P(e)), bool(Q(e)); v.eq("or", bool(O(e)), p or q); v.eq("and", bool(A(e)), p and q); v.eq("not", bool(N(e)), not p); v.eq("not not", bool(NN(e)), p)
    e = Est(v.rnd.randint(0, 6), None); T = m.ToleranceCriterion(1.0, 1.0); C = m.CountCriterion(3); w = e.n_samples >= 3
    v.eq("no estimate", bool(T(e)), False); v.eq("not, no estimate", bool((~T)(e)), True); v.eq("or, no estimate", bool((T | C)(e)), w); v.eq("and not, no estimate", bool((C & ~T)(e)), w)
    if not callable(getattr(P, "_operation", None)): v.state_is("first unchanged", P, fp)
    if not callable(getattr(Q, "_operation", None)): v.state_is("second unchanged", Q, fq)
BOUNDS["extra_pairs"] = "every pair of eight kinds of criteria on up to six states"
