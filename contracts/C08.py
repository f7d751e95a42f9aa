"""Criteria by name, and the keyword filters (for every keyword dictionary, pointwise in a generic key)."""
FUNCTIONS = ["estimators.convergence_criterion", "typing.restrict_kwargs", "typing.setdiff_kwargs"]
BOUNDS = {"extra_dicts": "dictionaries of up to 12 keys, functions of up to 5 parameters"}
ASSUMPTIONS = ["inspect.signature(f).parameters names the parameters of f"]

class Est:
    def __init__(s, n): s.n_samples = n
    def __len__(s): return s.n_samples
def _fun(v):
    def f0(): pass
    def f1(a): pass
    def f2(a, b=2, *, c=None): pass
    class K:
        def __init__(self, rtol=0.1, atol=0.2): pass
    return v.choice("callable", [(f0, []), (f1, ["a"]), (f2, ["a", "b", "c"]), (K, ["rtol", "atol"]), (lambda x, y: x, ["x", "y"])])

def ob_filters(v):
    """value kept or dropped at every key; the two parts are disjoint and together the whole"""
    T = v.mod("typing"); f, names = _fun(v); d = v.mapping("kwargs", names); k = v.anykey("key", names)
    before = (k in d, d.get(k)); r, s = T.restrict_kwargs(f, d), T.setdiff_kwargs(f, d)
    v.eq("restricted", k in r, (k in d) and k in names); v.eq("difference", k in s, (k in d) and k not in names)
    if k in r: v.same("restricted value", r[k], d[k])
    if k in s: v.same("difference value", s[k], d[k])
    v.eq("partition", (k in r) + (k in s), int(k in d)); v.true("input unchanged", (k in d, d.get(k)) == before)
    v.true("fresh", r is not d and s is not d)

PARAMS = {"count": {"count": None}, "tolerance": {"rtol": 0.01, "atol": 1.49e-08, "ord": 2.0}, "confidence": {"confidence": 0.95, "atol": 0.0, "rtol": 0.01}, "knee": {"S": 1.0}}
CLS = {"count": "CountCriterion", "tolerance": "ToleranceCriterion", "confidence": "ConfidenceCriterion", "knee": "KneeCriterion"}

def ob_factory(v):
    m = v.mod("estimators"); name = v.choice("criterion", list(PARAMS)); kw = {}; want = {}
    for p, dflt in PARAMS[name].items():
        if p == "count" or v.choice("given " + p, [False, True]):
            kw[p] = want[p] = v.real(p, lo=0.05, hi=0.9) if p != "count" else v.dim("count", 0, 9)
        else: want[p] = dflt
    foreign = v.choice("others", [0, 1, 2])
    if foreign: kw.update({"batch": 3, "nothing": None} if foreign == 1 else {q: 1 for q in ("S", "count", "rtol", "atol", "confidence", "ord", "extra") if q not in PARAMS[name]})
    before = dict(kw); K = m.convergence_criterion(v.anycase(name), **kw)
    v.true("class", type(K) is getattr(m, CLS[name]))
    E = getattr(m, CLS[name])(**{p: want[p] for p in want})
    v.true("fields", sorted(vars(K)) == sorted(vars(E)))
    for a in vars(E): v.eq("field " + a, getattr(K, a), getattr(E, a))
    for p in want: v.eq("argument " + p, getattr(K, p), want[p])
    v.true("keywords unchanged", kw == before if not v.sym else list(kw) == list(before) and all(kw[q] is before[q] for q in kw))

def ob_object(v):
    m = v.mod("estimators"); P = v.choice("object", [m.CountCriterion(v.dim("count", 0, 9)), m.ToleranceCriterion(), m.KneeCriterion(), m.ConvergenceCriterion(lambda e: True), m.CountCriterion(1) | m.KneeCriterion()])
    s = v.freeze(P); v.same("returned as is", m.convergence_criterion(P), P); v.same("keywords ignored", m.convergence_criterion(P, count=3, rtol=0.5), P); v.state_is("unchanged", P, s)

def ob_reject(v):
    m = v.mod("estimators"); v.raises("unknown", lambda: m.convergence_criterion(v.choice("name", ["", "counts", "default", " count", "tol", "none"]), count=1), AssertionError)
    v.raises("not a name", lambda: m.convergence_criterion(v.choice("object", [None, 3, m.CountCriterion, ["count"]]), count=1), AssertionError)

def ob_missing(v):
    """a missing obligatory argument is not invented"""
    v.raises("count", lambda: v.mod("estimators").convergence_criterion("count", rtol=0.1), TypeError)

def extra_dicts(v):
    T = v.mod("typing"); n = v.rnd.randint(0, 5); names = [f"p{i}" for i in range(n)]
    ns = {}; exec(f"def f({', '.join(names)}): pass", ns); f = ns["f"]
    d = {k: v.rng.normal(size=2) for k in v.rnd.sample([f"p{i}" for i in range(9)] + ["q", "self", "kwargs", "_x", "__y", "", "P0", "a b", "args", "x1", "None", "ord"], v.rnd.randint(0, 12))}; d0 = dict(d)
    r, s = T.restrict_kwargs(f, d), T.setdiff_kwargs(f, d)
    v.true("restricted", r.keys() == {k for k in d if k in names} and all(r[k] is d[k] for k in r))
    v.true("difference", s.keys() == {k for k in d if k not in names} and all(s[k] is d[k] for k in s))
    v.true("input", d.keys() == d0.keys() and all(d[k] is d0[k] for k in d)); v.true("types", type(r) is dict and type(s) is dict)

def extra_signatures(v):
    """callables with variable arguments: whatever counts as accepted, the two parts partition the dictionary"""
    T = v.mod("typing")
    def f(a, *args, b=1, **kwargs): pass
    def g(**opts): pass
    def h(a, b, /, c): pass
    f = v.rnd.choice([f, g, h, dict, v.mod("estimators").MeanEstimator, v.mod("estimators").convergence_criterion]) if True else f
    d = {k: object() for k in v.rnd.sample(["a", "b", "c", "args", "kwargs", "opts", "zz", "criterion", "dim", "record", "_p", "self"], v.rnd.randint(0, 9))}
    try: r, s = T.restrict_kwargs(f, d), T.setdiff_kwargs(f, d)
    except ValueError: return  # no signature available
    v.true("disjoint", not (r.keys() & s.keys())); v.true("whole", r.keys() | s.keys() == d.keys()); v.true("values", all(r[k] is d[k] for k in r) and all(s[k] is d[k] for k in s))
    m = v.mod("estimators"); w = v.rnd.choice(v.strangers("estimators", list(PARAMS)))
    if w.lower() not in PARAMS: v.raises(f"unknown name {w!r}", lambda: m.convergence_criterion(w, count=1), AssertionError)
BOUNDS["extra_signatures"] = "dictionaries of up to nine keys; names: the string constants of the module and near misses of the documented names"
