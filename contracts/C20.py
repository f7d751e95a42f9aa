"""Thread-parallel sampler: ownership contract of the workers (disjoint columns, own stream), coverage lemma."""
FUNCTIONS = ["random.Isotropic.__init__", "random.Isotropic.fill", "random._rademacher_inplace", "random._normal_inplace", "random._sphere_inplace"]
BOUNDS = {"extra_threads": "up to 24 columns, 1 to 12 real threads, repeated fills"}
ASSUMPTIONS = ["ThreadPoolExecutor: every submitted call runs exactly once before wait returns",
               "parallel rule: calls with disjoint footprints (own columns, own generator) give the same result in every interleaving",
               "the children of Generator.spawn are distinct streams"]
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]

def _make(v, T=None):
    v.executor(); R = v.mod("random"); pdf = v.choice("pdf", PDFS); n, m = v.dim("n", 1, 6), v.dim("m", 1, 9); s = v.seed()
    T = v.dim("threads", 1, 7) if T is None else T
    return R, pdf, n, m, s, T, R.Isotropic((n, m), pdf=pdf, seed=s, threads=T)
def _step(v, m, T): return (m + T - 1) // T

def ob_worker(v):
    """a generic worker k of T: fills exactly the columns [k*step, (k+1)*step), from its own stream, nothing else"""
    R, pdf, n, m, s, T, P = _make(v)
    if not T >= 2: return
    i, j = v.dim("i", 0, 5), v.dim("j", 0, 8); v.assume((i < n) & (j < m))
    v.eq("shape", P.values.shape, (n, m)); V0 = v.copy(P.values); g = v.generic_loop(); P.fill(); st = _step(v, m, T)
    if v.sym:
        k = g["t"]; v.eq("one worker per thread", g["N"], T); lo, hi = k * st, (k + 1) * st
        child = v.np.random.default_rng(s).spawn(T)[k]
        if j >= lo and j < hi:
            width = st if hi <= m else m - lo; W = R.isotropic((n, width), pdf=pdf, seed=child); v.eq("own columns", v.at(P.values, i, j), v.at(W, i, j - lo))
        else: v.eq("other columns untouched", v.at(P.values, i, j), v.at(V0, i, j))
        return
    kids = v.np.random.default_rng(s).spawn(T); k = j // st; lo = k * st; hi = min(m, lo + st)
    v.eq("own columns", v.at(P.values, i, j), R.isotropic((n, hi - lo), pdf=pdf, seed=kids[k])[i, j - lo])

def ob_cover(v):
    """the ranges are disjoint and cover every column; the last ones may be empty"""
    m, T, j = v.dim("m", 1, 30), v.dim("threads", 1, 12), v.dim("j", 0, 29); v.assume(j < m); st = _step(v, m, T); k = j // st
    v.true("some worker", (k * st <= j) & (j < (k + 1) * st)); v.true("an existing worker", k < T)
    p = v.dim("p", 0, 11); v.assume((p < T) & (p * st <= j) & (j < (p + 1) * st)); v.eq("only one", p, k)

def ob_single(v):
    """with one thread: the sequential sampler on the same seed"""
    R, pdf, n, m, s, T, P = _make(v, 1); P.fill(); g = v.np.random.default_rng(s)
    v.eq("sequential", P.values, R.isotropic((n, m), pdf=pdf, seed=g)); P.fill(); v.eq("next call continues", P.values, R.isotropic((n, m), pdf=pdf, seed=g))

def ob_fields(v):
    R, pdf, n, m, s, T, P = _make(v); v.eq("threads", P.threads, T); v.eq("shape", P.shape, (n, m)); v.true("values are the array", P.values.shape[0] == n)

def extra_threads(v):
    np = v.np; R = v.mod("random"); T = v.rnd.randint(1, 12); n, m = v.rnd.randint(1, 20), v.rnd.randint(1, 24); pdf = v.rnd.choice(PDFS); s = v.seed()
    P = R.Isotropic((n, m), seed=s, threads=T, **({} if pdf == "rademacher" and v.rnd.random() < .5 else {"pdf": pdf})); kids = [np.random.default_rng(s)] if T == 1 else np.random.default_rng(s).spawn(T); st = -(-m // T)
    for rep in range(2):
        P.values[:] = np.nan if rep == 0 else P.values
        P.fill(); W = np.empty((n, m))
        for k in range(T):
            lo, hi = min(k * st, m), min((k + 1) * st, m); W[:, lo:hi] = R.isotropic((n, hi - lo), pdf=pdf, seed=kids[k])
        v.true(f"fill {rep}", np.array_equal(P.values, W))
    P.executor.shutdown(True)

def extra_sizes(v):
    np = v.np; R = v.mod("random"); T = v.big("threads", 1, 70); n, m = v.rnd.randint(1, 6), v.big("m", 1, 2500); pdf = v.rnd.choice(PDFS); s = v.seed(); P = R.Isotropic((n, m), pdf=pdf, seed=s, threads=T); kids = [np.random.default_rng(s)] if T == 1 else np.random.default_rng(s).spawn(T); st = -(-m // T); P.values[:] = np.nan; P.fill(); W = np.empty((n, m))
    for k in range(T): lo, hi = min(k * st, m), min((k + 1) * st, m); W[:, lo:hi] = R.isotropic((n, hi - lo), pdf=pdf, seed=kids[k])
    v.true("values", np.array_equal(P.values, W)); P.executor.shutdown(True)
BOUNDS["extra_sizes"] = "up to 2500 columns and 70 threads"
