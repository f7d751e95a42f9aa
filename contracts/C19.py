"""Samples are a function of the generator state and the number drawn."""
FUNCTIONS = ["random.isotropic", "random._rademacher_inplace", "random._normal_inplace", "random._sphere_inplace"]
BOUNDS = {"extra_batches": "up to 40 columns in up to 12 batches"}
ASSUMPTIONS = ["stream contract of numpy Generators (a draw of k values then l values equals one draw of k + l)"]
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]

def ob_split(v):
    """drawing p columns and then q columns equals drawing p + q; by induction any batching"""
    f = v.mod("random").isotropic; pdf = v.choice("pdf", PDFS); n, p, q = v.dim("n", 1, 6), v.dim("p", 0, 5), v.dim("q", 0, 5); s = v.seed(); g = v.np.random.default_rng(s)
    A = f((n, p), pdf=pdf, seed=g); B = f((n, q), pdf=pdf, seed=g); W = f((n, p + q), pdf=pdf, seed=s); h = v.np.random.default_rng(s); U = f((n, p + q), pdf=pdf, seed=h)
    v.eq("first batch", A, v.arr((n, p), lambda i, j: v.at(W, i, j))); v.eq("second batch", B, v.arr((n, q), lambda i, j: v.at(W, i, p + j))); v.eq("same as the seed", U, W)
    v.state_eq("generator position", g, h); v.eq("next draw", g.random(), h.random())

def ob_repeat(v):
    f = v.mod("random").isotropic; pdf = v.choice("pdf", PDFS); n, p = v.dim("n", 1, 6), v.dim("p", 0, 5); s = v.seed()
    v.eq("repeatable", f((n, p), pdf=pdf, seed=s), f((n, p), pdf=pdf, seed=s)); v.eq("generator of the seed", f((n, p), pdf=pdf, seed=v.np.random.default_rng(s)), f((n, p), pdf=pdf, seed=s))

def ob_continue(v):
    """a generator is continued from where it is, not reseeded"""
    f = v.mod("random").isotropic; pdf = v.choice("pdf", PDFS); n, p = v.dim("n", 1, 6), v.dim("p", 1, 5); s = v.seed(); g, h = v.np.random.default_rng(s), v.np.random.default_rng(s)
    draw = (lambda r, W: r.random(out=W)) if pdf in ("rademacher", "signs") else (lambda r, W: r.standard_normal(out=W))
    A = f((n, p), pdf=pdf, seed=g); Z = v.np.empty((n, p), order="F"); draw(h, Z); a, b = v.np.empty((3,)), v.np.empty((3,)); draw(g, a); draw(h, b); v.eq("stream continues", a, b)

def ob_sampler(v):
    """a sampler without a size is repeated direct calls on one generator"""
    f = v.mod("random").isotropic; pdf = v.choice("pdf", PDFS); n, p, q = v.dim("n", 1, 6), v.dim("p", 0, 5), v.dim("q", 0, 5); s = v.seed()
    S = f(pdf=pdf, seed=s); A, B, C = S(size=(n, p)), S((n, q)), S(n); g = v.np.random.default_rng(s)
    v.eq("first", A, f((n, p), pdf=pdf, seed=g)); v.eq("second", B, f((n, q), pdf=pdf, seed=g)); v.eq("third", C, f(n, pdf=pdf, seed=g))
    h = v.np.random.default_rng(s); T = f(pdf=pdf, seed=h); v.eq("on a generator", T((n, p)), A); v.eq("generator shared", f((n, q), pdf=pdf, seed=h), B)

def extra_batches(v):
    np = v.np; f = v.mod("random").isotropic; pdf = v.rnd.choice(PDFS); n = v.rnd.randint(1, 30); s = v.seed(); sizes = [v.rnd.randint(0, 6) for _ in range(v.rnd.randint(1, 12))]
    W = f((n, sum(sizes)), pdf=pdf, seed=s); S = f(pdf=pdf, seed=s) if v.rnd.random() < .5 else None; g = np.random.default_rng(s)
    v.true("any batching", np.array_equal(W, np.hstack([S((n, k)) if S else f((n, k), pdf=pdf, seed=g) for k in sizes])))
    if sum(sizes) and n > 3: v.true("seed matters", not np.array_equal(f((n, 40), pdf=pdf, seed=s), f((n, 40), pdf=pdf, seed=s + 1)))

def extra_sizes(v):
    np = v.np; f = v.mod("random").isotropic; pdf = v.rnd.choice(PDFS); n = v.big("n", 1, 2000); s = v.seed(); k, l = v.big("k", 1, max(2, 20000 // n)), v.rnd.randint(0, 5); W = f((n, k + l), pdf=pdf, seed=s); S = f(pdf=pdf, seed=s); g = np.random.default_rng(s); a, b = S((n, k)), f((n, k), pdf=pdf, seed=g); a0 = a.copy(); c, d = S((n, l)), f((n, l), pdf=pdf, seed=g)
    v.true("any batching", np.array_equal(W, np.hstack([a, c])) and np.array_equal(W, np.hstack([b, d]))); v.true("earlier samples are kept", np.array_equal(a, a0)); v.true("next draw", np.array_equal(S((n, 2)), f((n, 2), pdf=pdf, seed=g)))
BOUNDS["extra_sizes"] = "arrays of up to 20000 entries"
