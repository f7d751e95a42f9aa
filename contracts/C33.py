"""Operator checks: which objects are accepted, and with which floating-point type."""
FUNCTIONS = ["operators.is_valid_operator", "operators.is_linear_op"]
BOUNDS = {"extra_objects": "arrays, sparse matrices, linear operators and assorted non-operators of every dtype, up to 8x8"}
MULT = ["__matmul__", "matmul", "dot", "matvec"]

def _object(v, dtypes):
    """an arbitrary object: any subset of the product methods, any shape (or none), any dtype (or none)"""
    has = [v.choice("has " + a, [False, True]) for a in MULT]; dims = v.choice("dims", ["no shape", 0, 1, 2, 3]); n, m = v.dim("n", 0, 4), v.dim("m", 0, 4)
    if v.rng_low(): m = n
    dt = v.choice("dtype", dtypes); np = v.np; log = []
    def product(self, x):
        log.append("product"); v.eq("probed with a vector", v.ndim(x), 1)
        return np.zeros(self.shape[0], dtype=x.dtype if self.kind == "probe" else getattr(np, self.kind))
    ns = {a: product for a, h in zip(MULT, has) if h}
    A = type("Op", (), ns)(); A.kind = dt[0]
    if dims != "no shape": A.shape = v.choice("shape", [tuple, list])((n, m, v.dim("k", 0, 3))[:dims])
    if dt[1]: A.dtype = np.dtype(getattr(np, dt[0]))
    return A, has, dims, n, m, dt, dict(vars(A))
def _square(v, dims, n, m): return dims in (2, 3) and bool(n == m)

def ob_boolean(v):
    """true exactly for square operators that can multiply a vector; no exception otherwise"""
    A, has, dims, n, m, dt, before = _object(v, [("float64", True), ("int64", True), ("complex128", False)])
    r = v.mod("operators").is_linear_op(A); v.true("verdict", bool(r) == (any(has) and _square(v, dims, n, m)))
    v.true("object not modified", _kept(A, before))
def _kept(A, before): return set(vars(A)) == set(before) and all(vars(A)[k] is before[k] for k in before)

def ob_validating(v):
    A, has, dims, n, m, dt, before = _object(v, [(d, t) for d in ["float64", "float32", "int64", "int32", "bool_", "complex128"] for t in (True, False)] + [("probe", False)])  # the last: products in the precision of the vector
    f = v.mod("operators").is_valid_operator
    good = any(has) and _square(v, dims, n, m) and dt[0] in ("float64", "float32", "probe") and (dt[1] or has[0])
    if good: r = f(A); v.true("type of the operator", r == v.np.dtype(getattr(v.np, dt[0].replace("probe", "float64"))))
    else: v.raises("rejected", lambda: f(A), Exception)
    v.true("object not modified", _kept(A, before))

def ob_arrays(v):
    """plain arrays"""
    np = v.np; O = v.mod("operators"); n, m = v.dim("n", 0, 5), v.dim("m", 0, 5); dt = v.choice("dtype", ["float64", "float32", "int64", "bool_"]); sh = v.choice("dims", [1, 2])
    if v.rng_low(): m = n
    A = np.zeros((n, m)[:sh], dtype=getattr(np, dt)); sq = sh == 2 and bool(n == m)
    v.true("boolean check", bool(O.is_linear_op(A)) == sq)
    if sq and dt in ("float64", "float32"): v.true("type", O.is_valid_operator(A) == np.dtype(getattr(np, dt)))
    else: v.raises("rejected", lambda: O.is_valid_operator(A), Exception)

def extra_objects(v):
    np = v.np; import scipy.sparse as sp; from scipy.sparse.linalg import aslinearoperator; O = v.mod("operators"); n, m = v.rnd.randint(1, 8), v.rnd.randint(1, 8); m = n if v.rnd.random() < .5 else m
    dt = v.rnd.choice([np.float64, np.float32, np.float16, np.int64, np.int8, np.bool_, np.complex64, np.complex128, np.longdouble, ">f8"]); B = np.zeros((n, m), dtype=dt); kind = v.rnd.choice(["dense", "order", "operator", "sparse"])
    A = {"dense": lambda: B, "order": lambda: np.asfortranarray(B), "operator": lambda: aslinearoperator(B), "sparse": lambda: sp.csr_array(B.astype(np.float64 if dt in (np.float16, np.longdouble, ">f8") else dt))}[kind]()
    A0 = A.copy() if hasattr(A, "copy") else None; ok = n == m; v.trace["kind"] = kind; v.trace["dtype"] = str(A.dtype)
    r = O.is_linear_op(A); v.eq("boolean", bool(r), ok)
    if ok and A.dtype.type in (np.float64, np.float32): v.true("type", O.is_valid_operator(A) == A.dtype)
    else: v.raises("rejected", lambda: O.is_valid_operator(A), Exception)
    if A0 is not None: v.true("kept", A.shape == A0.shape and A.dtype == A0.dtype)
    class S:
        shape = None
        def __matmul__(self, x): return x
    for x in (None, 3, 2.5, "text", [1, 2], (3, 3), {}, object(), np.float64(1), np.zeros(3), np.zeros(()), lambda x: x, np.ndarray, S(), [[1.0, 0.0], [0.0, 1.0]], np.zeros((2, 3, 3))):
        v.true("not an operator: " + type(x).__name__, not O.is_linear_op(x)); v.raises("rejected " + type(x).__name__, lambda: O.is_valid_operator(x), Exception)

def extra_sizes(v):
    np = v.np; import scipy.sparse as sp; from scipy.sparse.linalg import aslinearoperator; O = v.mod("operators"); n = v.big("n", 1, 3000); m = v.rnd.choice([n, n, n + 1, max(1, n - 1), v.big("m", 1, 3000)]); dt = v.rnd.choice([np.float64, np.float32, np.int64]); S = sp.csr_array((n, m), dtype=dt); A = v.rnd.choice([S, aslinearoperator(S)]); v.eq("linear operator", bool(O.is_linear_op(A)), n == m)
    if n == m and dt != np.int64: v.true("type", O.is_valid_operator(A) == np.dtype(dt))
    else: v.raises("rejected", lambda: O.is_valid_operator(A), Exception)
BOUNDS["extra_sizes"] = "sizes up to 3000"
