"""Contracts (assumed) of the random generator, numpy.linalg, numpy.fft and scipy functions used by the code."""
from .snp import *
from .snp import SymNumpy, np as _np, _NP
from . import snp, terms as TM, norm as NM
from .ctx import Rule, Reject
import numpy as rnp

USED = set()          # contracts used in this run (reported as trusted)
def used(x): USED.add(x)

class LinAlgError(ValueError): pass

# ---------------------------------------------------------------- random numbers
class Gen:
    """Ghost generator: `segs` is what has been drawn so far; entry p of a draw is the application stream(position)."""
    def __init__(self, sid, segs=()):
        self.sid = sid; self.segs = tuple(segs); self.spawned = I(0)
    def _take(self, kind, count):
        used("numpy Generator: a draw of k values followed by one of l values gives the same values as one draw of k+l (per kind and dtype)")
        count = I(count)
        if self.segs and self.segs[-1][0] == kind:
            pos = self.segs[-1][1]; pre = self.segs[:-1]
        else: pos = I(0); pre = self.segs
        self.segs = pre + ((kind, I(pos + count)),)
        pk = ",".join(f"{k}:{c!r}" for k, c in pre)
        if pre and any(s for k, c in pre for s in c.syms if not ctx().is_dim(s)): raise Unsupported("mixed draws inside a loop")
        return f"{kind}@{self.sid}" + (f"|{pk}" if pre else ""), pos
    def _fill(self, kind, shape, order, dtype=F64, f=lambda x: x):
        tot = I(1)
        for s in shape: tot = I(tot * s)
        if dtype == F32: kind = kind + "32"
        name, pos = self._take(kind, tot)
        def lin(idx):
            p = I(0)
            ks = range(len(shape)) if order == "C" else range(len(shape) - 1, -1, -1)
            for k in ks: p = I(p * shape[k] + idx[k])
            return p
        sid = self.sid
        return lambda *idx: f(app(name, *self._sidx(), I(pos + lin(idx))))
    def _sidx(self): return ()
    def _draw(self, kind, size, out, dtype, f=lambda x: x):
        if out is not None:
            o = "C" if out.is_order("C") else "F" if out.is_order("F") else None
            if o is None: raise ValueError("Supplied output array must be contiguous, writable, aligned, and in machine byte-order.")
            if dtype is not None and DType(dtype) != out.dtype: raise TypeError("Supplied output array has the wrong type.")
            if not out.buf.writeable: raise ValueError("output array must be writable")
            out._write(self._fill(kind, out.shape, o, out.dtype, f)); return out
        if size is None:
            return self._fill(kind, (), "C", F64, f)()
        shape = size if isinstance(size, (tuple, list)) else (size,)
        shape = tuple(IPoly.of(s) for s in shape)
        return SymArr.make(shape, self._fill(kind, shape, "C", DType(dtype) if dtype is not None else F64, f), DType(dtype) if dtype is not None else F64)
    def random(self, size=None, dtype=None, out=None): return self._draw("U", size, out, dtype)
    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = R.of(low), R.of(high)
        return self._draw("U", size, None, None, lambda u: lo + (hi - lo) * u)
    def standard_normal(self, size=None, dtype=None, out=None): return self._draw("N", size, out, dtype)
    def normal(self, loc=0.0, scale=1.0, size=None):
        lo, sc = R.of(loc), R.of(scale)
        return self._draw("N", size, None, None, lambda u: lo + sc * u)
    def choice(self, vals, size=None, replace=True):
        raise Unsupported("Generator.choice")
    def integers(self, *a, **k): raise Unsupported("Generator.integers")
    def spawn(self, n):
        used("numpy Generator.spawn: the children are distinct streams determined by the parent's seed and their number")
        st = self.spawned; self.spawned = I(self.spawned + n)
        return SymSeq(n, lambda i: Child(f"{self.sid}/child", I(st + i)))
    @property
    def bit_generator(self): return self
class Child(Gen):
    def __init__(self, sid, k): Gen.__init__(self, sid); self.k = I(k)
    def _sidx(self): return (self.k,)

class SymSeq:
    """immutable sequence of symbolic length; item(i) must be a pure constructor, memoised per index"""
    def __init__(self, n, item): self.n = I(n); self._item = item; self._memo = {}
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of a symbolic sequence")
        i = I(i); c = i.const()
        if c is not None and c < 0: i = I(i + self.n)
        if not ctx().decide(Cond.conj(Cond.le(-i), Cond.le(i - self.n + 1))): raise IndexError("list index out of range")
        k = i.key
        if k not in self._memo: self._memo[k] = self._item(i)
        return self._memo[k]
    def symlen(self): return dim_simplify(self.n)
    def __len__(self):
        c = self.n.const()
        if c is None: raise Unsupported("length of a symbolic sequence")
        return c
    def __iter__(self):
        c = self.n.const()
        if c is None: raise Unsupported("iteration over a symbolic sequence")
        return iter([self[k] for k in range(c)])

class SeedSequence:
    def __init__(self, entropy=None): self.entropy = entropy
_seedcount = [0]
class RandomNS:
    Generator = Gen; SeedSequence = SeedSequence
    class BitGenerator: pass
    RandomState = BitGenerator
    def default_rng(self, seed=None):
        if isinstance(seed, Gen): return seed
        used("numpy.random.default_rng(seed): the stream is a function of the seed; a Generator is returned as is")
        if seed is None: return Gen(fresh("entropy"))
        if isinstance(seed, SeedSequence): return Gen(f"seq:{seed.entropy!r}")
        if isinstance(seed, (int, IPoly)) and not isinstance(seed, bool): return Gen(f"seed:{I(seed)!r}")
        if hasattr(seed, "seed_key"): return Gen("seed:" + seed.seed_key)
        raise TypeError("SeedSequence expects int or sequence of ints for entropy")
    def __getattr__(self, n): raise Unsupported("numpy.random." + n)

# ---------------------------------------------------------------- linear algebra
def eval_arr(env, a):
    """numeric value of a symbolic array in a valuation (used only to refute)"""
    sh = tuple(env.ip(I(s)) for s in a.shape)
    f = a.rsnap()
    out = rnp.zeros(sh)
    for i in itertools.product(*[range(s) for s in sh]): out[i] = env.r(R.of(f(*[I(x) for x in i])))
    return out
def provide(name, compute):
    """compute(env) -> ndarray; entries served per valuation"""
    def p(env, *idx):
        k = ("arr", name)
        if k not in env.cache:
            try: env.cache[k] = compute(env)
            except (ValueError, rnp.linalg.LinAlgError): raise Reject("linalg")
        v = env.cache[k]
        if any(i < 0 or i >= s for i, s in zip(idx, v.shape)): return 0.0
        return float(v[idx])
    ctx().providers[name] = p

def frozen(a):
    f = a.snap(); return SymArr.make(a.shape, f, a.dtype)

def qr_contract(A, mode="reduced"):
    """reduced QR of an n x m matrix: Q'Q = I, QR = A, R upper triangular"""
    used("numpy.linalg.qr: QR = A, Q'Q = I, R upper triangular (and square Q is orthogonal)")
    A = frozen(asarr(A)); n, m = A.shape
    k = m if (I(n).key == I(m).key or ctx().decide(Cond.le(I(m) - n))) else n
    nm = opaque_key("qr", A)
    qn, rn = "Q" + nm, "R" + nm
    c = ctx()
    def q_r(env): return rnp.linalg.qr(eval_arr(env, A))
    provide(qn, lambda env: q_r(env)[0]); provide(rn, lambda env: q_r(env)[1])
    if not any(r.name == "orth:" + qn for r in c.rules):
        orth_rule(qn, n, k)
        tri_rule(rn)
        fold_rule(A, lambda i, j: sumk(k, lambda v: app(qn, i, v) * app(rn, v, j)), "qr:" + qn)
        c.bump()
    Q, Rm = SymArr.apps(qn, (n, k)), SymArr.apps(rn, (k, m))
    return Q, Rm
def sumk(n, f):
    v = fresh("k"); return rsum(v, 0, n, f(S(v)))
def orth_rule(qn, n, k):
    c = ctx()
    c.rules.append(Rule("orth:" + qn, [(qn, ("i", "a")), (qn, ("i", "b"))], {"i": I(n)},
                        lambda b: mkite(Cond.eq(b["a"] - b["b"]), TM.ONE, TM.ZERO)))
    if I(n).key == I(k).key:
        c.rules.append(Rule("orth2:" + qn, [(qn, ("a", "i")), (qn, ("b", "i"))], {"i": I(n)},
                            lambda b: mkite(Cond.eq(b["a"] - b["b"]), TM.ONE, TM.ZERO)))
    c.bump()
def tri_rule(rn):
    c = ctx()
    c.rules.append(Rule("tri:" + rn, [(rn, ("i", "j"))], {}, lambda b: TM.ZERO, lambda b: [Cond.le(b["j"] - b["i"] + 1)]))
def fold_rule(A, result, name, conds=None):
    """rewrite the (product-form) generic element of A into `result`"""
    c = ctx()
    vs = [f"f{k}" for k in range(A.ndim)]; fixed = []
    P = NM.normal(R.of(A.rsnap()(*[I(0) if I(d).const() == 1 else S(v) for v, d in zip(vs, A.shape)])))
    if len(P.d) != 1: return False
    (t,) = P.d.values()
    if t.c or any(a.kind != "app" or e < 0 for a, e in t.f.items()): return False
    pat = []; bound = {}
    rng = {v: hi for v, lo, hi in t.b if lo.const() == 0}
    if len(rng) != len(t.b): return False
    for a, e in t.f.items():
        idx = []
        for x in a.args[1]:
            if not (x.syms & (set(vs) | set(rng))):          # a fixed index
                fixed.append((f"c{len(fixed)}", x)); idx.append(fixed[-1][0]); continue
            if len(x.d) != 1: return False
            (mm, cc), = x.d.items()
            if cc != 1 or len(mm) != 1 or mm[0][1] != 1 or mm[0][0].kind != "sym": return False
            idx.append(mm[0][0].args[0])
        for _ in range(e): pat.append((a.args[0], tuple(idx)))
    seen = {s for _, idx in pat for s in idx}
    for v, d in zip(vs, A.shape):
        if v not in seen and I(d).const() != 1: return False
    if not set(rng) <= seen: return False
    for v in rng: bound[v] = rng[v]
    co = R.of(1 / t.co)
    c.rules.append(Rule(name, pat, bound, lambda b: co * result(*[b.get(v, I(0)) for v in vs]), (lambda b: [Cond.eq(b[q] - x) for q, x in fixed] + list(conds(*[b.get(v, I(0)) for v in vs]) if conds else [])) if fixed or conds else None))
    c.bump()
    return True
def opaque_key(name, *arrs):
    t = opaque(name, [(a.shape, a.rsnap()) for a in arrs])
    if t.args[1]: raise Unsupported(name + " inside a symbolic loop")
    k = t.args[0]
    reg = getattr(ctx(), "opreg", None)
    if reg is None: reg = ctx().opreg = {}
    if k not in reg:
        if not getattr(ctx(), "_stack", None) and not ctx().nosplit:
            # congruence: provably equal arguments denote the same result
            old = ctx().__dict__.setdefault("opargs", [])
            for nm, args, key in old:
                if nm == name and len(args) == len(arrs) and all(same_arr(a, b) for a, b in zip(arrs, args)):
                    reg[k] = key; return key
            reg[k] = f"{name}#{len(old)}"
            old.append((name, arrs, reg[k]))
        else: reg[k] = f"{name}##{len(reg)}"
    return reg[k]
def same_arr(a, b):
    """the two arrays are provably equal (facts of this path)"""
    c = ctx()
    if a.ndim != b.ndim or not all(ctx().entails(Cond.eq(I(x) - I(y))) for x, y in zip(a.shape, b.shape)): return False
    idx = [fresh("ie") for _ in a.shape]
    c.push()
    try:
        for v, d in zip(idx, a.shape): c.add(Cond.le(-S(v))); c.add(Cond.le(S(v) + 1 - I(d)))
        return c.prove_zero(R.of(a.rsnap()(*[S(v) for v in idx])) - R.of(b.rsnap()(*[S(v) for v in idx])), splits_left=3) is True
    except Unsupported: return False
    finally: c.pop()

class LinalgNS:
    LinAlgError = LinAlgError
    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = asarr(x)
        if axis is not None and isinstance(axis, int) and ord in (None, 2):
            r = reduce_sum(x * x, axis, keepdims)
            return ufunc1(rsqrt, r)
        if axis is None and (x.ndim <= 1 and ord in (None, 2, 2.0) or ord in (None, "fro") and x.ndim == 2):
            return rsqrt(R.of(reduce_sum(x * x)))
        if axis is None and x.ndim == 1 and ord == 1: return R.of(reduce_sum(ufunc1(rabs, x)))
        if axis is None and x.ndim == 1 and ord in (math.inf, -math.inf): return R.of((np.max if ord > 0 else np.min)(ufunc1(rabs, x)))
        if axis is None:
            used("numpy.linalg.norm(x, ord): some function of the array and the order")
            q = opaque("norm", [(x.shape, x.rsnap())], (repr(ord),))
            ctx().add(Cond.real("rle", -q))
            return q
        raise Unsupported("norm")
    def qr(self, A, mode="reduced"):
        if mode == "r": return qr_contract(A)[1]
        if mode not in ("reduced",): raise Unsupported("qr mode")
        return qr_contract(A)
    def inv(self, A):
        used("numpy.linalg.inv: the two-sided inverse (for nonsingular input)")
        A = frozen(asarr(A)); n = A.shape[0]
        if not dim_eq(n, A.shape[1]): raise LinAlgError("Last 2 dimensions of the array must be square")
        nm = "Inv" + opaque_key("inv", A)
        provide(nm, lambda env: rnp.linalg.inv(eval_arr(env, A)))
        P = A.buf.name
        f = A.rsnap()
        g = f(S("g0"), S("g1"))
        if isinstance(g, R) and g.op == "app" and [repr(x) for x in g.args[1]] == ["g0", "g1"]:
            an = g.args[0]; c = ctx()
            d = lambda b: mkite(Cond.eq(b["a"] - b["b"]), TM.ONE, TM.ZERO)
            if not any(r.name == "inv:" + nm for r in c.rules):
                c.rules.append(Rule("inv:" + nm, [(nm, ("a", "i")), (an, ("i", "b"))], {"i": I(n)}, d))
                c.rules.append(Rule("inv2:" + nm, [(an, ("a", "i")), (nm, ("i", "b"))], {"i": I(n)}, d))
                if any(r.name == "tri:" + an for r in c.rules): tri_rule(nm)
                c.bump()
        return SymArr.apps(nm, (n, n))
    def solve(self, A, b):
        used("numpy.linalg.solve(A, b): the inverse of A times b (for nonsingular A)")
        A, b = frozen(asarr(A)), frozen(asarr(b))
        if not dim_eq(A.shape[0], A.shape[1]): raise LinAlgError("Last 2 dimensions of the array must be square")
        if not dim_eq(A.shape[0], b.shape[0]): raise ValueError("solve: mismatch")
        return matmul(self.inv(A), b)
    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        raise Unsupported("numpy.linalg." + n)

# ---------------------------------------------------------------- Fourier transforms (convolution theorem)
class Spec:
    """product of transforms of real sequences of length n"""
    def __init__(self, n, parts, half=False): self.n = n; self.parts = parts; self.half = half
    def __mul__(self, o):
        if isinstance(o, Spec):
            if self.half != o.half: raise Unsupported("product of a half and a full spectrum")
            if not dim_eq(self.n, o.n): raise ValueError("operands could not be broadcast together")
            return Spec(self.n, self.parts + o.parts, self.half)
        return NotImplemented
    __array_ufunc__ = None
    @property
    def shape(self):
        if self.half: raise Unsupported("length of a half spectrum")
        return (self.n,)
    @property
    def real(self): raise Unsupported("real part of a spectrum")
    @property
    def dtype(self): return DType("complex128")
    def copy(self): return self
    def __array_priority__(self): return 0
    def __getattr__(self, n): raise Unsupported("spectrum." + n)
class FFTNS:
    def fft(self, x, n=None, axis=-1, norm=None, half=False):
        if norm is not None: raise Unsupported("fft(norm)")
        used("numpy.fft: the inverse transform of a product of transforms of real sequences is their (real) circular convolution")
        x = frozen(asarr(x))
        if x.ndim != 1: raise Unsupported("fft of a matrix")
        if n is not None and not dim_eq(n, x.shape[0]):          # zero-padded or cut to length n
            f, m = x.rsnap(), x.shape[0]; x = SymArr.make((n,), lambda i: mkite(Cond.le(i + 1 - I(m)), R.of(f(i)), TM.ZERO))
        return Spec(x.shape[0], (x,), half)
    def rfft(self, x, n=None, axis=-1, norm=None): return self.fft(x, n, axis, norm, True)
    def irfft(self, s, n=None, axis=-1, norm=None):
        if not isinstance(s, Spec) or not s.half or norm is not None: raise Unsupported("irfft")
        if n is None:                                            # numpy assumes an even length
            raise Unsupported("irfft without a length")
        if not dim_eq(n, s.n): raise Unsupported("irfft to another length")
        return self.ifft(Spec(s.n, s.parts))
    def ifft(self, s, n=None, axis=-1, norm=None):
        if not isinstance(s, Spec) or s.half or n is not None or norm is not None: raise Unsupported("ifft")
        cur = s.parts[0]; N = s.n
        for p in s.parts[1:]:
            f, g = cur.rsnap(), p.rsnap()
            def conv(i, f=f, g=g):
                v = fresh("k"); k = S(v)
                return rsum(v, 0, N, R.of(g(k)) * mkite(Cond.le(k - i), R.of(f(I(i - k))), R.of(f(I(i - k + N)))))
            cur = SymArr.make((N,), conv)
        return cur
    def __getattr__(self, n): raise Unsupported("numpy.fft." + n)

SymNumpy.random = RandomNS(); SymNumpy.linalg = LinalgNS(); SymNumpy.fft = FFTNS()
np = _np

# ---------------------------------------------------------------- scipy
class NS:
    def __init__(self, name, **k): self.__dict__["_n"] = name; self.__dict__.update(k)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported(f"{self._n}.{n}")
def _ufn(name, nargs=1):
    def f(*xs, **k):
        used(f"scipy {name}: an (uninterpreted) function of its arguments")
        arrs = [x for x in xs if isarr(x)]
        if not arrs: return rfn(name, *[R.of(x) for x in xs])
        sh, maps = broadcast(*[asarr(x).shape for x in xs])
        fs = [asarr(x).rsnap() for x in xs]
        if not sh: return rfn(name, *[f() for f in fs])
        return SymArr.make(sh, lambda *i: rfn(name, *[R.of(f(*m(i))) for f, m in zip(fs, maps)]))
    return f
class TDist:
    def ppf(self, q, df):
        used("scipy.stats.t.ppf(1 - q, df) = -t.ppf(q, df)")
        return _ufn("t.ppf")(q, df)
    def isf(self, q, df): return -self.ppf(q, df)
    def interval(self, confidence, df, loc=0.0, scale=1.0):
        used("scipy.stats.t.interval(c, df, loc, scale) = loc -/+ scale * t.ppf((1+c)/2, df)")
        q = _ufn("t.ppf")((R.of(confidence) + 1) / 2, df)
        return R.of(loc) - R.of(scale) * q, R.of(loc) + R.of(scale) * q
class NormDist:
    def ppf(self, q):
        used("scipy.stats.norm.ppf((1+c)/2) = sqrt(2) erfinv(c)")
        return rsqrt(R.of(2)) * rfn("erfinv", 2 * R.of(q) - 1)
    def isf(self, q): return -self.ppf(q)
    def interval(self, confidence, loc=0.0, scale=1.0):
        used("scipy.stats.norm.interval(c, loc, scale) = loc -/+ scale * sqrt(2) erfinv(c)")
        q = rsqrt(R.of(2)) * rfn("erfinv", R.of(confidence))
        return R.of(loc) - R.of(scale) * q, R.of(loc) + R.of(scale) * q
def sem(a, axis=0, ddof=1, **k):
    used("scipy.stats.sem(a, ddof) = std(a, ddof) / sqrt(n)")
    a = asarr(a)
    return rsqrt(R.of(np_var(a, None, ddof))) / rsqrt(R.of(a.shape[0]))
class OrthoGroup:
    def __init__(self, dim, seed=None): self.dim = dim; self.seed = seed
    def rvs(self, size=1, random_state=None):
        used("scipy.stats.ortho_group(n, seed).rvs(): an orthogonal matrix determined by the generator state")
        g = self.seed if random_state is None else random_state
        g = np.random.default_rng(g)
        n = I(self.dim)
        nm = f"OG@{g.sid}|{g.segs!r}"
        g.segs = g.segs + ((f"OG{n!r}", I(0)),)
        orth_rule(nm, n, n)
        def comp(env):
            k = env.ip(n); r = rnp.random.default_rng(abs(hash((nm, k, env.seed))) % 2 ** 31)
            return rnp.linalg.qr(r.standard_normal((k, k)))[0]
        provide(nm, comp)
        return SymArr.apps(nm, (n, n))
def ortho_group(dim=None, seed=None): return OrthoGroup(dim, seed)
ortho_group.rvs = lambda dim, size=1, random_state=None: OrthoGroup(dim, random_state).rvs()
def squareform(v):
    """vector of n(n-1)/2 entries -> symmetric hollow matrix: entry (i,j), i<j, is v[position(i,j)]"""
    used("scipy.spatial.distance.squareform: symmetric matrix with zero diagonal whose entries are the vector's")
    v = asarr(v)
    if v.ndim == 2: raise Unsupported("squareform of a matrix")
    # n with n(n-1)/2 == len: find a dimension symbol
    L = I(v.shape[0])
    c = L.const()
    n = None
    if c is not None:
        k = 1
        while k * (k - 1) // 2 < c: k += 1
        n = I(k if c else 1)
    else:
        for s in sorted(L.syms):
            cand = S(s)
            d = IPoly.of(cand * (cand - 1) // 2)
            if d.key == L.key: n = cand
    if n is None: raise Unsupported("squareform size")
    f = v.rsnap()
    def pos(i, j): return I(I(i * (2 * n - i - 1)) // 2) + (j - i - 1)
    nm = fresh("sq")
    base = app
    def g(i, j):
        i, j = I(i), I(j)
        lo = lambda a, b: R.of(f(I(pos(a, b))))
        return mkite(Cond.eq(i - j), TM.ZERO, mkite(Cond.le(i - j + 1), lo(i, j), lo(j, i)))
    return SymArr.make((n, n), g)

class LinearOperator:
    """Ghost of scipy.sparse.linalg.LinearOperator (only what the code relies on)"""
    __array_ufunc__ = None
    def __new__(cls, *a, **k): return object.__new__(cls)
    def __init__(self, dtype, shape):
        self.dtype = DType(dtype) if dtype is not None else None
        self.shape = tuple(shape)
    ndim = 2
    def matvec(self, x):
        used("scipy LinearOperator: A @ x calls _matvec and reshapes the result to x's shape (n,) or (n,1)")
        x = asarr(x)
        N, M = self.shape[1], self.shape[0]
        if not (x.ndim == 1 and dim_eq(x.shape[0], N) or x.ndim == 2 and dim_eq(x.shape[0], N) and dim_eq(x.shape[1], 1)): raise ValueError("dimension mismatch")
        y = asarr(self._matvec(x))
        return y.reshape(M) if x.ndim == 1 else y.reshape(M, 1)
    def dot(self, x):
        x = asarr(x)
        if x.ndim == 1 or x.ndim == 2 and dim_is1(x.shape[1]): return self.matvec(x)
        if hasattr(self, "_matmat") and type(self)._matmat is not LinearOperator._matmat: return self._matmat(x)
        raise Unsupported("matmat of a matrix-free operator")
    def _matmat(self, x): raise Unsupported("matmat")
    def __matmul__(self, x): return self.dot(x)
    def __call__(self, x): return self.dot(x)
    def __add__(self, o): return Combo([(self, TM.ONE), (o, TM.ONE)], self.shape)
    def __sub__(self, o): return Combo([(self, TM.ONE), (o, R.of(-1))], self.shape)
    def __mul__(self, s): return Combo([(self, R.of(s))], self.shape)
    __rmul__ = __mul__
    def __truediv__(self, s): return Combo([(self, rinv(R.of(s)))], self.shape)
    def __neg__(self): return Combo([(self, R.of(-1))], self.shape)
class Combo(LinearOperator):
    def __init__(self, parts, shape):
        used("scipy LinearOperator arithmetic is the arithmetic of the operators")
        self.parts = []
        for o, s in parts:
            if isinstance(o, Combo): self.parts += [(p, t * s) for p, t in o.parts]
            else: self.parts.append((o, s))
        LinearOperator.__init__(self, F64, shape)
    def _apply(self, x):
        t = None
        for o, s in self.parts:
            y = (o @ x) * s; t = y if t is None else t + y
        return t
    def _matvec(self, x): return self._apply(x)
    def _matmat(self, x): return self._apply(x)
class IdentityOperator(LinearOperator):
    def __init__(self, shape, dtype=None): LinearOperator.__init__(self, dtype, shape)
    def _matvec(self, x): return x
    def _matmat(self, x): return x
class DenseOp(LinearOperator):
    def __init__(self, A): self.A = A; LinearOperator.__init__(self, A.dtype, A.shape)
    def _matvec(self, x): return self.A @ x
    def _matmat(self, x): return self.A @ x
class _spmatrix: pass
class SparseMat(_spmatrix):
    """Ghost of a scipy sparse matrix: multiplies like the dense matrix with the same entries"""
    __array_ufunc__ = None; ndim = 2; format = "csr"
    def __init__(self, A): self.A = A; self.shape = A.shape; self.dtype = A.dtype
    def __matmul__(self, x): used("scipy sparse A @ x = dense A @ x"); return self.A @ x
    dot = __matmul__
    def as_op(self): return DenseOp(self.A)
    def toarray(self, order=None, out=None): return frozen(self.A)
    def todense(self): return frozen(self.A)
    def _same(self, *a, **k): return SparseMat(frozen(self.A))
    tocsr = tocsc = tocoo = todia = asformat = copy = _same
    @property
    def A1(self): raise Unsupported("sparse matrix.A1")
    @property
    def T(self): return SparseMat(frozen(self.A.T))
    def __getattr__(self, n):
        if n.startswith("__") or n in ("matvec", "matmul"): raise AttributeError(n)
        raise Unsupported("sparse matrix." + n)
def _diagonals(rows, diags, m, n, pos):
    """matrix whose diagonal k holds row r: entry (i, i+k) is r[pos(i, k)]"""
    diags = [int(d) for d in (diags if isinstance(diags, (list, tuple)) else [diags])]
    if len(rows) != len(diags) or len(set(diags)) != len(diags): raise ValueError("number of diagonals")
    fs = [(d, I(r.shape[0]), r.rsnap()) for r, d in zip(rows, diags)]
    def f(i, j):
        out = TM.ZERO
        for d, ln, g in fs:
            p = I(pos(i, d)); out = mkite(Cond.conj(Cond.eq(I(j - i - d)), Cond.le(p + 1 - ln)), g(p), out)
        return out
    return SparseMat(SymArr.make((m, n), f, promote(*[r.dtype for r in rows])))
def spdiags(data, diags, m=None, n=None, format=None):
    used("scipy spdiags: entry (i, i+k) is data[k][i+k], zero beyond the row")
    rows = [asarr(r) for r in data] if isinstance(data, (list, tuple)) else ([asarr(data)[k] for k in range(len(data))] if asarr(data).ndim == 2 else [asarr(data)])
    if m is not None and n is None: m, n = m
    if m is None: m = n = rows[0].shape[0]
    for r in rows[1:]:
        if not snp.dim_eq(r.shape[0], rows[0].shape[0]): raise ValueError("inhomogeneous shape")
    return _diagonals(rows, diags, m, n, lambda i, d: i + d)
def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    used("scipy diags: diagonal k holds the k-th sequence")
    rows = [asarr(r) for r in diagonals] if isinstance(diagonals, (list, tuple)) else [asarr(diagonals)]; offs = [int(d) for d in (offsets if isinstance(offsets, (list, tuple)) else [offsets])]
    if shape is None: k = I(rows[0].shape[0]) + abs(offs[0]); shape = (k, k)
    m, n = shape; out = []
    for r, d in zip(rows, offs):
        if not (bool(I(m) == I(n)) ): raise Unsupported("rectangular diags")
        need = I(n) - abs(d)
        if not snp.dim_eq(r.shape[0], need):
            if snp.dim_is1(r.shape[0]): r = SymArr.make((need,), lambda i, g=r.rsnap(): g(I(0)), r.dtype)
            else: raise ValueError("Diagonal length does not agree with matrix size")
        out.append(r)
    return _diagonals(out, offs, m, n, lambda i, d: i if d >= 0 else i + d)
def aslinearoperator(A):
    used("scipy aslinearoperator(A) @ x = A @ x")
    if isinstance(A, LinearOperator): return A
    if isarr(A): return DenseOp(A)
    if hasattr(A, "as_op"): return A.as_op()
    raise TypeError("type not understood")
HOOKS = {}             # contract hooks supplied by a harness: name -> callable
def hook(name):
    def f(*a, **k):
        if name not in HOOKS: raise Unsupported(name)
        return HOOKS[name](*a, **k)
    return f

def modules():
    stats = NS("scipy.stats", t=TDist(), norm=NormDist(), sem=sem, ortho_group=ortho_group)
    special = NS("scipy.special", erfinv=_ufn("erfinv"), ndtri=lambda q: NormDist().ppf(q))
    dist = NS("scipy.spatial.distance", squareform=squareform)
    spatial = NS("scipy.spatial", distance=dist)
    spl = NS("scipy.sparse.linalg", LinearOperator=LinearOperator, aslinearoperator=aslinearoperator, eigsh=hook("eigsh"))
    iface = NS("scipy.sparse.linalg._interface", IdentityOperator=IdentityOperator, LinearOperator=LinearOperator)
    spl.__dict__["_interface"] = iface
    sparse = NS("scipy.sparse", linalg=spl, sparray=_spmatrix, spmatrix=_spmatrix, spdiags=spdiags, diags=sp_diags, diags_array=lambda d, offsets=0, **k: sp_diags(d, offsets, **k), issparse=lambda x: isinstance(x, _spmatrix))
    sl = NS("scipy.linalg", eigh_tridiagonal=hook("eigh_tridiagonal"), eigvalsh_tridiagonal=hook("eigvalsh_tridiagonal"), qr_insert=hook("qr_insert"),
            qr=lambda A, mode="full", **k: qr_contract(A) if mode == "economic" else (_ for _ in ()).throw(Unsupported("scipy qr mode")),
            solve=lambda A, b, **k: np.linalg.solve(A, b), inv=lambda A, **k: np.linalg.inv(A), norm=np.linalg.norm, LinAlgError=LinAlgError)
    sp = NS("scipy", stats=stats, special=special, spatial=spatial, sparse=sparse, linalg=sl, fft=np.fft)
    npt = NS("numpy.typing", ArrayLike=object, NDArray=object, DTypeLike=object)
    return {"numpy": np, "numpy.typing": npt, "numpy.random": np.random, "numpy.linalg": np.linalg, "numpy.fft": np.fft, "scipy": sp, "scipy.stats": stats, "scipy.special": special,
            "scipy.spatial": spatial, "scipy.spatial.distance": dist, "scipy.sparse": sparse, "scipy.sparse.linalg": spl,
            "scipy.sparse.linalg._interface": iface, "scipy.linalg": sl, "scipy.fft": np.fft}
