"""Concrete back end of the contract API: the same contracts evaluated on the real code under CPython with sampled inputs."""
import math, importlib, random, sys, traceback, warnings
import numpy as np

class Skip(Exception): pass
class Failure(Exception): pass

class Raw:
    """marks values that must be compared exactly"""

class VCon:
    sym = False; wide = None; consts = ()
    def __init__(self, seed, hints=None, choices=None, size=6):
        self.rnd = random.Random(seed); self.rng = np.random.default_rng(abs(seed) % 2 ** 63); self.hints = hints or {}; self.chosen = choices or {}
        self.np = np; self.linalg = np.linalg; self.trace = {}; self.nchecks = 0; self.undo = []; self.size = size; self.nontrivial = False
    def mod(self, name): return importlib.import_module("primate." + name)
    def override(self, name, module): raise Skip("symbolic override")
    def dim(self, name, lo=1, hi=None):
        if hi is None: hi = max(lo, self.size)
        if name in self.trace: return self.trace[name]
        if name in self.hints and self.rnd.random() < 0.9: x = max(lo, min(int(self.hints[name]), 200))
        elif self.wide and self.rnd.random() < 0.4: x = max(lo, self.rnd.choice(self.wide))
        else: x = lo if self.rnd.random() < 0.2 else self.rnd.randint(lo, max(hi, lo))
        self.trace[name] = x
        return x
    int = dim
    def big(self, name, lo=1, hi=2000):
        """sizes for the concrete checks: next to the constants of the sources under contract, or spread over the orders of magnitude"""
        pool = [x for x in VCon.consts if lo <= x <= hi]
        x = self.rnd.choice(pool) if pool and self.rnd.random() < 0.6 else min(hi, int(lo * math.exp(self.rnd.random() * math.log((hi + 1) / lo))))
        self.trace[name] = x
        return x
    def real(self, name, pos=False, lo=None, hi=None, nonneg=False):
        x = self.rnd.choice([self.rng.normal(), self.rng.normal() * 10, float(self.rnd.randint(-3, 3)), 0.5])
        if not pos and self.rnd.random() < 0.08: x = self.rnd.choice([0.0, 1e-10, -1e-10])
        if pos: x = abs(x) + 0.05
        if nonneg: x = abs(x)
        if lo is not None or hi is not None:
            a, b = -5.0 if lo is None else lo, 5.0 if hi is None else hi
            x = float(self.rng.uniform(a, b))
            if self.rnd.random() < 0.15: x = float(self.rnd.choice([t for t in (lo, hi, 0.0, 1e-10) if t is not None and a <= t <= b] or [x]))
        self.trace[name] = float(x)
        return float(x)
    def array(self, name, *shape, kind=None, sym=False, dtype=float, order="C", generic=True, pos=False):
        k = kind or self.rnd.choice(["normal", "normal", "normal", "ints", "shift"] if not generic or True else ["normal"])
        if k == "normal": a = self.rng.normal(size=shape)
        elif k == "ints": a = self.rng.integers(-3, 4, size=shape).astype(float) + (0.0 if kind == "ints" else self.rng.normal(size=shape) * 0.01)
        elif k == "shift": a = self.rng.normal(size=shape) * 2 + 3
        else: a = self.rng.normal(size=shape)
        if kind is None and not sym and not pos and self.rnd.random() < 0.15:
            t = self.rnd.randrange(3); c = float(self.rnd.randint(-3, 3))
            a = np.zeros(shape) if t == 0 else np.full(shape, c) if t == 1 else a * (self.rng.random(size=shape) < .5)
        if pos: a = np.abs(a) + 0.1
        if sym: a = (a + np.swapaxes(a, -1, -2)) / 2
        a = np.array(a, dtype=dtype, order=order)
        self.trace[name] = a.copy()
        return a
    def upper(self, name, n):
        a = np.triu(self.rng.normal(size=(n, n))); a[np.diag_indices(n)] += np.sign(np.diag(a)); self.trace[name] = a.copy()
        return a
    def choice(self, name, opts):
        k = self.chosen[name] if name in self.chosen and self.chosen[name] < len(opts) else self.rnd.randrange(len(opts))
        self.trace["choice:" + name] = k
        return opts[k]
    def seed(self, name="seed"):
        x = self.rnd.choice([0, 1, self.rnd.randint(2, 10 ** 6), self.rnd.randint(2, 10 ** 6), self.rnd.randint(2, 10 ** 6), 2 ** 63 + self.rnd.randint(0, 9)]); self.trace[name] = x; return x
    def assume(self, c):
        if not bool(c): raise Skip("assumption")
    def fact(self, c): pass
    def sum(self, lo, hi, fn):
        t = 0.0
        for k in range(int(lo), int(hi)): t = t + fn(k)
        return t
    def arr(self, shape, fn, dtype=float):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        out = np.zeros(shape, dtype=float)
        for i in np.ndindex(*shape): out[i] = fn(*i)
        return out
    def at(self, a, *i): return a[tuple(int(x) for x in i)] if len(i) else float(a)
    def ite(self, c, a, b): return a if bool(c) else b
    def sqrt(self, x): return math.sqrt(max(x, 0.0)) if not math.isnan(x) else x
    def abs(self, x): return abs(x)
    def fn(self, name, *a):
        import scipy.special, scipy.stats
        return {"erfinv": scipy.special.erfinv, "t.ppf": scipy.stats.t.ppf, "exp": math.exp, "log": math.log}[name](*a)
    def b(self, x): return bool(x)
    def nan(self): return math.nan
    def copy(self, a): return np.array(a, copy=True) if isinstance(a, np.ndarray) else a
    def isfloat(self, x): return isinstance(x, float)
    def ndim(self, x): return np.ndim(x)
    def uf(self, name, *args): return self.rng.normal()
    def skip(self, why): return Skip(why)
    def tie(self, *pairs):
        """thresholds that are met up to rounding decide nothing"""
        if any(abs(a - b) <= 1e-10 * max(abs(a), abs(b)) + 1e-13 for a, b in pairs): raise Skip("tie")
    def strangers(self, module, known):
        """strings that are not documented names: every string constant of the module's source, and near misses of the documented names"""
        import ast, inspect
        src = inspect.getsource(self.mod(module)); near = [g(k) for k in known for g in (str.upper, str.title, str.swapcase, lambda k: k + "s", lambda k: k[:-1], lambda k: k[:3], lambda k: k[0] if len(k) > 1 else k * 2, lambda k: " " + k, lambda k: k + " ", lambda k: k + "_", lambda k: k + k)]
        words = {w for c in ast.walk(ast.parse(src)) if isinstance(c, ast.Constant) and isinstance(c.value, str) and len(c.value) < 40 for w in (c.value, *c.value.split())} | set(near) | {"", "none", "default", "auto"}
        return sorted(words - set(known))
    def probe(self):
        """the native functions the extension does not export, compiled for this run"""
        try: return importlib.import_module("primate._probe")
        except ImportError: raise Skip("probe not built")
    def native(self, binding=False):
        import os; from engine import cxxrt
        p = os.environ.get("VERIF_NATIVE")
        if not p or not os.path.exists(p): raise Skip("native code was not extracted")
        m = cxxrt.load(p)
        if m.ERRORS or binding and m.BINDING_ERRORS: raise Skip("native code was not extracted")
        return m
    demoted = []
    def demote(self, why): VCon.demoted.append(why)
    def lemma(self, *a, **k): pass
    def mapping(self, name, keys):
        ks = [k for k in list(keys) + [f"other{j}" for j in range(4)] if self.rnd.random() < .5]; self.rnd.shuffle(ks)
        d = {k: self.rnd.choice([1, "x", None, (2,), 0.5]) for k in ks}; self.trace[name] = dict(d); return d
    def anykey(self, name, keys): return self.rnd.choice(list(keys) + [f"other{j}" for j in range(4)])
    def anycase(self, s): return "".join(self.rnd.choice([c.lower(), c.upper()]) for c in s)
    def unfold(self, x, depth=1): return x
    def unit_interval(self, Z): pass
    def generic_loop(self): return None
    def executor(self): return None
    def isone(self, n): return n == 1
    def held(self, k): pass
    def invariant(self, *a): pass
    def contract(self, mod, name, value): pass
    def sampler(self, name="V"):
        v = self
        class Sampler:
            calls = 0; log = []; sizes = ()
            def __call__(self, size): self.calls += 1; self.sizes += (tuple(size) if isinstance(size, (tuple, list)) else (size,),); x = v.rng.normal(size=size); self.log.append(x.copy()); return x
            def draw(self, k, *size): return self.log[int(k)].reshape(size)
        s = Sampler(); s.log = []; return s
    def hook(self, name, f): pass
    def rng_low(self): return self.rnd.random() < .5
    def linop(self, A):
        from scipy.sparse.linalg import LinearOperator
        return LinearOperator(A.shape, matvec=lambda x: A @ x, rmatvec=lambda x: A.T @ x, dtype=A.dtype)
    def sparse(self, A):
        import scipy.sparse as s
        return s.csr_array(A)
    def eigh_contract(self, fail=None):
        """the real solvers; with `fail`, the library solver may be made to raise LinAlgError"""
        if fail is None: return
        import scipy.linalg; T = self.mod("tridiag")
        for nm in ("eigh_tridiagonal", "eigvalsh_tridiagonal"):
            f = getattr(scipy.linalg, nm)
            def g(*a, f=f, **k):
                if fail(): raise np.linalg.LinAlgError("did not converge")
                return f(*a, **k)
            for o in (scipy.linalg, T):
                if hasattr(o, nm): self.patch(o, nm, g)
    def patch(self, o, name, value):
        self.undo.append((o, name, getattr(o, name))); setattr(o, name, value)
    def restore(self):
        for o, n, x in reversed(self.undo): setattr(o, n, x)
        self.undo = []
    def ratio(self, p, q): return p / q
    def prod(self, lo, hi, fn):
        t = 1.0
        for k in range(int(lo), int(hi)): t = t * fn(k)
        return t
    def eigh_tri(self, d, e):
        T = np.diag(np.asarray(d, dtype=float)) + np.diag(e, 1) + np.diag(e, -1)
        return np.linalg.eigh(T)
    # -------- obligations
    def fail(self, label, msg): raise Failure(f"{label}: {msg}")
    def eq(self, label, got, want, tol=1e-7):
        self.nchecks += 1; tol = 1e-7 if tol is None else tol
        if want is None or isinstance(want, (str, bytes, type)) or got is None or isinstance(got, (str, type)):
            if not (got is want or (type(got) is type(want) and got == want)): self.fail(label, f"got {got!r}, expected {want!r}")
            return
        if isinstance(want, (bool, np.bool_)):
            if not isinstance(got, (bool, np.bool_)) or bool(got) != bool(want): self.fail(label, f"got {got!r}, expected {want!r}")
            return
        if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)) and len(got) != len(want): self.fail(label, f"lengths {len(got)}, {len(want)}")
        if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)) and any(isinstance(x, np.ndarray) for x in want):
            for g, w in zip(got, want): self.eq(label, g, w, tol)
            return
        try: g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError): self.fail(label, f"got {got!r}, expected {want!r}")
        if g.shape != w.shape: self.fail(label, f"shape {g.shape}, expected {w.shape}")
        if g.size == 0: return
        fin = np.isfinite(w)
        sc = max(1.0, float(np.max(np.abs(w[fin]))) if fin.any() else 1.0)
        ok = np.where(fin, np.isfinite(g) & (np.abs(np.where(fin, g, 0) - np.where(fin, w, 0)) <= tol * sc), np.where(np.isnan(w), np.isnan(g), g == w))
        if not np.all(ok): self.fail(label, f"got {_short(got)}, expected {_short(want)}")
        self.nontrivial = True
    def true(self, label, c):
        self.nchecks += 1
        if not bool(c): self.fail(label, "does not hold")
        self.nontrivial = True
    def le(self, label, a, b):
        self.nchecks += 1
        if not a <= b + 1e-9 * max(1.0, abs(a), abs(b)): self.fail(label, f"{a} > {b}")
    def lt(self, label, a, b):
        self.nchecks += 1
        if not a < b: self.fail(label, f"{a} >= {b}")
    def raises(self, label, fn, exc=Exception):
        self.nchecks += 1
        try: r = fn()
        except exc: return
        except Exception as e: self.fail(label, f"raised {type(e).__name__} instead of {exc.__name__}: {e}")
        self.fail(label, f"did not raise (returned {_short(r)})")
    def same(self, label, a, b):
        self.nchecks += 1
        if a is not b: self.fail(label, "not the same object")
    def unchanged(self, label, a, before):
        self.nchecks += 1
        if not np.array_equal(np.asarray(a), np.asarray(before), equal_nan=True): self.fail(label, f"modified: {_short(a)}, was {_short(before)}")
    def concrete_only(self): pass
    def len(self, x): return len(x)
    def isint(self, x): return isinstance(x, (int, np.integer)) and not isinstance(x, bool)
    def boolfn(self, name, *a):
        import zlib
        return bool(zlib.crc32(repr((name, a, self.rnd_salt)).encode()) & 1)
    @property
    def rnd_salt(self):
        if not hasattr(self, "_salt"): self._salt = self.rnd.random()
        return self._salt
    def freeze(self, o):
        import copy
        return copy.deepcopy(o)
    def state_eq(self, label, a, b, ignore=()): pass
    def state_is(self, label, a, frozen, ignore=()):
        self.nchecks += 1
        msg = _differ(a, frozen, ignore)
        if msg: self.fail(label, "object modified: " + msg)

def _differ(a, b, ignore=(), path="", depth=0):
    if depth > 6: return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return None if np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind in "fc") else path
    if type(a) is not type(b): return path + " type"
    if isinstance(a, dict):
        if set(a) != set(b): return path + " keys"
        return next((m for k in a if k not in ignore and (m := _differ(a[k], b[k], (), f"{path}.{k}", depth + 1))), None)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return path + " length"
        return next((m for k, (x, y) in enumerate(zip(a, b)) if (m := _differ(x, y, (), f"{path}[{k}]", depth + 1))), None)
    if isinstance(a, (int, float, str, bool, complex, bytes, type(None), np.generic)): return None if a == b or a != a and b != b else path
    if callable(a) and not hasattr(a, "__dict__"): return None
    if hasattr(a, "__dict__"): return _differ(vars(a), vars(b), ignore, path, depth + 1)
    return None

def _short(x):
    s = np.array2string(np.asarray(x), precision=6, threshold=12) if isinstance(x, np.ndarray) else repr(x)
    return s if len(s) < 300 else s[:300] + "..."

def run_one(fn, seed, hints=None, choices=None, size=6):
    """-> (status, message, v)"""
    v = VCon(seed, hints, choices, size)
    np.random.seed(abs(seed) % 2 ** 32); random.seed(seed)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(v)
        return "ok", "", v
    except Skip: return "skip", "", v
    except Failure as e: return "fail", str(e), v
    except (KeyboardInterrupt, MemoryError): raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        f = tb[-1]
        return "fail", f"unexpected {type(e).__name__}: {e} at {f.filename.split('/')[-1]}:{f.lineno}", v
    finally: v.restore()
