"""Proof back end of the contract API: obligations over all inputs, discharged by the normaliser and z3."""
import itertools, time, traceback, math
from .load import *
from .ctx import Context, PathAbort, STATS, refute, sample_ints
from . import terms as TM, norm as NM, ssp, snp, gmap

class Result:
    """status per obligation label: worst over all paths"""
    def __init__(self): self.by = {}; self.paths = 0; self.notes = []; self.hints = []; self.divs = set()
import os as _os; DEBUG = bool(_os.environ.get('SYMDEBUG'))
ORDER = {"proved": 0, "unsupported": 1, "unknown": 2, "refuted": 3}

class Sampler:
    def __init__(self, name): self.name = name; self.calls = 0; self.log = []; self.sizes = ()
    def __call__(self, size):
        size = tuple(size) if isinstance(size, (tuple, list)) else (size,)
        k = I(self.calls); self.calls = simpint(I(self.calls + 1))
        if k.const() is not None: self.sizes = self.sizes + (size,)
        return self.draw(k, *size)
    def draw(self, k, *size): k = I(k); return SymArr.make(size, lambda *i: app(self.name, k, *i), F64)
class VSym:
    sym = True; _opaque_ghost = True
    def __init__(self, c, res, ob, deadline):
        self.c = c; self.res = res; self.ob = ob; self.deadline = deadline; self.eng = Engine(); self.np = snp.np; self.vals = {}
        self.linalg = snp.np.linalg; self.log = []
    # -------- inputs
    def mod(self, name): return self.eng.mod(name)
    def override(self, name, module): self.eng.overrides[name] = module
    def dim(self, name, lo=1, hi=6):
        p = S(name); self.c.dims.add(name); self.c.add(Cond.le(lo - p)); self.vals[name] = p
        return p
    int = dim
    def real(self, name, pos=False, lo=None, hi=None, nonneg=False):
        r = app(name)
        if pos: self.c.add(Cond.real("rlt", -r))
        if nonneg: self.c.add(Cond.real("rle", -r))
        if lo is not None: self.c.add(cond_of(R.of(lo)._cmp(r, "<=")))
        if hi is not None: self.c.add(cond_of(r._cmp(R.of(hi), "<=")))
        return r
    def array(self, name, *shape, sym=False, **kw):
        if sym:
            n = shape[0]
            def f(i, j):
                return mkite(Cond.le(i - j), app(name, i, j), app(name, j, i))
            return SymArr.make(shape, f, DType(kw.get("dtype")) if kw.get("dtype") else F64)
        a = SymArr.apps(name, shape, DType(kw.get("dtype")) if kw.get("dtype") else F64, kw.get("order", "C"))
        return a
    def upper(self, name, n):
        """a nonsingular upper triangular matrix"""
        ssp.tri_rule(name); import numpy as rnp
        def comp(env):
            k = env.ip(I(n)); r = rnp.random.default_rng(abs(hash((name, k, env.seed))) % 2 ** 31); a = rnp.triu(r.normal(size=(k, k))); a[rnp.diag_indices(k)] += rnp.sign(rnp.diag(a)) * 1.0
            return a
        ssp.provide(name, comp)
        return SymArr.apps(name, (n, n))
    def choice(self, name, opts):
        return opts[self.c.choose("choice:" + name, len(opts))]
    def seed(self, name="seed"):
        p = S(name); self.c.dims.add(name); self.c.add(Cond.le(-p)); return p
    def assume(self, cnd):
        if cnd is True: return
        if cnd is False: raise PathAbort("assumption")
        self.c.assume(cond_of(cnd))
    def fact(self, cnd): self.assume(cnd)
    def tie(self, *pairs): pass
    # -------- specification helpers
    def sum(self, lo, hi, fn):
        v = fresh("S"); c = self.c
        c.push(); c.nosplit += 1
        try:
            for f in (Cond.le(I(lo) - S(v)), Cond.le(S(v) + 1 - I(hi))):
                try: c.add(f)
                except PathAbort: return TM.ZERO
            body = R.of(fn(S(v)))
        finally: c.nosplit -= 1; c.pop()
        return rsum(v, lo, I(hi), body)
    def prod(self, lo, hi, fn):
        v = fresh("P"); c = self.c; c.nosplit += 1
        try: body = R.of(fn(S(v)))
        finally: c.nosplit -= 1
        return rprod(v, lo, I(hi), body)
    def power(self, a, k): return TM.rpow(R.of(a), k)
    def const(self, x): return R.of(x)
    def ratio(self, p, q): return R.of(p) / R.of(q)
    def arr(self, shape, fn, dtype=F64):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        def f(*i):
            self.c.nosplit += 1
            try: return R.of(fn(*i))
            finally: self.c.nosplit -= 1
        return SymArr.make(shape, f, dtype)
    def at(self, a, *i): return R.of(a.rsnap()(*[I(x) for x in i])) if isarr(a) else R.of(a)
    def ite(self, c, a, b):
        if isinstance(c, bool): return a if c else b
        return mkite(cond_of(c), R.of(a), R.of(b))
    def sqrt(self, x): return rsqrt(R.of(x))
    def abs(self, x): return rabs(R.of(x))
    def fn(self, name, *a): return rfn(name, *[R.of(x) for x in a])
    def b(self, x): return x
    def nan(self): return math.nan
    def copy(self, a): return ssp.frozen(a) if isarr(a) else a
    def isfloat(self, x): return isinstance(x, (R, float)) and not isarr(x)
    def ndim(self, x): return x.ndim if isarr(x) else 0
    def uf(self, name, *args):
        """uninterpreted real function symbol of integer arguments"""
        return app(name, *args)
    def lemma(self, label, name, pat, bound, result, conds=None):
        cs = (lambda b: [cond_of(x) for x in conds(b)]) if conds else None
        self.c.rules.append(Rule(name, pat, bound, lambda b: R.of(result(b)), cs)); self.c.bump()
    def fold(self, name, A, result, conds=None):
        """assume: the entries of A (a product of named arrays) equal result(*index) where conds(*index) hold"""
        if not ssp.fold_rule(ssp.frozen(A), result, name, conds): raise Unsupported("assumed equation about " + name)
    def matrix(self, name, *shape, compute=None):
        """a fresh matrix of the contract (compute: values for numeric refutation)"""
        if compute is not None: ssp.provide(name, lambda env: compute(lambda a: ssp.eval_arr(env, a)))
        return SymArr.apps(name, shape)
    def inverse(self, ni, n, k):
        """assume: the k-by-k matrix ni is the two-sided inverse of n"""
        c = self.c; d = lambda b: mkite(Cond.eq(b["a"] - b["b"]), TM.ONE, TM.ZERO)
        c.rules.append(Rule("inv:" + ni, [(ni, ("a", "i")), (n, ("i", "b"))], {"i": I(k)}, d)); c.rules.append(Rule("inv2:" + ni, [(n, ("a", "i")), (ni, ("i", "b"))], {"i": I(k)}, d))
        if any(r.name == "tri:" + n for r in c.rules): ssp.tri_rule(ni)
        self.novalue(ni, n); c.bump()
    def appended(self, Q, q, u, r, n, m):
        """assume: q is a unit vector orthogonal to the columns of Q and u = Q r[:m] + q r[m]"""
        g = R.of(Q.rsnap()(S("g0"), S("g1")))
        if g.op != "app": raise Unsupported("structure of the basis")
        qn, qq, rn, c = g.args[0], q.at(0).args[0], r.at(0).args[0], self.c
        c.rules.append(Rule("app:" + qq, [(qn, ("i", "a")), (qq, ("i",))], {"i": I(n)}, lambda b: TM.ZERO)); c.rules.append(Rule("unit:" + qq, [(qq, ("i",)), (qq, ("i",))], {"i": I(n)}, lambda b: TM.ONE)); c.bump()
        self.novalue(qq, rn); self.fold("u:" + qq, u, lambda k: self.sum(0, m, lambda a: app(qn, k, a) * app(rn, a)) + app(qq, k) * app(rn, m))
    def store(self, a, fn):
        """an arbitrary state of the array, in place"""
        if not a.is_full(): raise Unsupported("state of a view")
        a.buf.fn = memo_fn(fn)
    def below(self, a, b): return Cond.le(I(a) + 1 - I(b))
    def poison(self): return POISON
    def const_int(self, k): return I(k)
    def orthonormal(self, name, n, k): ssp.orth_rule(name, n, k); self.novalue(name)
    def triangular(self, name): ssp.tri_rule(name); self.novalue(name)
    def novalue(self, *names):
        """no numeric refutation with values that need not satisfy what is assumed of the name"""
        for n in names: self.c.providers.setdefault(n, lambda env, *i: None)
    def spherical(self, name, n, m):
        """an n-by-m matrix whose columns have squared length n"""
        self.lemma("", "length:" + name, [(name, ("l", "i")), (name, ("l", "i"))], {"l": I(n)}, lambda b: R.of(I(n)))
        import numpy as rnp
        def comp(env):
            a, b = env.ip(I(n)), env.ip(I(m)); x = rnp.random.default_rng([env.seed % 2 ** 31, a, b]).normal(size=(a, b)); return x / rnp.linalg.norm(x, axis=0) * a ** .5
        ssp.provide(name, comp); return SymArr.apps(name, (n, m))
    # -------- abstract mappings and strings
    def mapping(self, name, keys):
        """an arbitrary dictionary: membership of each key is split by cases, values are opaque objects"""
        memo = {}
        def has(k): return bool(memo.setdefault(("has", str(k)), None) or self._member(memo, name, k))
        def val(k):
            k = str(k)
            if ("val", k) not in memo: memo["val", k] = type("Value", (), {"__repr__": lambda s: f"{name}[{k}]"})()
            return memo["val", k]
        return gmap.GMap(has, val)
    def _member(self, memo, name, k):
        q = ("in", str(k))
        if q not in memo: memo[q] = bool(self.c.choose(f"choice:{name}:{k}", 2))
        return memo[q]
    def anykey(self, name, keys):
        """a generic key: one of the named ones or any other string"""
        n = self.c.choose("choice:" + name, len(keys) + 1)
        return keys[n] if n < len(keys) else "<any other key>"
    def anycase(self, s): return gmap.AnyCase(s)
    # -------- obligations
    softly = False     # True: a failed obligation is reported as undecided (conditions stronger than the property)
    def put(self, label, status, info=""):
        if (self.softly or getattr(self.eng, "aliased", False)) and status == "refuted": status = "unknown"
        if DEBUG and status != "proved": print("##", status, label, "\n   trail", [x for x in self.c.done], "\n   info", str(info)[:1500], "\n   facts", *[f"\n     {f!r}"[:300] for f in self.c.facts], flush=True)
        cur = self.res.by.get(label)
        if cur is None or ORDER[status] > ORDER[cur[0]]: self.res.by[label] = (status, str(info)[:6000])
    def check_time(self):
        if time.time() > self.deadline: raise TimeoutError("obligation budget")
    def eq(self, label, got, want, tol=None):
        self.check_time()
        label = f"{self.ob}/{label}"
        if isinstance(got, Poison) or isinstance(want, Poison): raise Unsupported("untracked value in an obligation")
        if hasattr(got, "symlen") and not isarr(got): got = asarr(got)
        if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)) and not (any(isarr(x) for x in want) is False and len(got) == len(want) and False):
            if len(got) != len(want): self.put(label, "refuted", f"lengths {len(got)} != {len(want)}"); return
            for k, (g, w) in enumerate(zip(got, want)): self._eq(label, g, w)
            return
        self._eq(label, got, want)
    def _eq(self, label, got, want):
        c = self.c
        if want is None or isinstance(want, (str, bytes)) or got is None or isinstance(got, (str, bytes)):
            self.put(label, "proved" if (got is want or (type(got) is type(want) and got == want)) else "refuted", f"{got!r} vs {want!r}"); 
            if self.res.by[label][0] == "refuted": self.hint()
            return
        if isinstance(want, (bool, SymBool, Cond)) or isinstance(got, (SymBool, bool)):
            a, b = cond_of(got), cond_of(want)
            self.prove(label, Cond.conj(Cond.disj(a.neg(), b), Cond.disj(b.neg(), a))); return
        if isarr(got) and got.ndim == 0 and not isarr(want): got = got.item()
        if isarr(want) and want.ndim == 0 and not isarr(got): want = want.item()
        if isarr(got) != isarr(want):
            if isarr(got) and isinstance(want, (list, tuple)): want = asarr(want)
            elif isarr(want) and (isinstance(got, (list, tuple)) or hasattr(got, "symlen")): got = asarr(got)
            else:
                self.put(label, "refuted", "array against scalar"); self.hint(); return
        if isarr(got):
            if got.ndim != want.ndim: self.put(label, "refuted", f"shapes {got.shape} vs {want.shape}"); self.hint(); return
            for x, y in zip(got.shape, want.shape):
                if I(x).key == I(y).key: continue
                if not c.entails(Cond.eq(I(x) - I(y))):
                    q = self._ref_int(I(x) - I(y))
                    self.put(label, q, f"shapes {got.shape} vs {want.shape}"); return
            idx = [fresh("ix") for _ in got.shape]
            c.push()
            try:
                for v, d in zip(idx, got.shape):
                    try: c.add(Cond.le(-S(v))); c.add(Cond.le(S(v) + 1 - I(d)))
                    except PathAbort: self.put(label, "proved"); return
                if got.dtype == B1:
                    a, b = cond_of(got.snap()(*[S(v) for v in idx])), cond_of(want.snap()(*[S(v) for v in idx]))
                    self.prove(label, Cond.conj(Cond.disj(a.neg(), b), Cond.disj(b.neg(), a)), idx); return
                g, w = R.of(got.rsnap()(*[S(v) for v in idx])), R.of(want.rsnap()(*[S(v) for v in idx]))
                self._real(label, g, w, idx)
            finally: c.pop()
            return
        if isinstance(got, (R, IPoly, int, float)) and isinstance(want, (R, IPoly, int, float)):
            self._real(label, R.of(got), R.of(want)); return
        self.put(label, "proved" if got is want else "unknown", f"{got!r} vs {want!r}")
    def _ref_int(self, p):
        x = refute(self.c, R.of(p))
        if x is None: return "unknown"
        self.hint(x[0]); return "refuted"
    def hint(self, ints=None):
        if ints is None:
            m = sample_ints(self.c, 2, 3)
            for i in m: self.res.hints.append((self.ob, dict(i), self._choices()))
            return
        self.res.hints.append((self.ob, {k: v for k, v in ints.items()}, self._choices()))
    def _choices(self): return {k[7:]: v for k, v in self.c.done if k.startswith("choice:")}
    def _special(self, r): return r.op == "app" and r.args[0] in ("nan", "+inf", "-inf")
    def _real(self, label, g, w, idx=()):
        if g is w: self.put(label, "proved"); return
        if self._special(g) or self._special(w):
            # one side is nan or infinite
            if self._special(g) and self._special(w) or not (g.apps & {"nan", "+inf", "-inf"}) or not (w.apps & {"nan", "+inf", "-inf"}):
                self.put(label, "refuted", f"{g!r} vs {w!r}"[:400]); self.hint(); return
        if TM.alpha(g) is TM.alpha(w): self.put(label, "proved"); return
        d = g - w
        p = self.c.prove_zero(d)
        if p is True: self.put(label, "proved"); return
        x = refute(self.c, d, tries=6)
        if x is not None:
            self.put(label, "refuted", f"valuation {x[0]} difference {x[1]:.6g}"); self.hint({k: v for k, v in x[0].items() if k not in idx}); return
        self.put(label, "unknown", f"residual {p!r}"[:500]); self.hint()
    def true(self, label, cnd):
        self.check_time()
        label2 = f"{self.ob}/{label}"
        if isinstance(cnd, bool):
            self.put(label2, "proved" if cnd else "refuted", "" if cnd else "false"); 
            if not cnd: self.hint()
            return
        self.prove(label2, cond_of(cnd))
    def prove(self, label, cnd, idx=()):
        c = self.c
        if c.prove_cond(cnd): self.put(label, "proved"); return
        if cnd is FALSE: self.put(label, "refuted", "false"); self.hint(); return
        # search a valuation
        from .ctx import Env, Reject
        for k, ints in enumerate(sample_ints(c, 6, 5)):
            for s in cnd.syms: ints.setdefault(s, k % 3)
            for q in range(3):
                env = Env(ints, 77 * k + q, c.providers)
                try:
                    if not all(env.c(f) for f in c.facts): continue
                    if not env.c(cnd):
                        self.put(label, "refuted", f"valuation {ints}"); self.hint({a: b for a, b in ints.items() if a not in idx}); return
                except (Reject, OverflowError, ZeroDivisionError, RecursionError): continue
        self.put(label, "unknown", repr(cnd)[:6000]); self.hint()
    def le(self, label, a, b): self.true(label, mkbool(cond_of(R.of(a)._cmp(R.of(b), "<="))) if not (isinstance(a, int) and isinstance(b, int)) else a <= b)
    def lt(self, label, a, b): self.true(label, mkbool(cond_of(R.of(a)._cmp(R.of(b), "<"))) if not (isinstance(a, int) and isinstance(b, int)) else a < b)
    def raises(self, label, fn, exc=Exception):
        try: fn()
        except (Unsupported, PathAbort, TimeoutError): raise
        except exc: self.put(f"{self.ob}/{label}", "proved"); return
        except Exception as e: self.put(f"{self.ob}/{label}", "refuted", f"raised {type(e).__name__}: {e}"); self.hint(); return
        self.put(f"{self.ob}/{label}", "refuted", "did not raise"); self.hint()
    def same(self, label, a, b): self.true(label, a is b)
    def unchanged(self, label, a, before):
        self.eq(label, a, before)
    def len(self, x): return b_len(x)
    def isint(self, x): return isinstance(x, (int, IPoly)) and not isinstance(x, bool)
    def boolfn(self, name, *a): return mkbool(Cond("b", name, tuple(I(x) if isinstance(x, (int, IPoly)) else R.of(x) for x in a)))
    def freeze(self, o, depth=0):
        """immutable picture of an object's fields"""
        if isarr(o): return ssp.frozen(o)
        if isinstance(o, SList): return ("slist", [self.freeze(x, depth + 1) for x in list.__iter__(o)], [(k, x if k == "many" else self.freeze(x, depth + 1)) for k, x in o.segs] if o.segs is not None else None)
        if isinstance(o, (list, tuple)): return ("seq", [self.freeze(x, depth + 1) for x in o])
        if isinstance(o, dict): return ("dict", {k: self.freeze(x, depth + 1) for k, x in o.items()})
        if isinstance(o, Gen): return ("gen", o.sid, o.segs)
        if hasattr(o, "__dict__") and not isinstance(o, (type, types.FunctionType, types.ModuleType, NS, DType)) and depth < 5:
            return ("obj", type(o), {k: self.freeze(x, depth + 1) for k, x in vars(o).items()})
        return o
    def _cmp_frozen(self, label, a, b, soft):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in ("obj", "dict"):
            da, db = a[-1], b[-1]
            if set(da) != set(db): return self.put(label, "unknown" if soft else "refuted", f"fields {sorted(map(str, set(da) ^ set(db)))}")
            for k in da: self._cmp_frozen(label, da[k], db[k], soft)
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "seq" and len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]): self._cmp_frozen(label, x, y, soft)
            return
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "slist":
            la, lb = SList(), SList()
            for l, (_, o, s) in ((la, a), (lb, b)):
                if s is None: l.extend(o)
                else: l.segs = list(s)
            if not isinstance(la.symlen(), int) or not isinstance(lb.symlen(), int) or la.symlen() or lb.symlen(): 
                return self._soft(label, la.to_symarr(), lb.to_symarr(), soft)
            return self.put(label, "proved")
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "gen":
            ok = a[1] == b[1] and len(a[2]) == len(b[2]) and all(x[0] == y[0] and I(x[1]).key == I(y[1]).key for x, y in zip(a[2], b[2]))
            return self.put(label, "proved" if ok else "unknown", f"{a} {b}")
        if a is b: return self.put(label, "proved")
        if isarr(a) or isnum(a) or isinstance(a, SymBool): return self._soft(label, a, b, soft)
        self.put(label, "proved" if type(a) is type(b) and not isinstance(a, tuple) and a == b else ("unknown" if soft else "refuted"), f"{a!r} vs {b!r}"[:300])
    def _soft(self, label, a, b, soft):
        if not soft: return self._eq(label, a, b)
        keep = self.res.by.get(label); nh = len(self.res.hints); self.res.by.pop(label, None)
        self._eq(label, a, b)
        st, info = self.res.by.get(label, ("proved", ""))
        if st == "refuted": st = "unknown"
        del self.res.hints[nh:]
        if keep is not None and ORDER[keep[0]] >= ORDER[st]: st, info = keep
        self.res.by[label] = (st, info)
    def unfold(self, x, depth=1):
        """replace the entries of loop-defined sequences by their defining equations"""
        x = R.of(x); c = self.c
        for _ in range(depth):
            x = replace_apps(x, {y: (lambda *ix, d=d: d["define"](*ix)) for y, d in getattr(c, "seqs", {}).items() if y in x.apps})
        return x
    def unit_interval(self, Z): pass          # the proof engine assumes 0 <= U < 1 of every uniform draw
    def forall(self, lo, hi, body):
        """assume: body(i) for all i in [lo, hi)"""
        from . import quant
        quant.forall(self.c, lo, hi, lambda i: cond_of(body(i)))
    def known(self, cnd):
        """assume a condition; quantified assumptions are used at the entries it mentions"""
        from . import quant
        cnd = cond_of(cnd); self.c.add(cnd); quant.ground(self.c, cnd)
    def same_array(self, a, b): return ssp.same_arr(a, b)
    def generic_loop(self):
        """the next loop of the code is run for one generic iteration only: returns a record with its index t and count N"""
        self.eng.generic = {}
        return self.eng.generic
    def executor(self):
        """assumed contract of the thread pool: every submitted call runs once before wait returns; here it runs when submitted"""
        log = {"submitted": [], "waited": 0, "workers": None}
        class Fut:
            def result(self, timeout=None): return self.value
        class Pool:
            def __init__(self, max_workers=None): log["workers"] = max_workers
            def submit(self, f, *a, **k): log["submitted"].append((f, a)); r = Fut(); r.value = f(*a, **k); return r
            def shutdown(self, *a, **k): pass
        def wait(fs, *a, **k): log["waited"] += 1; return None
        ssp.used("concurrent.futures: every submitted call is executed exactly once before wait returns")
        ssp.HOOKS["concurrent.futures"] = ssp.NS("concurrent.futures", ThreadPoolExecutor=Pool, wait=wait, as_completed=lambda fs: fs)
        return log
    def orthogonals(self, n):
        """the orthogonal n-by-n matrices introduced by library contracts so far"""
        return [SymArr.apps(r.name[6:], (n, n)) for r in self.c.rules if r.name.startswith("orth2:")]
    def some(self, label, alts):
        """one of the equations holds (a witness is found)"""
        lab = f"{self.ob}/{label}"; keep = self.res.by.get(lab); best = None
        if not alts: self.put(lab, "unknown", "no witness at hand"); return
        for f in alts:
            n = len(self.res.hints); self.res.by.pop(lab, None); g, w = f(); self._eq(lab, g, w); st = self.res.by.pop(lab)
            if st[0] == "proved": best = st; break
            best = ("unknown", st[1]); del self.res.hints[n:]
        if keep is not None and ORDER[keep[0]] >= ORDER[best[0]]: best = keep
        self.res.by[lab] = best
    def isone(self, n): return bool(I(n) == 1)
    def sampler(self, name="V"):
        """an arbitrary sampler: the k-th call returns an arbitrary array of the requested shape"""
        return Sampler(name)
    def held(self, k):
        """the condition of the last while loop held at the beginning of its iteration k (k below the number of iterations)"""
        L = [l for l in self.eng.loops if l.it is None]
        if not L: return
        L = L[-1]; t = I(k - (L.n_unrolled - 1))
        if L.held is None or not self.c.entails(Cond.le(t + 1 - L.N)): raise Unsupported("iteration outside the loop")
        if self.c.decide(Cond.le(-t)): self.c.assume(L.held.subst({L.t: t}))
    def invariant(self, loop, check, havoc):
        """contract of a loop, "module.function:k" (k-th loop of the function): check(locals, k) states the invariant, havoc(locals, k) returns an arbitrary state that satisfies it"""
        self.eng.invariants[loop] = types.SimpleNamespace(check=check, havoc=havoc)
    def contract(self, mod, name, value):
        """callers are verified against this contract of a function or class of the repository, which is verified on its own"""
        setattr(self.eng.mod(mod), name, value)
    def np_provide_lm(self, name, A, n):
        import numpy as rnp
        def comp(env):
            w = rnp.linalg.eigvalsh(ssp.eval_arr(env, A)); return w[rnp.argmax(abs(w))]
        A = ssp.frozen(A); self.c.providers[name] = comp
    def isarr(self, a): return isarr(a)
    def isconst(self, p, k): p = I(p); return p.const() is not None and p.const() == k
    def ghost(self): return type("Ghost", (), {"_opaque_ghost": True, "items": [], "d": {}})()
    def record(self, **k): return types.SimpleNamespace(**k)
    def free(self, name): return S(fresh(name))
    def native(self, binding=False):
        """the native code as extracted on this run (engine/cxx.py)"""
        from . import cxxrt
        if not _os.environ.get("VERIF_NATIVE"): raise Unsupported("native code was not extracted")
        self.rt = cxxrt.RT(snp.np, self); self.eng.ext["cxxrt"] = self.rt; m = self.eng.mod("native")
        if m.ERRORS: raise Unsupported("extraction of the native code: " + "; ".join(m.ERRORS))
        if binding and m.BINDING_ERRORS: raise Unsupported("extraction of the binding: " + "; ".join(m.BINDING_ERRORS))
        return m
    def divisible(self, label, p, m):
        """the integer p is a multiple of m (every monomial contains m)"""
        m = I(m); p = I(p); (mono, c), = m.d.items(); (atom, _), = mono
        ok = all(any(a is atom for a, e in k) for k in p.d)
        self.put(f"{self.ob}/{label}", "proved" if ok else "unknown", repr(p))
    def exact_div(self, p, m):
        """the cofactor of the symbol m in a polynomial every monomial of which contains it"""
        m = I(m); p = I(p); (mono, c), = m.d.items(); (atom, _), = mono; out = I(0)
        for k, co in p.d.items():
            if not any(a is atom for a, e in k): raise Unsupported("not a syntactic multiple")
            t = I(co)
            for a, e in k:
                for _ in range(e - (1 if a is atom else 0)): t = I(t * IPoly({((a, 1),): 1}))
            out = I(out + t)
        return out
    def rng_low(self): return False
    def unsupported(self, m): return Unsupported(m)
    def linop(self, A): return ssp.DenseOp(A)
    def sparse(self, A): return ssp.SparseMat(A)
    def hook(self, name, f): ssp.HOOKS[name] = f
    def eigh_contract(self, fail=None):
        from . import ghost
        ghost.install_eigh(fail)
    def eigh_pointwise(self, th, V, d, e):
        """the same contract row by row: TH[j] V[i,j] = (T V)[i,j]"""
        n = d.shape[0]; fd, fe = d.rsnap(), e.rsnap(); c = self.c; tn, vn = th.at(0).args[0], V.at(0, 0).args[0]
        c.rules.append(Rule("eig:" + vn, [(tn, ("j",)), (vn, ("i", "j"))], {},
            lambda b: R.of(fd(b["i"])) * app(vn, b["i"], b["j"]) + mkite(Cond.le(1 - b["i"]), R.of(fe(b["i"] - 1)) * app(vn, b["i"] - 1, b["j"]), TM.ZERO) + mkite(Cond.le(b["i"] + 2 - I(n)), R.of(fe(b["i"])) * app(vn, b["i"] + 1, b["j"]), TM.ZERO)))
        c.bump()
    def poly_lemma(self, z, V, mu):
        """proved lemma: Z(j,m) V[0,j] = mu V[m,j] (stated on the pair V[i,j], i = 0)"""
        vn = V.at(0, 0).args[0]; c = self.c
        c.providers[z] = lambda env, j, m: env.r(R.of(mu) * app(vn, m, j) / app(vn, 0, j))
        c.rules.append(Rule("poly:" + z, [(z, ("j", "m")), (vn, ("i", "j"))], {}, lambda b: mu * app(vn, b["m"], b["j"]), lambda b: [Cond.eq(b["i"])]))
        c.bump()
    def eigh_tri(self, d, e):
        """ghost: eigendecomposition of the tridiagonal matrix (the assumed contract of the library solver)"""
        from . import ghost
        return ghost.eigh_tri(d, e)
    def state_eq(self, label, a, b, ignore=()):
        """induction: the two objects are in the same state, so they behave the same from here on"""
        label = f"{self.ob}/{label}"
        fa, fb = self.freeze(a), self.freeze(b)
        if fa[0] == "obj" and fb[0] == "obj":
            for k in ignore: fa[2].pop(k, None); fb[2].pop(k, None)
        self._cmp_frozen(label, fa, fb, True)
    def state_is(self, label, a, frozen, ignore=()):
        label = f"{self.ob}/{label}"
        fa = self.freeze(a)
        if fa[0] == "obj":
            for k in ignore: fa[2].pop(k, None); frozen[2].pop(k, None)
        self._cmp_frozen(label, fa, frozen, False)
    def concrete_only(self): pass

def run_ob(name, fn, seconds=20.0, max_paths=4000):
    """while loops are summarised from their first iteration or, if that fails, from the first undecided one"""
    t0 = time.time(); Engine.FROM_START = True; Engine.LATE = False
    r = run_ob1(name, fn, seconds, max_paths)
    bad = lambda r: sum(ORDER[s] for s, _ in r.by.values())
    if bad(r) and Engine.LATE and time.time() - t0 < seconds * .8:
        Engine.FROM_START = False
        q = run_ob1(name, fn, seconds - (time.time() - t0), max_paths)
        if bad(q) < bad(r): r = q
    r.time = time.time() - t0
    return r
def run_ob1(name, fn, seconds=20.0, max_paths=4000):
    res = Result(); trails = [()]; t0 = time.time(); deadline = t0 + seconds
    reach_ok = False
    while trails:
        if res.paths >= max_paths or time.time() > deadline:
            res.by[f"{name}/(exploration)"] = ("unknown", f"path or time budget exhausted after {res.paths} paths"); break
        trail = trails.pop()
        TM.DEADLINE[0] = deadline
        TM._fresh = itertools.count(1); TM.fresh.__globals__["_fresh"] = TM._fresh
        ssp.HOOKS.clear()
        c = Context(trail); set_ctx(c); v = VSym(c, res, name, deadline)
        try:
            fn(v); reach_ok = True
        except PathAbort: pass
        except Unsupported as e:
            v.put(f"{name}/(supported)", "unsupported", f"{e} @ {_where(e)}")
        except TimeoutError as e:
            v.put(f"{name}/(exploration)", "unknown", "time budget")
        except RecursionError as e:
            v.put(f"{name}/(supported)", "unsupported", "recursion")
        except Exception as e:
            st = "unknown"
            v.put(f"{name}/(no exception)", st, f"{type(e).__name__}: {e} @ {_where(e)}")
            try: v.hint()
            except Exception: pass
        res.paths += 1
        res.divs |= {repr(r)[:120] for r in c.divs.values()}
        trails += c.newtrails
    set_ctx(None); TM.DEADLINE[0] = None
    res.reached = reach_ok
    res.time = time.time() - t0
    return res
def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    src = [f for f in tb if "/src/primate/" in f.filename or "/contracts/" in f.filename]
    f = (src or tb)[-1]; g = tb[-1]
    return f"{f.filename.split('/')[-1]}:{f.lineno} ({g.filename.split('/')[-1]}:{g.lineno})"
