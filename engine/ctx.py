"""Proof context of one execution path: facts, decisions, solver queries, rewrite rules, and the prover for equalities."""
from fractions import Fraction
import itertools, time, math, os, hashlib
import z3
from .terms import *
from . import terms as TM, norm as NM
from .norm import Atom, T, NPoly, normal, canon_rcond, atom_to_R

class PathAbort(Exception):
    """the current path is infeasible (an assumption contradicts the path condition)"""

_version = itertools.count(1)
SOLVER_MS = 30000; RLIMIT = 6000000      # deterministic resource limit; the time limit is only a backstop

class Stats:
    def __init__(self): self.queries = 0; self.time = 0.0; self.cache = 0
STATS = Stats()

class Rule:
    """Monomial rewriting.  pat: list of (app name, index variables); bound: dict index variable -> extent (sum over 0..extent);
    result: fn(dict var -> IPoly) -> R; conds: fn(dict) -> list of Cond which must be entailed."""
    def __init__(self, name, pat, bound, result, conds=None):
        self.name = name; self.pat = pat; self.bound = bound; self.result = result; self.conds = conds
        self.names = frozenset(n for n, _ in pat)

def lift_ites(c, left=None):
    """pull conditional summands and factors out of real comparisons: (c ? a : b) < e  ==  c and a < e  or  not c and b < e"""
    left = [6] if left is None else left
    def find(r):
        if r.op == "ite": return r
        if r.op in ("+", "*"):
            for x in r.args[0]:
                f = find(x)
                if f is not None: return f
        return None
    def put(r, f, x):
        if r is f: return x
        if r.op == "+": 
            out = ZERO_R()
            for y in r.args[0]: out = out + put(y, f, x)
            return out
        if r.op == "*":
            out = R.of(1)
            for y in r.args[0]: out = out * put(y, f, x)
            return out
        return r
    if c.op == "not":
        d = lift_ites(c.args[0], left); return c if d is c.args[0] else d.neg()
    if c.op == "and":
        ds = [lift_ites(x, left) for x in c.args]; return c if all(x is y for x, y in zip(ds, c.args)) else Cond.conj(*ds)
    if c.op in ("rlt", "rle", "req") and left[0] > 0:
        f = find(c.args[0])
        if f is not None:
            left[0] -= 1
            k = f.args[0]; a, b = (lift_ites(Cond.real(c.op, put(c.args[0], f, x)), left) for x in f.args[1:])
            return Cond.conj(Cond.disj(k.neg(), a), Cond.disj(k, b))
    return c
def ZERO_R(): return R.of(0)

class Context:
    def __init__(self, trail=()):
        self.trail = list(trail); self.pos = 0; self.newtrails = []; self.done = []
        self.facts = []; self.rules = []; self.defs = {}; self.providers = {}
        self.dims = set(); self.divs = {}; self.splits = []; self.rules_version = next(_version)
        self.cache = {}; self.solver = z3.Solver(); self.solver.set("timeout", SOLVER_MS); self.solver.set("rlimit", RLIMIT)
        self.rsolver = None; self.zi = {}; self.zr = {}; self.zside = []; self.rside = []
        self.nosplit = 0; self.quiet = 0
        self.assumed = []      # textual assumptions made by contracts used on this path
        self.depth = 0
    # ------------------------------------------------------------ facts
    def bump(self): self.rules_version = next(_version); self.cache = {}; self.rsolver = None
    def add(self, c):
        if c is TRUE: return
        if c is FALSE: raise PathAbort("contradictory assumption")
        if c.op == "and":
            for x in c.args: self.add(x)
            return
        self.facts.append(c)
        if not self._isreal(c):
            for z in self.zcond(c, self.solver): self.solver.add(z)
        self.bump()
    def assume(self, c):
        c = cond_of(c)
        self.add(c)
        if not self.feasible(): raise PathAbort("assumption infeasible")
    def push(self):
        self._stack = getattr(self, "_stack", []); self._stack.append((list(self.facts), list(self.rules), dict(self.defs), list(self.__dict__.get("reps", ())), dict(self.__dict__.get("repcache", ())), self.rules_version, self.cache, self.rsolver))
        self.solver.push()
    def pop(self):
        self.facts, self.rules, self.defs, self.reps, self.repcache, self.rules_version, self.cache, self.rsolver = self._stack.pop(); self.solver.pop()
    def _isreal(self, c):
        if c.op in ("rlt", "rle", "req", "b"): return True
        return any(isinstance(a, Cond) and self._isreal(a) for a in c.args)
    def feasible(self):
        r = self.solver.check()
        if r == z3.unsat: return False
        if any(self._isreal(f) for f in self.facts):
            s = self._real_solver()
            return s.check() != z3.unsat
        return True
    # ------------------------------------------------------------ z3 translation (integers)
    def zint(self, p, s=None):
        p = IPoly.of(p)
        tot = z3.IntVal(p.d.get((), 0))
        for m, c in p.d.items():
            if not m: continue
            t = None
            for a, e in m:
                za = self.zatom(a)
                for _ in range(e): t = za if t is None else t * za
            tot = tot + (t if c == 1 else c * t)
        return tot
    def zatom(self, a):
        if a in self.zi: return self.zi[a]
        if a.kind == "sym": z = z3.Int(a.args[0])
        elif a.kind in ("div",):
            x, y = self.zint(a.args[0]), self.zint(a.args[1])
            z = z3.Int(f"{a!r}")
            self.solver_side(z3.Implies(y > 0, z3.And(z * y <= x, x < z * y + y)))
        elif a.kind == "floor":
            z = z3.Int(f"floor#{a.args[0].id}")
            try:
                x = self.zreal(normal(a.args[0])); self.rside.append(z3.And(z3.ToReal(z) <= x, x < z3.ToReal(z) + 1))
            except Unsupported: pass
        else: raise Unsupported(a.kind)
        self.zi[a] = z
        return z
    def solver_side(self, z):
        self.zside.append(z)
    def zcond(self, c, s=None):
        """z3 formulas for an integer condition (side conditions included)"""
        n = len(self.zside)
        z = self._zc(c)
        return [z] + self.zside[:] 
    def _zc(self, c):
        o = c.op
        if o == "T": return z3.BoolVal(True)
        if o == "F": return z3.BoolVal(False)
        if o == "le": return self.zint(c.args[0]) <= 0
        if o == "eq": return self.zint(c.args[0]) == 0
        if o == "not": return z3.Not(self._zc(c.args[0]))
        if o == "and": return z3.And(*[self._zc(x) for x in c.args])
        if o in ("rlt", "rle", "req"):
            z = self.zreal(normal(c.args[0]))
            return z < 0 if o == "rlt" else z <= 0 if o == "rle" else z == 0
        if o == "b": return z3.Bool("b:" + repr(c))
        raise Unsupported("z3 translation of " + o)
    # ------------------------------------------------------------ z3 translation (reals, opaque above polynomials)
    def zreal(self, p):
        tot = z3.RealVal(0)
        for t in p.terms(): tot = tot + self.zterm(t)
        return tot
    def zterm(self, t):
        co = z3.RealVal(str(t.co))
        if t.b:
            k = NM._tkey(t)
            if k not in self.zr:
                z = z3.Real("S#%d" % len(self.zr)); self.zr[k] = z
                u = T(Fraction(1), t.b, t.f, t.c, True)
                if NM.nonneg_term(u): self.zside.append(z >= 0)
            return co * self.zr[k]
        z = co
        for a, e in t.f.items(): 
            za = self.zfac(a)
            if e < 0:
                kk = "inv:" + a.key
                if kk not in self.zr:
                    iv = z3.Real("I#%d" % len(self.zr)); self.zr[kk] = iv
                    self.zside.append(z3.Implies(za != 0, iv * za == 1))
                za = self.zr[kk]
            for _ in range(abs(e)): z = z * za
        for c in t.c: z = z3.If(self._zc(c), z, z3.RealVal(0))
        return z
    def zfac(self, a):
        if a.key in self.zr: return self.zr[a.key]
        if a.kind == "int": z = z3.ToReal(self.zatom(a.args[0]))
        elif a.kind == "poly": z = self.zreal(a.args[0])
        elif a.kind == "abs":
            x = self.zreal(a.args[0]); z = z3.If(x >= 0, x, -x)
        elif a.kind == "sqrt":
            x = self.zreal(a.args[0]); z = z3.Real("Q#%d" % len(self.zr))
            self.zside.append(z3.And(z >= 0, z3.Implies(x >= 0, z * z == x), z3.Implies(x > 0, z > 0)))
        else:
            z = z3.Real("A#%d" % len(self.zr))
            if a.kind == "fn" and a.args[0] == "exp": self.zside.append(z > 0)
            if a.kind == "app" and a.args[0].startswith("U@"): self.zside.append(z3.And(z >= 0, z < 1))
        self.zr[a.key] = z
        return z
    def _real_solver(self):
        if self.rsolver is not None: return self.rsolver
        s = z3.Solver(); s.set("timeout", SOLVER_MS); s.set("rlimit", RLIMIT)
        for f in self.facts:
            try: zs = self._zc(f)
            except Unsupported: continue
            s.add(zs)
        m = self.equalities()
        if m:
            for f in self.facts:
                if self._isreal(f) and f.syms & m.keys():
                    try: s.add(self._zc(f.subst(m)))
                    except (Unsupported, ZeroDivisionError): continue
        for z in self.zside + self.rside: s.add(z)
        self._nside = len(self.zside)
        self.rsolver = s
        return s
    # ------------------------------------------------------------ queries
    def entails(self, c, extra=(), real=False):
        if c is TRUE: return True
        if c is FALSE and not extra: return False
        if not real and c in self.facts: return True
        key = (c.id, tuple(sorted(x.id for x in extra)), real)
        if key in self.cache: STATS.cache += 1; return self.cache[key]
        t0 = time.time(); STATS.queries += 1
        r = self._entails(c, extra, real)
        STATS.time += time.time() - t0
        self.cache[key] = r
        return r
    def _entails(self, c, extra, real):
        if not real and not any(x.op == "le" or x.op == "eq" for x in [c]): 
            if self._isreal(c): real = True
        if not real:
            q = self._quick(c, extra)
            if q is not None: return q
            n0 = len(self.zside)
            try:
                zc = z3.Not(self._zc(c)); ze = [self._zc(x) for x in extra if not self._isreal(x)]
            except Unsupported: return False
            self.solver.push()
            self.solver.add(zc, *ze); self.solver.add(*self.zside)
            r = self.solver.check()
            self.solver.pop()
            return r == z3.unsat
        self.depth += 1
        try:
            if self.depth > 3: return False
            s = self._real_solver()
            n0 = self._nside
            try: zc = z3.Not(self._zc(c)); ze = [self._zc(x) for x in extra]
            except Unsupported: return False
            s.push(); s.add(zc, *ze)
            for z in self.zside + self.rside: s.add(z)
            r = s.check(); s.pop()
            return r == z3.unsat
        finally: self.depth -= 1
    def _quick(self, c, extra):
        return None
    def decide(self, c):
        """truth of a condition in the running code: entailed, or a fork of the exploration"""
        if c is TRUE: return True
        if c is FALSE: return False
        real = self._isreal(c)
        if c.op in ("rlt", "rle", "req"):
            k = canon_rcond(c)
            if k is TRUE: return True
            if k is FALSE: return False
        if self.entails(c, real=real): return True
        if self.entails(c.neg(), real=real): return False
        if self.nosplit: raise Unsupported(f"data-dependent branch inside a summarised loop: {c!r}"[:200])
        if self.pos < len(self.trail):
            key, v = self.trail[self.pos]
            if key != repr(c): raise Unsupported("non-deterministic re-execution")
            self.pos += 1
        else:
            v = True
            self.newtrails.append(self.done + [(repr(c), False)])
            self.pos += 1
        self.done.append((repr(c), v))
        self.add(c if v else c.neg())
        return v
    def choose(self, label, n):
        """free choice among n alternatives, all explored"""
        if n <= 1: return 0
        if self.pos < len(self.trail):
            key, v = self.trail[self.pos]
            if key != label: raise Unsupported("non-deterministic re-execution")
        else:
            v = 0
            for k in range(1, n): self.newtrails.append(self.done + [(label, k)])
        self.pos += 1; self.done.append((label, v))
        return v
    def note_div(self, r):
        if r.op == "i":
            if self.nosplit or (r.syms - self.dims):
                if not (self.entails(Cond.eq(r.args[0]).neg())): self.divs[r.id] = r
                return
            if self.decide(Cond.eq(r.args[0])): raise ZeroDivisionError("division by zero")
        elif r.op != "c": self.divs.setdefault(r.id, r)
    def is_dim(self, s): return s in self.dims
    def want_split(self, c, t):
        b = {v for v, _, _ in t.b}
        if c.syms & b: return
        if all(c is not x for x in self.splits): self.splits.append(c)
    def guard_failed(self, c):
        known = set().union(*[f.syms for f in self.facts]) if self.facts else set()
        if c.syms <= known and c.op in ("le", "eq"): self.want_split(c, T(Fraction(1)))
    # ------------------------------------------------------------ rewriting
    def apply_rules(self, t):
        names = {}
        for a, e in t.f.items():
            if a.kind == "app": names.setdefault(a.args[0], []).append((a, e))
        if not names: return None
        for r in self.rules:
            if not all(n in names for n in r.names): continue
            m = self._match(r, t, names)
            if m is not None: return m
        return None
    def _match(self, rule, t, names):
        rng = {v: (lo, hi) for v, lo, hi in t.b}
        def rec(k, bind, used):
            if k == len(rule.pat):
                return finish(bind, used)
            n, idx = rule.pat[k]
            for a, e in names[n]:
                u = used.get(a, 0)
                if e - u < 1: continue
                if len(a.args[1]) != len(idx): continue
                b2 = dict(bind); ok = True
                for pv, val in zip(idx, a.args[1]):
                    if pv in b2:
                        if b2[pv].key != val.key: ok = False; break
                    else: b2[pv] = val
                if not ok: continue
                u2 = dict(used); u2[a] = u + 1
                r = rec(k + 1, b2, u2)
                if r is not None: return r
            return None
        def finish(bind, used):
            bound = {}
            for pv, ext in rule.bound.items():
                val = bind[pv]
                if len(val.d) != 1: return None
                (m, c), = val.d.items()
                if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "sym": return None
                v = m[0][0].args[0]
                if v not in rng or v in bound.values(): return None
                lo, hi = rng[v]
                e = ext(bind) if callable(ext) else ext
                if lo.const() != 0 or hi.key != IPoly.of(e).key:
                    if lo.const() != 0 or not self.entails(Cond.eq(hi - IPoly.of(e))): return None
                bound[pv] = v
            bv = set(bound.values())
            for pv, val in bind.items():
                if pv not in rule.bound and (val.syms & bv): return None
            f = dict(t.f)
            for a, k in used.items():
                f[a] -= k
                if f[a] == 0: del f[a]
            if any(a.syms & bv for a in f) or any(c.syms & bv for c in t.c): return None
            if any((lo.syms | hi.syms) & bv for v, lo, hi in t.b if v not in bv): return None
            if rule.conds is not None:
                base = NM.ranges(T(t.co, tuple(x for x in t.b if x[0] not in bv))) + [c for c in t.c if not c.op.startswith("r")]
                for c in rule.conds(bind):
                    if not self.entails(c, base): return None
            rest = T(t.co, tuple(x for x in t.b if x[0] not in bv), f, t.c)
            res = [NM.freshen(x) if x.b else x for x in NM.norm_R(rule.result(bind))]
            return NM.mul_lists([rest], res, nofresh=True)      # the result may mention bound variables of the term
        return rec(0, {}, {})
    # ------------------------------------------------------------ proving
    def prove_zero(self, r, depth=0, splits_left=6):
        """True (proved), or the residual normal form"""
        self.splits = []
        m = self.equalities()
        if m: r = rsubst(r, m)
        try: P = normal(r)
        except ZeroDivisionError:
            # a branch not taken divides by zero: decide its guard first
            if not self.splits or splits_left <= 0: raise
            P = Q = None
        if P is not None:
            if m and (P.syms & m.keys()): P = NM.subst_poly(P, m)
            if P.is_zero(): return True
            if any(x[0] == "b" and x[1:2].isdigit() and "_" in x for x in P.syms): raise Unsupported("bound variable out of scope")
            # clear inverse polynomials
            Q = self._clear_inverses(P)
            if Q is not None and Q.is_zero(): return True
        splits = self.splits
        if Q is not None:
            m = self.implied((P.syms | Q.syms) - (m.keys() if m else set()))
            if m:
                P = normal(rsubst(r, m))
                if P.syms & m.keys(): P = NM.subst_poly(P, m)
                if P.is_zero(): return True
                Q = self._clear_inverses(P)
                if Q is not None and Q.is_zero(): return True
        if splits_left > 0 and Q is not None:
            for t in P.d.values():          # guards of the remaining terms
                b = {v for v, _, _ in t.b}
                for c in t.c:
                    if not self._isreal(c) and c.op in ("le", "eq") and not (c.syms & b) and all(c is not x for x in splits): splits.append(c)
        self.splits = []
        if splits_left > 0:
            known = set(self.dims).union(*[f.syms for f in self.facts])
            for c in splits:
                if not c.syms <= known: continue
                if self._isreal(c):
                    if self.entails(c, real=True) or self.entails(c.neg(), real=True): continue
                elif self.entails(c) or self.entails(c.neg()): continue
                ok = True
                for cc in (c, c.neg()):
                    self.push()
                    try:
                        try: self.add(cc)
                        except PathAbort: continue
                        if not self.feasible(): continue
                        x = self.prove_zero(r, depth + 1, splits_left - 1)
                        if x is not True: ok = False; return x
                    finally: self.pop()
                if ok: return True
                break
        if P is None: raise ZeroDivisionError("division by a term that is identically zero")
        Y = NM.reduce_fractions(P)
        if Y is not None:
            if Y.is_zero(): return True
            P = Y; Q = self._clear_inverses(P)
            if Q is not None and Q.is_zero(): return True
        X = P
        for _ in range(4):
            Y = self.congruence(X, splits_left)
            if Y is None: break
            if Y.is_zero(): return True
            Y = self._clear_inverses(Y)
            if Y.is_zero(): return True
            X = Y
        # nonlinear real arithmetic over opaque terms
        try:
            if len(P.d) <= 60 and self._entails(Cond("req", NM.poly_to_R(P)), (), True): return True
        except Unsupported: pass
        return P if Q is None else Q
    def congruence(self, P, left):
        """merge square roots, absolute values, inverses and function values whose arguments are provably equal"""
        if left < 3: return None
        atoms = {}
        for t in P.terms():
            bn = {v for v, _, _ in t.b}
            for a in t.f:
                if a.kind in ("sqrt", "abs", "poly", "fn") and not (a.syms & bn): atoms.setdefault((a.kind, a.args[0] if a.kind == "fn" else None), set()).add(a)
        m = {}
        for k, s in atoms.items():
            s = sorted(s, key=lambda a: a.key); reps = []
            for a in s:
                for b in reps:
                    aa, bb = (a.args[1], b.args[1]) if a.kind == "fn" else ((a.args[0],), (b.args[0],))
                    if len(aa) != len(bb): continue
                    ratio = TM.ONE
                    if all(self.prove_zero(NM.poly_to_R(x) - NM.poly_to_R(y), 1, left - 3) is True for x, y in zip(aa, bb)): m[a] = b; break
                else: reps.append(a)
        if not m: return None
        out = []
        for t in P.terms():
            f = {}
            for a, e in t.f.items():
                a = m.get(a, a); f[a] = f.get(a, 0) + e
                if f[a] == 0: del f[a]
            out.append(T(t.co, t.b, f, t.c))
        return NM.collect(out)
    def equalities(self):
        """integer symbols the facts determine: symbol -> term (triangular)"""
        m = {}; le = {f.args[0].key for f in self.facts if f.op == "le"}
        for f in self.facts:
            if f.op != "eq" and not (f.op == "le" and f.args[0].d and IPoly.of(-f.args[0]).key in le): continue      # p <= 0 and -p <= 0
            p = f.args[0].subst(m) if m else f.args[0]
            p = IPoly.of(p)
            for mono, c in p.d.items():
                if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "sym" and c in (1, -1):
                    s = mono[0][0].args[0]
                    rest = IPoly({q: k for q, k in p.d.items() if q != mono})
                    if s in rest.syms: continue
                    v = IPoly.of(rest * (-c))
                    m = {k: IPoly.of(IPoly.of(x).subst({s: v})) for k, x in m.items()}; m[s] = v
                    break
        return m
    def implied(self, syms):
        """constants and coincidences of integer symbols entailed by the facts"""
        syms = sorted(s for s in syms if s in self.zi_syms())
        if not syms: return {}
        if self.solver.check() != z3.sat: return {}
        mod = self.solver.model(); val = {s: mod.eval(z3.Int(s), model_completion=True).as_long() for s in syms}
        m = {}; reps = []
        for s in syms:
            p = IPoly.sym(s)
            if self.entails(Cond.eq(p - val[s])): m[s] = IPoly.of(val[s]); continue
            for q in reps:
                if val[q] == val[s] and self.entails(Cond.eq(p - IPoly.sym(q))): m[s] = IPoly.sym(q); break
            else: reps.append(s)
        return m
    def zi_syms(self): return {s for f in self.facts if not self._isreal(f) for s in f.syms}
    def _clear_inverses(self, P, den=None):
        for rnd in range(10):
            inv = {}
            for t in P.terms():
                bn = {v for v, _, _ in t.b}
                for a, e in t.f.items():
                    if e < 0 and a.kind in ("poly", "sqrt", "int") and not (a.syms & bn):
                        inv[a] = min(inv.get(a, 0), e)
            # only the outermost: choose an atom not nested in others
            if not inv: return P
            TM.tick(); a = sorted(inv, key=lambda a: (a.kind == "int", -a.depth, a.key))[0]; e = -inv[a]
            if den is not None: den[a] = den.get(a, 0) + e
            out = []
            for t in P.terms():
                f = dict(t.f); k = f.pop(a, 0) + e
                base = [T(t.co, t.b, f, t.c)]
                if a.kind == "poly":
                    out += NM.into(base, NM.pow_list([NM.clone(x) for x in a.args[0].terms()], k)) if k else base
                else:
                    if k: base[0].f[a] = k
                    out += base
            P = NM.collect(out)
            if P.is_zero(): return P
        return P
    def prove_cond(self, c):
        c = cond_of(c)
        if c is TRUE: return True
        if c is FALSE: return False
        if c.op == "and": return all(self.prove_cond(x) for x in c.args)
        if c.op == "req" and self.prove_zero(c.args[0]) is True: return True
        if c.op in ("rlt", "rle", "req"):
            k = canon_rcond(c)
            if k is TRUE: return True
        if self.entails(c, real=self._isreal(c)): return True
        if not self._isreal(c) and self.rside and self.entails(c, real=True): return True      # floors of real terms
        if self._isreal(c):
            d = self.unify(c)
            if d is not None and (d is TRUE or self.entails(d, real=True) or self._propositional(d)): return True
            u = lift_ites(c)
            if u is not c: return self.prove_cond(u)
        return False
    def _propositional(self, c):
        """propositional consequence, the real comparisons taken as atoms"""
        tab = {}
        def tr(x):
            if x.op == "T": return z3.BoolVal(True)
            if x.op == "F": return z3.BoolVal(False)
            if x.op == "not": return z3.Not(tr(x.args[0]))
            if x.op == "and": return z3.And(*[tr(y) for y in x.args])
            if x.op in ("le", "eq"): return self._zc(x)
            k = x.id
            if k not in tab: tab[k] = z3.Bool(f"p{len(tab)}")
            return tab[k]
        s = z3.Solver(); s.set("timeout", SOLVER_MS); s.set("rlimit", RLIMIT)
        try:
            s.add(z3.Not(tr(c)))
            for f in self.facts:
                if not self._isreal(f): s.add(self._zc(f))
        except Unsupported: return False
        return s.check() == z3.unsat
    def unify(self, c):
        """replace real comparisons by provably equivalent earlier ones (same sign of proportional terms)"""
        reps = []
        def walk(x):
            if x.op == "not": return walk(x.args[0]).neg()
            if x.op == "and": return Cond.conj(*[walk(y) for y in x.args])
            if x.op not in ("rlt", "rle", "req"): return x
            x = canon_rcond(x)
            if x.op not in ("rlt", "rle", "req"): return x if x.op != "not" else walk1(x.args[0]).neg()
            return walk1(x)
        def walk1(x):
            p = x.args[0]
            for o, q, y in reps:
                if q is p: return y if o == x.op else x
            for o, q, y in reps:
                # p - q == 0: same comparison;  p + q == 0: mirrored
                if self.prove_zero(p - q, 0, 6) is True:
                    if o == x.op: return y
                    if x.op == "req" or o == "req": continue
                    continue
                if self.prove_zero(p + q, 0, 6) is True:
                    if {o, x.op} == {"rlt", "rle"}: return y.neg()      # -q < 0  <=>  not (q <= 0)
                    if o == x.op == "req": return y
            reps.append((x.op, p, x))
            return x
        try: return walk(c)
        except Unsupported: return None

# ---------------------------------------------------------------- numeric evaluation (refutation only)
class Reject(Exception): pass
class Env:
    """a valuation: integer symbols, and a value for every application (random unless provided)"""
    def __init__(self, ints, seed, providers=None, special=None):
        self.ints = ints; self.seed = seed; self.providers = providers or {}; self.cache = {}; self.memo = {}; self.special = special or {}
    def app(self, name, idx):
        if name == "nan": return math.nan
        if name == "+inf": return math.inf
        if name == "-inf": return -math.inf
        k = (name, idx)
        if k in self.cache: return self.cache[k]
        if name in self.providers:
            v = self.providers[name](self, *idx)
            if v is None: raise Reject("no provider")
        else:
            h = hashlib.blake2b(repr((name, idx, self.seed)).encode(), digest_size=8).digest()
            u = int.from_bytes(h, "big") / 2.0 ** 64
            v = u if name.startswith("U@") else (u * 4 - 2)
            if name in self.special: v = self.special[name](v, idx)
        self.cache[k] = v
        return v
    def ip(self, p, loc=()):
        tot = 0
        for m, c in p.d.items():
            t = c
            for a, e in m: t *= self.ia(a, loc) ** e
            tot += t
        return tot
    def ia(self, a, loc):
        if a.kind == "sym":
            n = a.args[0]
            for k, v in reversed(loc):
                if k == n: return v
            if n not in self.ints: raise Reject("unvalued " + n)
            return self.ints[n]
        if a.kind == "div":
            d = self.ip(a.args[1], loc)
            if d == 0: raise Reject("div 0")
            return self.ip(a.args[0], loc) // d
        if a.kind == "floor": return math.floor(self.r(a.args[0], loc) + 1e-12)
        raise Reject(a.kind)
    def c(self, c, loc=()):
        o = c.op
        if o == "T": return True
        if o == "F": return False
        if o == "le": return self.ip(c.args[0], loc) <= 0
        if o == "eq": return self.ip(c.args[0], loc) == 0
        if o == "and": return all(self.c(x, loc) for x in c.args)
        if o == "not": return not self.c(c.args[0], loc)
        if o in ("rlt", "rle", "req"):
            v = self.r(c.args[0], loc)
            if abs(v) < 1e-9: raise Reject("borderline")
            return v < 0 if o != "req" else False
        if o == "b":
            h = hashlib.blake2b(repr((c.args[0], [self.ip(x, loc) if isinstance(x, IPoly) else round(self.r(x, loc), 6) for x in c.args[1]], self.seed)).encode(), digest_size=2).digest()
            return h[0] % 2 == 0
        raise Reject(o)
    def r(self, r, loc=()):
        if not loc and r.id in self.memo: return self.memo[r.id]
        o, a = r.op, r.args
        if o == "c": v = float(a[0])
        elif o == "i": v = float(self.ip(a[0], loc))
        elif o == "app":
            d = TM.CTX.defs.get(a[0]) if TM.CTX else None
            idx = tuple(self.ip(x, loc) for x in a[1])
            v = self.r(d(*[IPoly.of(i) for i in idx])) if d is not None else self.app(a[0], idx)
        elif o == "+": v = sum(self.r(x, loc) for x in a[0])
        elif o == "*":
            v = 1.0
            for x in a[0]: v *= self.r(x, loc)
        elif o == "^":
            b = self.r(a[0], loc)
            if b == 0 and a[1] < 0: raise Reject("division by zero")
            v = b ** a[1]
        elif o in ("sum", "prod"):
            lo, hi = self.ip(a[1], loc), self.ip(a[2], loc)
            if hi - lo > 400: raise Reject("too long")
            v = 0.0 if o == "sum" else 1.0
            for k in range(lo, hi):
                x = self.r(a[3], loc + ((a[0], k),))
                v = v + x if o == "sum" else v * x
        elif o == "ite": v = self.r(a[1], loc) if self.c(a[0], loc) else self.r(a[2], loc)
        elif o == "fn":
            xs = [self.r(x, loc) for x in a[1]]
            v = self.fn(a[0], xs)
        else: raise Reject(o)
        if not loc: self.memo[r.id] = v
        return v
    def fn(self, name, xs):
        try:
            if name == "sqrt":
                if xs[0] < -1e-9: raise Reject("sqrt of negative")
                return math.sqrt(max(xs[0], 0))
            if name == "abs": return abs(xs[0])
            if name == "exp": return math.exp(xs[0])
            if name == "log": return math.log(xs[0])
            if name == "ipow": return xs[0] ** round(xs[1])
            if name == "rpow": return xs[0] ** xs[1]
            if name in ("erfinv", "t.ppf"):
                import scipy.special, scipy.stats
                y = float((scipy.special.erfinv if name == "erfinv" else scipy.stats.t.ppf)(*xs))
                if not math.isfinite(y): raise Reject("domain")
                return y
        except (ValueError, OverflowError, ZeroDivisionError): raise Reject("domain")
        h = hashlib.blake2b(repr((name, [round(x, 9) for x in xs], self.seed)).encode(), digest_size=8).digest()
        return int.from_bytes(h, "big") / 2.0 ** 62 - 2

def sample_ints(ctx, n, seed):
    """small models of the integer facts (larger ones only where the facts require them)"""
    syms = sorted({s for f in ctx.facts if not ctx._isreal(f) for s in f.syms} | set(ctx.dims))
    out = []
    import random as rnd
    g = rnd.Random(seed)
    zs = [z3.Int(x) for x in syms]
    def solver(hi):
        s = z3.Solver(); s.set("timeout", SOLVER_MS); s.set("rlimit", RLIMIT // 3)
        for f in ctx.facts:
            if not ctx._isreal(f): s.add(ctx._zc(f))
        for z in ctx.zside: s.add(z)
        for z in zs: s.add(z >= -50, z <= hi)
        return s
    hi = 60
    for k in range(n):
        s = solver(hi)
        if k == 0 and s.check() != z3.sat: hi = 300; s = solver(hi)
        soft = [(z, g.randint(0, 5)) for z in zs]; g.shuffle(soft)
        for z, v in soft:
            s.push(); s.add(z == v)
            if s.check() != z3.sat: s.pop(); 
            else: continue
        if s.check() == z3.sat:
            m = s.model()
            out.append({x: m.eval(z3.Int(x), model_completion=True).as_long() for x in syms})
    return out

def refute(ctx, r, tries=6, seed=1, extra_syms=(), pred=None):
    """a valuation satisfying the facts under which r is clearly nonzero (or pred false), or None"""
    free = {s for s in r.syms}
    for k, ints in enumerate(sample_ints(ctx, tries, seed)):
        for s in free:
            if s not in ints: ints[s] = k % 3
        env = Env(ints, seed * 1000 + k, ctx.providers)
        try:
            ok = all(env.c(f) for f in ctx.facts if not ctx._isreal(f))
            if not ok: continue
            if not all(env.c(f) for f in ctx.facts if ctx._isreal(f)): continue
            v = env.r(r)
            sc = max([1.0] + [abs(x) for x in list(env.memo.values())[-200:] if isinstance(x, float) and math.isfinite(x)])
            if math.isnan(v) or abs(v) > 1e-6 * sc: return ints, v
        except Reject: continue
        except (OverflowError, ZeroDivisionError, RecursionError): continue
    return None
