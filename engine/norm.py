"""Normal form of real terms: polynomials over atoms with bound-variable sums and 0/1 guards.

A term is coef * prod(atom^e) * prod[guard] under binders sum_{v in [lo,hi)}.  Two terms denote the same value for all
inputs if their difference normalises to nothing (the converse is not claimed).
"""
from fractions import Fraction
import itertools
from .terms import *
from . import terms as TM

class Atom:
    _tab = {}
    __slots__ = ("kind", "args", "key", "syms", "depth", "apps")
    def __new__(cls, kind, *args):
        key = kind + "(" + ",".join(_k(a) for a in args) + ")"
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls); o.kind = kind; o.args = args; o.key = key
            s, d, ap = frozenset(), 0, frozenset()
            for a in args:
                if isinstance(a, (IPoly, IAtom)): s |= a.syms
                elif isinstance(a, NPoly): s |= a.syms; d = max(d, a.depth); ap |= a.apps
                elif isinstance(a, tuple):
                    for x in a:
                        s |= x.syms
                        if isinstance(x, NPoly): d = max(d, x.depth); ap |= x.apps
                elif isinstance(a, Cond): s |= a.syms
            if kind == "prod": s = (s - {args[0]})
            if kind == "app": ap |= {args[0]}
            o.syms = s; o.depth = d; o.apps = ap
            cls._tab[key] = o
        return o
    def __repr__(self): return self.key

def _k(a):
    if isinstance(a, IPoly): return repr(a)
    if isinstance(a, IAtom): return repr(a)
    if isinstance(a, NPoly): return a.key
    if isinstance(a, tuple): return "<" + ";".join(_k(x) for x in a) + ">"
    return str(a)

class T:
    """one term"""
    __slots__ = ("co", "b", "f", "c", "done")
    def __init__(self, co, b=(), f=None, c=(), done=False):
        self.co = co; self.b = tuple(b); self.f = f or {}; self.c = tuple(c); self.done = done
    def syms(self):
        s = frozenset()
        for a in self.f: s |= a.syms
        for c in self.c: s |= c.syms
        for _, lo, hi in self.b: s |= lo.syms | hi.syms
        return s - {v for v, _, _ in self.b}
    def depth(self): return 1 + max((a.depth for a in self.f), default=0)
    def show(self):
        return _tstr(self.co, self)

def _tstr(co, t):
    f = "*".join(sorted(a.key + (f"^{e}" if e != 1 else "") for a, e in t.f.items()))
    c = "".join(sorted(f"[{x!r}]" for x in t.c))
    b = "".join(f"S{{{v}<{lo!r}..{hi!r}}}" for v, lo, hi in t.b)
    return f"{co}:{b}{c}{f}"

class NPoly:
    """immutable normalised polynomial: dict key -> T"""
    __slots__ = ("d", "key", "syms", "depth", "apps")
    def __init__(self, d):
        self.d = d
        self.key = "{" + "+".join(f"{d[k].co}:{k}" for k in sorted(d)) + "}"
        s, dp, ap = frozenset(), 0, frozenset()
        for t in d.values():
            s |= t.syms(); dp = max(dp, t.depth())
            for a in t.f: ap |= a.apps
        self.syms = s; self.depth = dp; self.apps = ap
    def terms(self): return list(self.d.values())
    def is_zero(self): return not self.d
    def const(self):
        if not self.d: return Fraction(0)
        if len(self.d) == 1:
            (t,) = self.d.values()
            if not t.f and not t.c and not t.b: return t.co
        return None
    def __repr__(self): return self.key

# ---------------------------------------------------------------- substitution on terms
def subst_atom(a, m):
    """-> list of (Atom, exp, coef) product or an NPoly; returns list of T (a polynomial, usually one term)"""
    if not (a.syms & m.keys()): return None
    if a.kind == "app": return Atom("app", a.args[0], tuple(x.subst(m) for x in a.args[1]))
    if a.kind == "int": return ("ipoly", isubst_atom(a.args[0], m))
    if a.kind in ("poly", "sqrt", "abs"): return (a.kind, subst_poly(a.args[0], m))
    if a.kind == "fn": return ("fn", a.args[0], tuple(subst_poly(x, m) for x in a.args[1]))
    if a.kind == "prod":
        v, lo, hi, p = a.args
        return mkprod(lo.subst(m), hi.subst(m), v, subst_poly(p, {x: y for x, y in m.items() if x != v}))
    if a.kind == "cond": return ("cond", a.args[0].subst(m))
    raise Unsupported(a.kind)

def subst_poly(p, m):
    if not (p.syms & m.keys()): return p
    out = []
    for t in p.terms(): out += subst_term(t, m)
    return collect(out)

def subst_term(t, m, scoped=False):
    """-> list of T; scoped: the images refer to the binders of t"""
    if any(v in m for v, _, _ in t.b):
        m = {k: x for k, x in m.items() if all(k != v for v, _, _ in t.b)}
    ms = t.syms()
    if not (ms & m.keys()): return [t]
    # avoid capture
    img = frozenset().union(*[IPoly.of(x).syms for x in m.values()]) if m else frozenset()
    if not scoped and any(v in img for v, _, _ in t.b): t = freshen(t)
    b = tuple((v, lo.subst(m), hi.subst(m)) for v, lo, hi in t.b)
    c = tuple(x.subst(m) for x in t.c)
    res = [T(t.co, b, {}, c)]
    for a, e in t.f.items():
        s = subst_atom(a, m)
        if s is None: _pmul1(res, a, e); continue
        if isinstance(s, Atom): _pmul1(res, s, e); continue
        res = into(res, pow_list(atom_value(s), e))
    return res

def _pmul1(res, a, e):
    for r in res:
        r.f = dict(r.f); r.f[a] = r.f.get(a, 0) + e
        if r.f[a] == 0: del r.f[a]

def atom_value(s):
    """rebuilt atom -> list of T"""
    k = s[0]
    if k == "ipoly": return ipoly_terms(s[1])
    if k == "poly": return [clone(t) for t in s[1].terms()]
    if k == "sqrt": return sqrt_terms(s[1])
    if k == "abs": return abs_terms(s[1])
    if k == "fn": return fn_terms(s[1], s[2])
    if k == "cond": return guard_terms(s[1])
    raise Unsupported(k)

def clone(t): return T(t.co, t.b, dict(t.f), t.c, t.done)

def freshen(t):
    m = {}; b = []
    for v, lo, hi in t.b:
        nv = fresh("i"); m[v] = IPoly.sym(nv); b.append((nv, lo, hi))
    b = tuple((v, lo.subst(m), hi.subst(m)) for v, lo, hi in b)
    c = tuple(x.subst(m) for x in t.c)
    f = {}
    res = [T(t.co, b, {}, c)]
    for a, e in t.f.items():
        s = subst_atom(a, m)
        if s is None: s = a
        if isinstance(s, Atom): _pmul1(res, s, e)
        else: res = mul_lists(res, pow_list(atom_value(s), e), nofresh=True)
    if len(res) != 1: raise Unsupported("freshen")
    return res[0]

# ---------------------------------------------------------------- products
def mul2(x, y, nofresh=False):
    if x.b and y.b and not nofresh: y = freshen(y)
    elif x.b and not nofresh:
        ys = y.syms()
        if any(v in ys for v, _, _ in x.b): x = freshen(x)
    elif y.b and not nofresh:
        xs = x.syms()
        if any(v in xs for v, _, _ in y.b): y = freshen(y)
    f = dict(x.f)
    for a, e in y.f.items():
        n = f.get(a, 0) + e
        if n: f[a] = n
        else: f.pop(a, None)
    c = x.c + tuple(z for z in y.c if z not in x.c)
    return T(x.co * y.co, x.b + y.b, f, c)

def mul_lists(xs, ys, nofresh=False):
    if len(xs) * len(ys) > 8: TM.tick()
    out = []
    for x in xs:
        for y in ys: out.append(mul2(x, y, nofresh))
    if len(out) > 4000: raise Unsupported("normal form too large")
    return out

def into(xs, ys):
    """product where the factors of ys lie in the scope of the binders of xs"""
    return mul_lists(xs, [freshen(y) if y.b else y for y in ys], nofresh=True)

def pow_list(ts, e):
    if e < 0: return pow_list(inv_terms(ts), -e)
    out = [T(Fraction(1))]
    for _ in range(e):
        out = mul_lists(out, ts)
        if len(out) > 8: out = [clone(t) for t in collect(out).terms()]
    return out

def common_factor(p, avoid=frozenset()):
    """atoms (with exponents) that every term of p has, free of bound variables and of `avoid`"""
    com = None
    for t in p.terms():
        bn = {v for v, _, _ in t.b} | avoid
        g = {a: e for a, e in t.f.items() if not (a.syms & bn)}
        if com is None: com = g
        else:
            new = {}
            for a, e in com.items():
                e2 = g.get(a)
                if e2 is None or (e2 > 0) != (e > 0): continue
                new[a] = min(e, e2) if e > 0 else max(e, e2)
            com = new
        if not com: return {}
    return com or {}
def divide_out(p, com):
    out = []
    for t in p.terms():
        f = dict(t.f)
        for a, e in com.items():
            f[a] -= e
            if f[a] == 0: del f[a]
        out.append(T(t.co, t.b, f, t.c))
    return collect(out)

_busy = [0]
def has_inv(p): return any(e < 0 and a.kind in ("int", "poly", "sqrt") for t in p.terms() for a, e in t.f.items())
def rep(p, signed=False):
    """the first polynomial met on this path that is provably equal (or opposite) to p as a rational function"""
    c = TM.CTX
    if c is None or _busy[0] or len(p.d) < 2: return p
    reg = c.__dict__.setdefault("reps", [])
    h = has_inv(p)
    for q, hq in reg:
        if q.key == p.key: return q
    for q, hq in reg:
        if (h or hq) and q.apps == p.apps and q.syms == p.syms:
            ck = (p.key, q.key)
            cc = c.__dict__.setdefault("repcache", {})
            if ck not in cc:
                _busy[0] += 1
                try:
                    if len(p.d) + len(q.d) > 120: cc[ck] = False
                    else:
                        Q = c._clear_inverses(collect([clone(t) for t in p.terms()] + [clone(t) for t in scale(q, -1).terms()]))
                        cc[ck] = Q.is_zero()
                        if not cc[ck] and signed:
                            Q = c._clear_inverses(collect([clone(t) for t in p.terms()] + [clone(t) for t in q.terms()]))
                            cc[ck] = "-" if Q.is_zero() else False
                except Unsupported: cc[ck] = False
                finally: _busy[0] -= 1
            if cc[ck] is True or cc[ck] == "-" and signed: return q
    reg.append((p, h))
    return p
def inv_terms(ts):
    p = rep(collect(ts))
    if p.is_zero(): raise ZeroDivisionError("division by a term that is identically zero")
    if len(p.d) > 1:
        com = common_factor(p)
        if com:
            q = divide_out(p, com)
            r = inv_terms([clone(t) for t in q.terms()])
            for t in r:
                for a, e in com.items():
                    t.f[a] = t.f.get(a, 0) - e
                    if t.f[a] == 0: del t.f[a]
            return r
    if len(p.d) == 1:
        (t,) = p.d.values()
        if not t.b and not t.c:
            return [T(1 / t.co, (), {a: -e for a, e in t.f.items()})]
    # factor out leading coefficient
    k0 = sorted(p.d)[0]; lc = p.d[k0].co
    q = NPoly({k: T(t.co / lc, t.b, t.f, t.c, t.done) for k, t in p.d.items()})
    return [T(1 / lc, (), {Atom("poly", q): -1})]

def ipoly_terms(p):
    out = []
    for m, c in p.d.items():
        f = {}
        for a, e in m: f[Atom("int", a)] = e
        out.append(T(Fraction(c), (), f))
    return out

def poly_to_int(p):
    """the integer polynomial a normalised real polynomial stands for, if it is one"""
    d = {}
    for t in p.terms():
        if t.b or t.c or t.co.denominator != 1 or any(a.kind != "int" or e < 1 for a, e in t.f.items()): return None
        x = IPoly({(): int(t.co)})
        for a, e in t.f.items():
            for _ in range(e): x = x * IPoly({((a.args[0], 1),): 1})
        d[len(d)] = x
    r = IPoly.of(0)
    for x in d.values(): r = r + x
    return IPoly.of(r)

# ---------------------------------------------------------------- guards
def guard_terms(c):
    """[c] as list of T"""
    if c is TRUE: return [T(Fraction(1))]
    if c is FALSE: return []
    if c.op == "and":
        out = [T(Fraction(1))]
        for x in c.args: out = mul_lists(out, guard_terms(x))
        return out
    if c.op == "not":
        out = [T(Fraction(1))]
        for t in guard_terms(c.args[0]): out.append(T(-t.co, t.b, t.f, t.c))
        return out
    if c.op in ("rlt", "rle", "req"):
        c = canon_rcond(c)
        if c is TRUE: return [T(Fraction(1))]
        if c is FALSE: return []
        if c.op == "not":
            return [T(Fraction(1)), T(Fraction(-1), (), {}, (c.args[0],))]
    return [T(Fraction(1), (), {}, (c,))]

_rc_cache = {}
def canon_rcond(c):
    """canonical form of a real comparison: polynomial normal form, fixed sign"""
    ck = (c.id, TM.CTX.rules_version if TM.CTX else 0)
    if ck in _rc_cache: return _rc_cache[ck]
    p = normal(c.args[0])
    k = p.const()
    if k is not None:
        r = TRUE if (k < 0 if c.op == "rlt" else k <= 0 if c.op == "rle" else k == 0) else FALSE
    else:
        k0 = sorted(p.d)[0]; lc = p.d[k0].co
        rr = poly_to_R(p)
        if c.op == "req":
            r = Cond("req", rr if lc > 0 else poly_to_R(scale(p, -1)))
        elif lc > 0: r = Cond(c.op, rr)                     # p<0 / p<=0
        else:                                              # -p > 0  ==  not(-p <= 0)
            q = poly_to_R(scale(p, -1))
            r = Cond("not", Cond("rle" if c.op == "rlt" else "rlt", q))
    _rc_cache[ck] = r
    return r

def scale(p, s):
    return NPoly({k: T(t.co * s, t.b, t.f, t.c, t.done) for k, t in p.d.items()})

_p2r = {}
def poly_to_R(p):
    if p.key in _p2r: return _p2r[p.key]
    tot = TM.ZERO
    for k in sorted(p.d): tot = radd(tot, term_to_R(p.d[k]))
    _p2r[p.key] = tot
    return tot
def term_to_R(t):
    r = R.of(t.co)
    for a in sorted(t.f, key=lambda a: a.key):
        r = rmul(r, rpow(atom_to_R(a), t.f[a]))
    for c in t.c: r = mkite(c, r, TM.ZERO)
    for v, lo, hi in reversed(t.b): r = R("sum", v, lo, hi, r)
    return r
def atom_to_R(a):
    if a.kind == "app": return R("app", a.args[0], a.args[1])
    if a.kind == "int": return R.of(IPoly({((a.args[0], 1),): 1}))
    if a.kind == "poly": return poly_to_R(a.args[0])
    if a.kind == "sqrt": return rsqrt(poly_to_R(a.args[0]))
    if a.kind == "abs": return rabs(poly_to_R(a.args[0]))
    if a.kind == "fn": return rebuild_fn(a.args[0], [poly_to_R(x) for x in a.args[1]])
    if a.kind == "prod": return R("prod", a.args[0], a.args[1], a.args[2], poly_to_R(a.args[3]))
    raise Unsupported(a.kind)

# ---------------------------------------------------------------- special functions
def sqrt_terms(p):
    p = rep(p)
    k = p.const()
    if k is not None: return norm_R(rsqrt(R.of(k)))if k >= 0 and rsqrt(R.of(k)).op == "c" else [T(Fraction(1), (), {Atom("sqrt", p): 1})]
    if len(p.d) == 1:
        (t,) = p.d.values()
        if not t.b and not t.c and t.co > 0:
            # even powers come out as absolute values, provided the coefficient is a perfect square
            c = rsqrt(R.of(t.co))
            if c.op == "c" and t.f and all(e % 2 == 0 for e in t.f.values()):
                out = [T(c.args[0])]
                for a, e in t.f.items():
                    ab = abs_terms(collect([T(Fraction(1), (), {a: 1})]))
                    out = mul_lists(out, pow_list(ab, e // 2))
                return out
    com = {a: e - e % 2 for a, e in common_factor(p).items() if e % 2 == 0} if len(p.d) > 1 else {}
    if com:
        out = sqrt_terms(divide_out(p, com))
        for a, e in com.items(): out = mul_lists(out, pow_list(abs_terms(collect([T(Fraction(1), (), {a: 1})])), e // 2))
        return out
    if TM.CTX is not None:      # sqrt(g h) = sqrt(g) sqrt(h) for counts g > 0
        com = {a: e for a, e in common_factor(p).items() if positive_count(a)}
        if com and not (len(p.d) == 1 and all(not t.b and not t.c and len(t.f) == 1 and t.co == 1 and set(t.f.values()) == {1} for t in p.d.values())):
            out = sqrt_terms(divide_out(p, com))
            for a, e in com.items(): out = mul_lists(out, [T(Fraction(1), (), dict([(Atom("sqrt", collect([T(Fraction(1), (), {a: 1})])), 1)] + ([(a, (e - 1) // 2)] if e != 1 else [])))] if e % 2 else [T(Fraction(1), (), {a: e // 2})])
            return out
    # pull out a square rational content
    cs = [t.co for t in p.d.values()]
    g = cs[0]
    for c in cs[1:]:
        from math import gcd
        g = Fraction(gcd(g.numerator, c.numerator), g.denominator * c.denominator // gcd(g.denominator, c.denominator))
    g = abs(g); s = rsqrt(R.of(g))
    if g != 1 and s.op == "c" and s.args[0] != 0:
        return [T(s.args[0], (), {Atom("sqrt", scale(p, 1 / g)): 1})]
    return [T(Fraction(1), (), {Atom("sqrt", p): 1})]

def abs_terms(p):
    p = rep(p, True)
    k = p.const()
    if k is not None: return [T(abs(k))]
    if len(p.d) == 1:
        (t,) = p.d.values()
        if not t.b and not t.c:
            out = T(abs(t.co)); 
            for a, e in t.f.items():
                if a.kind in ("sqrt", "abs") or e % 2 == 0 or (a.kind == "int" and TM.CTX and TM.CTX.entails(Cond.le(-IPoly({((a.args[0], 1),): 1})))):
                    out.f[a] = e
                else:
                    b = Atom("abs", collect([T(Fraction(1), (), {a: 1})])) if a.kind != "abs" else a
                    if e > 0 and e % 2: 
                        out.f[b] = out.f.get(b, 0) + 1
                        if e > 1: out.f[a] = e - 1
                    else: out.f[b] = e
            return [out]
        if t.b and len(p.d) == 1 and nonneg_term(t): return [clone(t)]
    if len(p.d) > 1 and has_inv(p) and TM.CTX is not None and not _busy[0]:
        den = {}; _busy[0] += 1
        try: Q = TM.CTX._clear_inverses(p, den)
        finally: _busy[0] -= 1
        if Q.is_zero(): return []
        if den and not has_inv(Q):
            out = abs_terms(Q)
            for a, e in den.items():
                D = NPoly({k: t for k, t in collect([T(Fraction(1), (), {a: 1})]).d.items()})
                out = mul_lists(out, [T(Fraction(1) / t.co, t.b, {x: -y for x, y in t.f.items()}, t.c) for t in pow_list(abs_terms(D), e)])
            return out
    com = common_factor(p) if len(p.d) > 1 else {}
    if com:
        out = abs_terms(divide_out(p, com))
        return mul_lists(out, abs_terms(collect([T(Fraction(1), (), dict(com))])))
    if len(p.d) == 1:
        (t,) = p.d.values()
        com = {a: e for a, e in t.f.items() if not (a.syms & {v for v, _, _ in t.b})} if t.b else {}
        if com:
            out = abs_terms(divide_out(p, com))
            return mul_lists(out, abs_terms(collect([T(Fraction(1), (), dict(com))])))
    k0 = sorted(p.d)[0]; lc = abs(p.d[k0].co)
    if p.d[k0].co < 0: p = scale(p, -1)
    if lc != 1: p = scale(p, Fraction(1) / lc)
    return [T(lc, (), {Atom("abs", p): 1})]

def positive_count(a):
    """the atom is an integer polynomial that the context knows to be positive"""
    if a.kind == "int": return TM.CTX.entails(Cond.le(1 - IPoly({((a.args[0], 1),): 1})))
    if a.kind != "poly": return False
    p = IPoly.of(0)
    for t in a.args[0].terms():
        if t.b or t.c or t.co.denominator != 1: return False
        m = IPoly.of(int(t.co))
        for x, e in t.f.items():
            if x.kind != "int" or e < 0 or e > 2: return False
            for _ in range(e): m = m * IPoly({((x.args[0], 1),): 1})
        p = p + m
    return TM.CTX.entails(Cond.le(1 - p))

def nonneg_term(t):
    if t.co < 0: return False
    for a, e in t.f.items():
        if e % 2 == 0 or a.kind in ("sqrt", "abs"): continue
        if a.kind == "int" and TM.CTX and TM.CTX.entails(Cond.le(-IPoly({((a.args[0], 1),): 1}))): continue
        if a.kind == "poly" and all(nonneg_term(x) for x in a.args[0].terms()): continue
        if a.kind == "fn" and a.args[0] in ("exp",): continue
        return False
    return True

def fn_terms(name, ps):
    ps = tuple(rep(p) for p in ps)
    if name == "ipow":
        # base ** symbolic integer: (p)^(k): exponent polynomial split  k = e + c
        k = ps[1].const()
        if k is not None and k.denominator == 1 and k >= 0: return pow_list([clone(t) for t in ps[0].terms()], int(k))
        if ps[0].const() == 1: return [T(Fraction(1))]
        if ps[0].is_zero():                 # 0 ** k = [k = 0]  (k >= 0)
            kp = poly_to_int(ps[1])
            if kp is not None: return guard_terms(Cond.eq(kp))
        kc = ps[1].d.get("", None)
        if kc is not None and kc.co.denominator == 1 and kc.co != 0 and len(ps[1].d) > 1:
            rest = NPoly({q: t for q, t in ps[1].d.items() if q != ""})
            return mul_lists(pow_list([clone(t) for t in ps[0].terms()], int(kc.co)), fn_terms("ipow", (ps[0], rest)))
    if name in ODD:                        # odd about ODD[name] in the first argument
        p = collect([clone(t) for t in ps[0].terms()] + ([T(-ODD[name])] if ODD[name] else [])); ks = sorted(k for k in p.d if k != "") or sorted(p.d)
        if not ks: return []
        if p.d[ks[0]].co < 0:
            q = collect([T(-t.co, t.b, t.f, t.c) for t in p.terms()] + ([T(ODD[name])] if ODD[name] else []))
            return [T(-t.co, t.b, t.f, t.c) for t in fn_terms(name, (q,) + ps[1:])]
    h = FN_REWRITE.get(name)
    if h:
        r = h(*[poly_to_R(p) for p in ps])
        if r is not None: return norm_R(r)
    return [T(Fraction(1), (), {Atom("fn", name, tuple(ps)): 1})]
FN_REWRITE = {}
ODD = {"erfinv": Fraction(0), "t.ppf": Fraction(1, 2)}

def mkprod(lo, hi, var, p):
    """atom (or list of T) for prod_{var in [lo,hi)} p"""
    w = IPoly.of(hi - lo).const()
    nv = f"p{p.depth}"
    return Atom("prod", nv, IPoly.of(lo), IPoly.of(hi), subst_poly(p, {var: IPoly.sym(nv)}) if var != nv else p)

# ---------------------------------------------------------------- R -> list of T
_memo = {}
def norm_R(r):
    ver = TM.CTX.rules_version if TM.CTX else 0
    key = (r.id, ver)
    if key in _memo: return [clone(t) for t in _memo[key].terms()]
    p = collect(_norm(r))
    if len(_memo) > 200000: _memo.clear()
    _memo[key] = p
    return [clone(t) for t in p.terms()]

def _norm(r):
    o, a = r.op, r.args
    if o == "c": return [T(a[0])] if a[0] else []
    if o == "i": return ipoly_terms(a[0])
    if o == "app":
        d = TM.CTX.defs.get(a[0]) if TM.CTX else None
        if d is not None: return norm_R(d(*a[1]))
        return [T(Fraction(1), (), {Atom("app", a[0], a[1]): 1})]
    if o == "+":
        out = []
        for x in a[0]: out += norm_R(x)
        return out
    if o == "*":
        out = [T(Fraction(1))]
        fs = sorted(a[0], key=lambda x: x.op == "+")
        for x in fs:
            out = mul_lists(out, norm_R(x))
            if len(out) > 8: out = collect(out).terms()
        return out
    if o == "^":
        base = norm_R(a[0])
        if a[1] < 0: return pow_list(inv_terms(base), -a[1])
        out = [T(Fraction(1))]
        for _ in range(a[1]): out = collect(mul_lists(out, base)).terms()
        return out
    if o == "sum":
        v, lo, hi, b = a
        nv = fresh("i")
        if needs_range(b, v) and TM.CTX is not None:
            # the range of the summation index matters inside functions of inner sums
            c = TM.CTX; c.push()
            try:
                for f in (Cond.le(lo - IPoly.sym(nv)), Cond.le(IPoly.sym(nv) - hi + 1)):
                    if f is FALSE: return []
                    c.add(f)
                body = norm_R(rsubst(b, {v: IPoly.sym(nv)}))
            finally: c.pop()
        else: body = norm_R(rsubst(b, {v: IPoly.sym(nv)}))
        return [T(t.co, t.b + ((nv, lo, hi),), t.f, t.c) if not t.b else T(t.co, ((nv, lo, hi),) + t.b, t.f, t.c) for t in body]
    if o == "prod":
        v, lo, hi, b = a
        nv = fresh("q")
        p = collect(norm_R(rsubst(b, {v: IPoly.sym(nv)})))
        return [T(Fraction(1), (), {mkprod(lo, hi, nv, p): 1})]
    if o == "ite":
        c = a[0]
        g = guard_terms(c); ng = guard_terms(c.neg()) if c.op in ("le",) else None
        try: A, B = norm_R(a[1]), norm_R(a[2])
        except ZeroDivisionError:
            if TM.CTX is None: raise
            if TM.CTX.entails(c.neg()): return norm_R(a[2])
            if TM.CTX.entails(c): return norm_R(a[1])
            TM.CTX.guard_failed(c)
            raise
        if ng is None:
            ng = [T(Fraction(1))] + [T(-t.co, t.b, t.f, t.c) for t in g]
        return mul_lists(g, A) + mul_lists(ng, B)
    if o == "fn":
        if a[0] == "sqrt": return sqrt_terms(collect(norm_R(a[1][0])))
        if a[0] == "abs": return abs_terms(collect(norm_R(a[1][0])))
        return fn_terms(a[0], tuple(collect(norm_R(x)) for x in a[1]))
    raise Unsupported(o)

_nr = {}
def needs_range(b, v, inside=False):
    """v bounds an inner sum or guard below a function or an inverse of b"""
    if v not in b.syms: return False
    k = (b.id, v, inside)
    if k in _nr: return _nr[k]
    o, a = b.op, b.args
    if o in ("+", "*"): r = any(needs_range(x, v, inside) for x in a[0])
    elif o == "^": r = needs_range(a[0], v, inside or a[1] < 0)
    elif o == "fn": r = any(needs_range(x, v, True) for x in a[1])
    elif o in ("sum", "prod"): r = inside and v in (a[1].syms | a[2].syms) or needs_range(a[3], v, inside)
    elif o == "ite": r = inside and v in a[0].syms or needs_range(a[1], v, inside) or needs_range(a[2], v, inside)
    else: r = False
    _nr[k] = r
    return r
def normal(r): return collect(norm_R(r))

# ---------------------------------------------------------------- simplification of one term
def ranges(t): return [c for v, lo, hi in t.b for c in (Cond.le(lo - IPoly.sym(v)), Cond.le(IPoly.sym(v) - hi + 1))]

def simp(t):
    """-> list of T, each fully simplified"""
    out = []
    work = [t]; steps = 0
    while work:
        t = work.pop()
        steps += 1
        if steps > 20000: raise Unsupported("normalisation does not terminate")
        r = simp1(t)
        if r is None:
            t.done = True; out.append(t)
        else: work += r
    return out

def simp1(t):
    """one simplification step: None if nothing applies, else list of replacement terms"""
    ctx = TM.CTX
    if t.co == 0: return []
    # powers of sqrt/abs atoms
    for a, e in t.f.items():
        if a.kind == "sqrt" and (e >= 2 or e < 0):
            f = dict(t.f); q, r = divmod(e, 2)
            del f[a]
            if r: f[a] = r
            return into([T(t.co, t.b, f, t.c)], pow_list([clone(x) for x in a.args[0].terms()], q))
        if a.kind == "abs" and (e >= 2 or e <= -2):
            f = dict(t.f); q, r = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            del f[a]
            if r: f[a] = r
            return into([T(t.co, t.b, f, t.c)], pow_list([clone(x) for x in a.args[0].terms()], 2 * q))
        if a.kind == "poly" and e > 0:
            f = dict(t.f); del f[a]
            return into([T(t.co, t.b, f, t.c)], pow_list([clone(x) for x in a.args[0].terms()], e))
        if a.kind == "poly" and e < 0:
            i, c0 = shifted_int(a.args[0])
            if i is not None and t.f.get(i, 0) > 0:      # i / (i + c) = 1 - c / (i + c)
                f = dict(t.f); f[i] -= 1; g = dict(f)
                if not f[i]: del f[i]
                g = dict(f); f[a] += 1
                if not f[a]: del f[a]
                return [T(t.co, t.b, f, t.c), T(-c0 * t.co, t.b, g, t.c)]
        if a.kind == "prod":
            r = simp_prod(t, a, e)
            if r is not None: return r
    # guards
    if t.c:
        cs = []
        ch = False
        for c in t.c:
            if c is TRUE: ch = True; continue
            if c is FALSE: return []
            if c.op == "and": cs += c.args; ch = True; continue
            if c.op in ("not",) or (c.op in ("rlt", "rle", "req") and canon_rcond(c) is not c):
                g = guard_terms(c)
                if len(g) == 1 and g[0].c == (c,): cs.append(c); continue
                return mul_lists([T(t.co, t.b, t.f, tuple(x for x in t.c if x is not c))], g, nofresh=True)
            cs.append(c)
        if ch: return [T(t.co, t.b, t.f, tuple(dict.fromkeys(cs)))]
        bn = {v for v, _, _ in t.b}
        # equality guards solving a binder
        for c in t.c:
            if c.op != "eq": continue
            for v, lo, hi in t.b:
                if v not in c.syms: continue
                li = c.args[0].linear_in(v)
                if li is None: continue
                k = li[0].const()
                if k not in (1, -1): continue
                e = IPoly.of(-li[1] * k)
                if any(v in lo2.syms | hi2.syms for _, lo2, hi2 in t.b): continue
                rest = T(t.co, tuple(b for b in t.b if b[0] != v), t.f, tuple(x for x in t.c if x is not c) +
                         tuple(x for x in (Cond.le(lo - e), Cond.le(e - hi + 1)) if x is not TRUE))
                return subst_term_free(rest, {v: e})
        # guards decided by the context
        base = ranges(t)
        for c in t.c:
            others = [x for x in t.c if x is not c and not x.op.startswith("r")]
            if c.op in ("rlt", "rle", "req"):
                if ctx is not None and not (c.syms & bn):
                    if ctx.entails(c, [], real=True): return [T(t.co, t.b, t.f, tuple(x for x in t.c if x is not c))]
                    if ctx.entails(c.neg(), [], real=True): return []
                continue
            if ctx is None: continue
            if ctx.entails(c, base + others): return [T(t.co, t.b, t.f, tuple(x for x in t.c if x is not c))]
            if ctx.entails(c.neg(), base + others): return []
        # range guards on binders
        for c in t.c:
            if c.op != "le": continue
            for n, (v, lo, hi) in enumerate(t.b):
                if v not in c.syms: continue
                li = c.args[0].linear_in(v)
                if li is None: continue
                k = li[0].const()
                if k not in (1, -1): continue
                if any(v in lo2.syms | hi2.syms for _, lo2, hi2 in t.b): continue
                if any(w in li[1].syms for w, _, _ in t.b[n + 1:]) : continue
                if k == 1:       # v <= -rest
                    nh = IPoly.of(1 - li[1]); cnd = Cond.le(nh - hi)      # nh <= hi
                    # the new range [lo, nh) must be non-negative in width
                    if ctx.entails(cnd, base_wo(t, v)):
                        if ctx.entails(Cond.le(lo - nh), base_wo(t, v)):
                            return [T(t.co, t.b[:n] + ((v, lo, nh),) + t.b[n+1:], t.f, tuple(x for x in t.c if x is not c))]
                        ctx.want_split(Cond.le(lo - nh), t)
                    else: ctx.want_split(cnd, t)
                else:            # v >= rest
                    nl = li[1]; cnd = Cond.le(lo - nl)
                    if ctx.entails(cnd, base_wo(t, v)):
                        if ctx.entails(Cond.le(nl - hi), base_wo(t, v)):
                            return [T(t.co, t.b[:n] + ((v, nl, hi),) + t.b[n+1:], t.f, tuple(x for x in t.c if x is not c))]
                        ctx.want_split(Cond.le(nl - hi), t)
                    else: ctx.want_split(cnd, t)
        # free equality guards: substitute in the factors
        for c in t.c:
            if c.op != "eq" or (c.syms & bn): continue
            for s in sorted(c.syms, reverse=True):
                li = c.args[0].linear_in(s)
                if li is None or li[0].const() not in (1, -1): continue
                e = IPoly.of(-li[1] * li[0].const())
                if not (s in T(t.co, t.b, t.f).syms()): break
                if ctx is not None and ctx.is_dim(s) and any(ctx.is_dim(x) is False for x in c.syms): continue
                r = subst_term_free(T(t.co, t.b, t.f), {s: e})
                return [T(x.co, x.b, x.f, x.c + t.c) for x in r]
        for c in t.c:
            if not (c.syms & bn) and ctx is not None and not c.op.startswith("r"): ctx.want_split(c, t)
            elif not (c.syms & bn) and ctx is not None: ctx.want_split(c, t)
    # rewrite rules
    if ctx is not None and ctx.rules:
        r = ctx.apply_rules(t)
        if r is not None: return r
    # binders
    for n, (v, lo, hi) in enumerate(t.b):
        used = any(v in a.syms for a in t.f) or any(v in c.syms for c in t.c) or any(v in l.syms | h.syms for _, l, h in t.b)
        w = IPoly.of(hi - lo)
        if not used:
            if ctx is not None and w.const() is None and not ctx.entails(Cond.le(lo - hi), base_wo(t, v)):
                if ctx.entails(Cond.le(hi - lo), base_wo(t, v)): return []
                ctx.want_split(Cond.le(lo - hi), t); continue
            if w.const() is not None and w.const() <= 0: return []
            return mul_lists([T(t.co, t.b[:n] + t.b[n+1:], t.f, t.c)], ipoly_terms(w), nofresh=True)
        k = w.const()
        if k is not None:
            if k <= 0: return []
            if k <= 6 and not any(v in l.syms | h.syms for _, l, h in t.b):
                out = []
                for j in range(k): out += subst_term_free(T(t.co, t.b[:n] + t.b[n+1:], t.f, t.c), {v: lo + j})
                return out
        if any(v in l.syms | h.syms for _, l, h in t.b) and lo.const() != 0: continue
        if lo.const() != 0:
            nv = fresh("i")
            return [T(x.co, x.b + ((nv, IPoly.of(0), w),), x.f, x.c) for x in
                    subst_term_free(T(t.co, t.b[:n] + t.b[n+1:], t.f, t.c), {v: IPoly.sym(nv) + lo})]
        if counts_down(t, v):       # s -> hi - 1 - s
            nv = fresh("i")
            return [T(x.co, x.b + ((nv, lo, hi),), x.f, x.c) for x in subst_term_free(T(t.co, t.b[:n] + t.b[n+1:], t.f, t.c), {v: hi - 1 - IPoly.sym(nv)})]
        c = hi.d.get((), 0)
        if c and hi.const() is None and abs(c) <= 4 and ctx is not None:
            e = IPoly({m: x for m, x in hi.d.items() if m})
            need = Cond.le(-e) if c > 0 else Cond.le(-hi)
            if ctx.entails(need, base_wo(t, v)):
                out = [T(t.co, t.b[:n] + ((v, lo, e),) + t.b[n+1:], t.f, t.c)]
                rest = T(t.co if c > 0 else -t.co, t.b[:n] + t.b[n+1:], t.f, t.c)
                for j in range(abs(c)):
                    out += subst_term_free(rest, {v: (e + j) if c > 0 else (e - 1 - j)})
                return out
        c = min_offset(t, v) if ctx is not None and hi.const() is None else None
        if c and ctx.entails(Cond.le(-hi), base_wo(t, v)):      # sum of f(s + c): read the entries from 0 on
            nv = fresh("i"); rest = T(t.co, t.b[:n] + t.b[n+1:], t.f, t.c)
            out = [T(x.co, x.b + ((nv, IPoly.of(0), IPoly.of(hi + c)),), x.f, x.c) for x in subst_term_free(rest, {v: IPoly.sym(nv) - c})]
            rest = T(-t.co, rest.b, rest.f, rest.c)
            for j in range(c): out += subst_term_free(rest, {v: IPoly.of(j - c)})
            return out
    return None

def counts_down(t, v):
    """the entries that come first in a fixed order are read with v counting down"""
    g = {}
    for a in t.f:
        if v not in a.syms or a.kind != "app": continue
        for i, x in enumerate(a.args[1]):
            if v not in x.syms: continue
            l = x.linear_in(v); k = l[0].const() if l is not None else None
            if k is None: return False
            g.setdefault((str(a.args[0]), len(a.args[1]), i), set()).add(k > 0)
    for q in sorted(g):
        if len(g[q]) == 1: return False in g[q]
    return False

def min_offset(t, v):
    """smallest c such that v is only read as v + c, v + c', ... with 0 < c <= 4, otherwise None"""
    lo = None
    if any(v in c.syms for c in t.c): return None
    for a in t.f:
        if v not in a.syms: continue
        if a.kind == "int": continue
        if a.kind != "app": return None
        for x in a.args[1]:
            if v not in x.syms: continue
            l = x.linear_in(v)
            if l is None or l[0].const() != 1: return None
            k = l[1].const()
            if k is None or k <= 0 or k > 4: return None
            lo = k if lo is None else min(lo, k)
    return lo

def base_wo(t, v):
    return [c for w, lo, hi in t.b if w != v for c in (Cond.le(lo - IPoly.sym(w)), Cond.le(IPoly.sym(w) - hi + 1))]

def subst_term_free(t, m): return subst_term(t, m, True)

def shifted_int(p):
    """p = i + c for an integer atom i and a constant c"""
    if len(p.d) != 2: return None, None
    i = c = None
    for t in p.terms():
        if t.b or t.c: return None, None
        if not t.f: c = t.co
        elif len(t.f) == 1 and t.co == 1:
            (a, e), = t.f.items()
            if a.kind == "int" and e == 1: i = a
    return (i, c) if i is not None and c is not None else (None, None)

def simp_prod(t, a, e):
    v, lo, hi, p = a.args
    w = IPoly.of(hi - lo)
    k = w.const()
    f = dict(t.f); del f[a]
    if lo.const() != 0 and k is None:
        na = mkprod(IPoly.of(0), w, v, subst_poly(p, {v: IPoly.sym(v) + lo}) if v not in lo.syms else p)
        f[na] = f.get(na, 0) + e
        return [T(t.co, t.b, f, t.c)]
    if k is not None and k <= 64:
        out = [T(t.co, t.b, f, t.c)]
        for j in range(max(k, 0)):
            out = into(out, pow_list([clone(x) for x in subst_poly(p, {v: lo + j}).terms()], e))
        return out
    c = hi.d.get((), 0)
    if c > 0 and c <= 4 and TM.CTX is not None:
        e2 = IPoly({m: x for m, x in hi.d.items() if m})
        if TM.CTX.entails(Cond.le(lo - e2), ranges(t)):
            out = [T(t.co, t.b, f, t.c)]
            na = mkprod(lo, e2, v, p)
            for o in out: o.f = dict(o.f); o.f[na] = o.f.get(na, 0) + e
            for j in range(c):
                out = into(out, pow_list([clone(x) for x in subst_poly(p, {v: e2 + j}).terms()], e))
            return out
    return None

# ---------------------------------------------------------------- collection / canonical keys
def canon(t):
    """rename binders canonically; returns (key without coefficient, T)"""
    d = t.depth()
    if not t.b:
        return _tkey(t), t
    names = [v for v, _, _ in t.b]
    def sig(v):
        s = []
        for a, e in t.f.items():
            if v in a.syms: s.append((a.kind, str(a.args[0]) if a.kind in ("app", "fn") else "", e,
                                      tuple(i for i, x in enumerate(a.args[1]) if isinstance(x, IPoly) and v in x.syms) if a.kind == "app" else ()))
        lo, hi = next((l, h) for w, l, h in t.b if w == v)
        return repr((sorted(map(repr, s)), repr(hi) if not (hi.syms & set(names)) else "?", sorted(c.op for c in t.c if v in c.syms)))
    groups = {}
    for v in names: groups.setdefault(sig(v), []).append(v)
    # refinement: neighbours
    order_groups = [sorted(groups[k]) for k in sorted(groups)]
    total = 1
    for g in order_groups:
        for i in range(2, len(g) + 1): total *= i
    best = None
    if total > 5040: raise Unsupported("too many symmetric bound variables")
    for perm in itertools.product(*[itertools.permutations(g) for g in order_groups]):
        seq = [v for g in perm for v in g]
        m = {v: IPoly.sym(f"b{d}_{i}") for i, v in enumerate(seq)}
        tt = rename(t, m, seq, d)
        k = _tkey(tt)
        if best is None or k < best[0]: best = (k, tt)
    return best

def rename(t, m, seq, d):
    rng = {v: (lo, hi) for v, lo, hi in t.b}
    b = tuple((f"b{d}_{i}", rng[v][0].subst(m), rng[v][1].subst(m)) for i, v in enumerate(seq))
    f = {}
    for a, e in t.f.items():
        s = subst_atom(a, m)
        if s is None: s = a
        if not isinstance(s, Atom):
            if s[0] == "ipoly":
                p = s[1]; (mm, c), = p.d.items(); (ia, _), = mm; s = Atom("int", ia)
            elif s[0] == "fn": s = Atom("fn", s[1], s[2])
            else: s = Atom(s[0], s[1])
        f[s] = f.get(s, 0) + e
    return T(t.co, b, f, tuple(c.subst(m) for c in t.c), True)

def _tkey(t):
    f = "*".join(sorted(a.key + (f"^{e}" if e != 1 else "") for a, e in t.f.items()))
    c = "".join(sorted(f"[{x!r}]" for x in t.c))
    b = "".join(f"S{{{v}<{lo!r}..{hi!r}}}" for v, lo, hi in t.b)
    return b + c + f

def collect(ts):
    d = {}
    for t in ts:
        for s in ([t] if t.done else simp(t)):
            k, u = canon(s)
            if k in d:
                co = d[k].co + u.co
                if co == 0: del d[k]
                else: d[k] = T(co, u.b, u.f, u.c, True)
            elif u.co != 0:
                d[k] = T(u.co, u.b, u.f, u.c, True)
    return NPoly(d)

def reduce_fractions(P):
    """q*p1/p + q*p2/p + ... = q below binders, where p = p1 + p2 + ... (denominators cannot be cleared there)"""
    d = dict(P.d); changed = True; n = 0
    while changed and n < 40:
        changed = False; n += 1
        for k, t in list(d.items()):
            bn = {v for v, _, _ in t.b}
            for a, e in t.f.items():
                if a.kind != "poly" or e >= 0 or not (a.syms & bn): continue
                for l in a.args[0].terms():
                    if l.b or l.c or any(t.f.get(x, 0) < y for x, y in l.f.items() if y > 0) or any(y < 0 for y in l.f.values()): continue
                    f = dict(t.f)
                    for x, y in l.f.items():
                        f[x] -= y
                        if not f[x]: del f[x]
                    g = dict(f); g[a] = g.get(a, 0) + 1
                    if not g[a]: del g[a]
                    ex = [T(-x.co, x.b, x.f, x.c) for x in into([T(t.co / l.co, t.b, f, t.c)], [clone(x) for x in a.args[0].terms()])]
                    new = collect([T(x.co, x.b, x.f, x.c, x.done) for x in d.values()] + ex + [T(t.co / l.co, t.b, g, t.c)])
                    if len(new.d) < len(d): d = dict(new.d); changed = True; break
                if changed: break
            if changed: break
    return NPoly(d) if len(d) < len(P.d) else None
