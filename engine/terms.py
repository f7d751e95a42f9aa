"""Terms of the verifier: integer polynomials (IPoly), conditions (Cond) and real terms (R).

All three double as the values the verified code computes with (operators build terms); truth values of conditions are
decided by the active context (path exploration), never guessed.
"""
from fractions import Fraction
from numbers import Number
import itertools, math, time

class Unsupported(Exception):
    """The code uses something outside the verified subset: the function falls back to the bounded stand-in."""

CTX = None          # active context (set by ctx.Context)
def set_ctx(c):
    global CTX
    CTX = c

_fresh = itertools.count(1)
def fresh(prefix): return f"{prefix}!{next(_fresh)}"

# ---------------------------------------------------------------- integers
class IAtom:
    """sym(name) | div(a,b) | mod(a,b) | floor(R)   (integer valued)"""
    _tab = {}
    __slots__ = ("kind", "args", "key", "syms")
    def __new__(cls, kind, *args):
        key = (kind,) + tuple(a.key if isinstance(a, IPoly) else (("R", a.id) if isinstance(a, R) else a) for a in args)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls); o.kind = kind; o.args = args; o.key = key
            if kind == "sym": o.syms = frozenset([args[0]])
            else: o.syms = frozenset().union(*[a.syms for a in args])
            cls._tab[key] = o
        return o
    def __repr__(self):
        if self.kind == "sym": return self.args[0]
        return f"{self.kind}({','.join(map(repr, self.args))})"

def _skey(m): return tuple((repr(a.key), e) for a, e in m)

class IPoly(Number):
    """Integer polynomial; immutable.  mono = tuple of (IAtom, exp) sorted by key repr."""
    __slots__ = ("d", "_key", "_syms", "_h")
    __array_ufunc__ = None
    __array_priority__ = 1000
    def __init__(self, d): self.d = d; self._key = None; self._syms = None; self._h = None
    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted((tuple((a.key, e) for a, e in m), c) for m, c in self.d.items())) if len(self.d) <= 1 else \
                tuple(sorted(((tuple((a.key, e) for a, e in m), c) for m, c in self.d.items()), key=repr))
        return self._key
    @property
    def syms(self):
        if self._syms is None:
            s = frozenset()
            for m in self.d:
                for a, _ in m: s |= a.syms
            self._syms = s
        return self._syms
    def const(self):
        if not self.d: return 0
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if not m: return c
        return None
    @staticmethod
    def of(x):
        if isinstance(x, IPoly): return x
        if isinstance(x, bool): return IPoly({(): int(x)} if x else {})
        if isinstance(x, int): return IPoly({(): x} if x else {})
        if isinstance(x, R):
            if x.op == "i": return x.args[0]
            if x.op == "c" and x.args[0].denominator == 1: return IPoly.of(x.args[0].numerator)
        if hasattr(x, "__index__") and not isinstance(x, R): return IPoly.of(x.__index__())
        if isinstance(x, float) and x.is_integer(): return IPoly.of(int(x))
        raise Unsupported(f"not an integer: {type(x).__name__}")
    @staticmethod
    def sym(name): return IPoly({((IAtom("sym", name), 1),): 1})
    @staticmethod
    def atom(kind, *args): return IPoly({((IAtom(kind, *args), 1),): 1})
    # arithmetic -----------------------------------------------------------
    def _bin(self, o, f, r=False):
        if isinstance(o, (int, IPoly)) or type(o).__name__ in ("int64", "int32", "bool_"):
            o = IPoly.of(o)
            return f(o, self) if r else f(self, o)
        return NotImplemented
    @staticmethod
    def _add(a, b, s=1):
        d = dict(a.d)
        for m, c in b.d.items():
            v = d.get(m, 0) + s * c
            if v: d[m] = v
            else: d.pop(m, None)
        return icollapse(IPoly(d))
    @staticmethod
    def _mul(a, b):
        d = {}
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                if not m1: m = m2
                elif not m2: m = m1
                else:
                    t = {}
                    for at, e in m1 + m2: t[at] = t.get(at, 0) + e
                    m = tuple(sorted(t.items(), key=lambda ae: repr(ae[0].key)))
                v = d.get(m, 0) + c1 * c2
                if v: d[m] = v
                else: d.pop(m, None)
        return icollapse(IPoly(d))
    def __add__(self, o):
        r = self._bin(o, IPoly._add)
        return r if r is not NotImplemented else R.of(self).__add__(o)
    __radd__ = __add__
    def __sub__(self, o):
        r = self._bin(o, lambda a, b: IPoly._add(a, b, -1))
        return r if r is not NotImplemented else R.of(self).__sub__(o)
    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: IPoly._add(a, b, -1), True)
        return r if r is not NotImplemented else R.of(self).__rsub__(o)
    def __mul__(self, o):
        r = self._bin(o, IPoly._mul)
        if r is not NotImplemented: return r
        if isinstance(o, (list, tuple)): return NotImplemented
        return R.of(self).__mul__(o)
    __rmul__ = __mul__
    def __neg__(self): return IPoly._mul(self, IPoly.of(-1))
    def __pos__(self): return self
    def __truediv__(self, o): return R.of(self).__truediv__(o)
    def __rtruediv__(self, o): return R.of(self).__rtruediv__(o)
    def __floordiv__(self, o):
        if not isinstance(o, (int, IPoly)): return NotImplemented
        return ifloordiv(self, IPoly.of(o))
    def __rfloordiv__(self, o): return ifloordiv(IPoly.of(o), self)
    def __mod__(self, o): return imod(self, IPoly.of(o))
    def __rmod__(self, o): return imod(IPoly.of(o), self)
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, k):
        if isinstance(k, int) and k >= 0:
            r = 1
            for _ in range(k): r = self * r
            return r
        return R.of(self) ** k
    def __rpow__(self, o): return R.of(o).__pow__(self)
    def __abs__(self): return self if CTX.decide(Cond.le(-self)) else -self
    # comparisons ----------------------------------------------------------
    def _cmp(self, o, kind):
        if isinstance(o, (int, IPoly)) or type(o).__name__ in ("int64", "int32", "bool_"):
            o = IPoly.of(o)
            d = IPoly.of(self - o)
            if kind == "<": return mkbool(Cond.le(d + 1))
            if kind == "<=": return mkbool(Cond.le(d))
            if kind == ">": return mkbool(Cond.le(1 - d))
            if kind == ">=": return mkbool(Cond.le(-d))
            if kind == "==": return mkbool(Cond.eq(d))
            return mkbool(Cond.eq(d).neg())
        if isinstance(o, (float, R, Fraction)):
            return R.of(self)._cmp(o, kind)
        if kind == "==": return False
        if kind == "!=": return True
        return NotImplemented
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    def __hash__(self):
        if self._h is None: self._h = hash(self.key)
        return self._h
    def __bool__(self): return CTX.decide(Cond.eq(self).neg())
    def __index__(self): raise Unsupported("symbolic integer used where a concrete one is required")
    def __int__(self): raise Unsupported("int() of a symbolic integer")
    def __float__(self): raise Unsupported("float() of a symbolic integer")
    def item(self): return self
    def astype(self, *a, **k): return self
    ndim = 0; shape = ()
    def is_integer(self): return True
    def subst(self, m):
        """m: dict name -> IPoly/int"""
        if not (self.syms & m.keys()): return self
        tot = IPoly({})
        for mono, c in self.d.items():
            t = IPoly.of(c)
            for a, e in mono:
                v = isubst_atom(a, m)
                for _ in range(e): t = IPoly.of(t * v)
            tot = IPoly.of(tot + t)
        return tot
    def linear_in(self, name):
        """(coef, rest) with self == coef*name + rest, coef an IPoly free of name; None if not linear."""
        co, rest = IPoly({}), IPoly({})
        for m, c in self.d.items():
            k = None
            for i, (a, e) in enumerate(m):
                if name in a.syms:
                    if a.kind != "sym" or e != 1: return None
                    k = i
            if k is None: rest = IPoly.of(rest + IPoly({m: c}))
            else: co = IPoly.of(co + IPoly({m[:k] + m[k+1:]: c}))
        return co, rest
    def __repr__(self):
        if not self.d: return "0"
        out = []
        for m, c in sorted(self.d.items(), key=lambda t: repr(_skey(t[0]))):
            s = "*".join(repr(a) + (f"^{e}" if e > 1 else "") for a, e in m)
            out.append(f"{c}" if not s else (s if c == 1 else (f"-{s}" if c == -1 else f"{c}*{s}")))
        return "+".join(out).replace("+-", "-")

def icollapse(p):
    c = p.const()
    return p if c is None else c

def isubst_atom(a, m):
    if a.kind == "sym":
        return IPoly.of(m[a.args[0]]) if a.args[0] in m else IPoly({((a, 1),): 1})
    if not (a.syms & m.keys()): return IPoly({((a, 1),): 1})
    if a.kind == "div": return IPoly.of(ifloordiv(a.args[0].subst(m), a.args[1].subst(m)))
    if a.kind == "mod": return IPoly.of(imod(a.args[0].subst(m), a.args[1].subst(m)))
    if a.kind == "floor": return IPoly.of(rfloor(rsubst(a.args[0], m)))
    raise Unsupported(a.kind)

def ifloordiv(a, b):
    a, b = IPoly.of(a), IPoly.of(b)
    ca, cb = a.const(), b.const()
    if cb == 0: raise ZeroDivisionError("integer division or modulo by zero")
    if ca is not None and cb is not None: return ca // cb
    if cb is not None:
        if cb == 1: return icollapse(a)
        if cb < 0: return ifloordiv(IPoly.of(-a), IPoly.of(-cb))
        if all(c % cb == 0 for c in a.d.values()): return icollapse(IPoly({m: c // cb for m, c in a.d.items()}))
        q = {m: (c // cb if not m else (c // cb if c >= 0 else -(-c // cb))) for m, c in a.d.items()}; q = {m: c for m, c in q.items() if c}
        if q:                                                                 # floor((b*q + r) / b) = q + floor(r / b)
            rest = {m: c - cb * q.get(m, 0) for m, c in a.d.items()}
            return icollapse(IPoly.of(IPoly(q) + ifloordiv(IPoly({m: c for m, c in rest.items() if c}), IPoly.of(cb))))
    else:
        # exact multiples  (q*b) // b
        q = _exact_div(a, b)
        if q is not None: return icollapse(q)
        if CTX is not None:
            if not CTX.entails(Cond.le(1 - b)):
                if CTX.decide(Cond.eq(b)): raise ZeroDivisionError("integer division or modulo by zero")
                if not CTX.entails(Cond.le(1 - b)): raise Unsupported("floor division by a possibly negative symbol")
            # a = q*b + r with 0 <= r < b : try splitting off multiples of b
            q, r = _split_div(a, b)
            if q is not None and CTX.entails(Cond.le(-IPoly.of(r))) and CTX.entails(Cond.le(IPoly.of(r) - b + 1)): return icollapse(q)
            if q is not None and q.d: return IPoly.of(q + ifloordiv(r, b))
    lead = sorted([(repr(_skey(m)), c) for m, c in a.d.items() if m])
    if lead and lead[-1][1] < 0 and (cb is not None or CTX is not None): return IPoly.of(-1 - ifloordiv(IPoly.of(-a - 1), b))      # floor(-x / b) = -1 - floor((x - 1) / b)
    return IPoly.atom("div", a, b)

def _exact_div(a, b):
    if len(b.d) != 1: return None
    (mb, cb), = b.d.items()
    out = {}
    for m, c in a.d.items():
        t = dict(m)
        for at, e in mb:
            if t.get(at, 0) < e: return None
            t[at] -= e
        if c % cb: return None
        out[tuple(sorted(((x, e) for x, e in t.items() if e), key=lambda ae: repr(ae[0].key)))] = c // cb
    return IPoly(out)

def _split_div(a, b):
    if len(b.d) != 1: return None, None
    q, r = IPoly({}), IPoly({})
    for m, c in a.d.items():
        e = _exact_div(IPoly({m: c}), b)
        if e is None: r = IPoly.of(r + IPoly({m: c}))
        else: q = IPoly.of(q + e)
    return q, r

def imod(a, b): return a - b * ifloordiv(a, b)

# ---------------------------------------------------------------- conditions
class Cond:
    """Immutable boolean term: T/F, le(p) p<=0, eq(p) p==0, rlt(r) r<0, rle(r) r<=0, req(r) r==0, and/or/not, b(name,args)"""
    _tab = {}
    __slots__ = ("op", "args", "id", "syms", "key")
    def __new__(cls, op, *args):
        key = (op,) + tuple(a.key if isinstance(a, IPoly) else (a.id if isinstance(a, (R, Cond)) else
                            (tuple(x.id if isinstance(x, R) else x.key for x in a) if isinstance(a, tuple) else a)) for a in args)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls); o.op = op; o.args = args; o.id = len(cls._tab); o.key = key
            s = frozenset()
            for a in args:
                if isinstance(a, (IPoly, R, Cond)): s |= a.syms
                elif isinstance(a, tuple):
                    for x in a: s |= x.syms
            o.syms = s
            cls._tab[key] = o
        return o
    @staticmethod
    def le(p):
        p = IPoly.of(p); c = p.const()
        if c is not None: return TRUE if c <= 0 else FALSE
        g = 0
        for m, v in p.d.items():
            if m: g = math.gcd(g, v)
        if g > 1:
            k = p.d.get((), 0)
            d = {m: v // g for m, v in p.d.items() if m}
            kk = -((-k) // g)      # ceil(k/g)
            if kk: d[()] = kk
            p = IPoly(d)
        return Cond("le", p)
    @staticmethod
    def eq(p):
        p = IPoly.of(p); c = p.const()
        if c is not None: return TRUE if c == 0 else FALSE
        lead = sorted(p.d.items(), key=lambda t: repr(_skey(t[0])))[-1][1]
        if lead < 0: p = IPoly({m: -v for m, v in p.d.items()})
        g = 0
        for m, v in p.d.items():
            if m: g = math.gcd(g, v)
        if g > 1:
            if p.d.get((), 0) % g: return FALSE
            p = IPoly({m: v // g for m, v in p.d.items()})
        return Cond("eq", p)
    @staticmethod
    def real(kind, r):
        if r.op == "c":
            v = r.args[0]
            return TRUE if (v < 0 if kind == "rlt" else v <= 0 if kind == "rle" else v == 0) else FALSE
        if r.op == "i":
            p = r.args[0]
            return Cond.le(p + 1) if kind == "rlt" else Cond.le(p) if kind == "rle" else Cond.eq(p)
        return Cond(kind, r)
    def neg(self):
        if self is TRUE: return FALSE
        if self is FALSE: return TRUE
        if self.op == "le": return Cond.le(1 - self.args[0])
        if self.op == "rlt": return Cond("rle", -self.args[0])
        if self.op == "rle": return Cond("rlt", -self.args[0])
        if self.op == "not": return self.args[0]
        return Cond("not", self)
    @staticmethod
    def conj(*cs):
        out = []
        for c in cs:
            if c is FALSE: return FALSE
            if c is TRUE: continue
            if c.op == "and": out += [x for x in c.args if x not in out]
            elif all(c is not x for x in out): out.append(c)
        if not out: return TRUE
        return out[0] if len(out) == 1 else Cond("and", *out)
    @staticmethod
    def disj(*cs):
        return Cond.conj(*[c.neg() for c in cs]).neg()
    def subst(self, m):
        if not (self.syms & m.keys()): return self
        o = self.op
        if o == "le": return Cond.le(self.args[0].subst(m))
        if o == "eq": return Cond.eq(self.args[0].subst(m))
        if o in ("rlt", "rle", "req"): return Cond.real(o, rsubst(self.args[0], m))
        if o == "and": return Cond.conj(*[a.subst(m) for a in self.args])
        if o == "or": return Cond.disj(*[a.subst(m) for a in self.args])
        if o == "not": return self.args[0].subst(m).neg()
        if o == "b": return Cond("b", self.args[0], tuple(x.subst(m) if isinstance(x, IPoly) else rsubst(x, m) for x in self.args[1]))
        raise Unsupported(o)
    def __repr__(self):
        o, a = self.op, self.args
        if o == "le": return f"{a[0]!r}<=0"
        if o == "eq": return f"{a[0]!r}==0"
        if o in ("rlt", "rle", "req"): return f"{a[0]!r}{ {'rlt':'<','rle':'<=','req':'=='}[o] }0"
        if o == "not": return f"!({a[0]!r})"
        if o in ("and", "or"): return "(" + f" {o} ".join(map(repr, a)) + ")"
        return f"{o}{a}"
TRUE, FALSE = Cond("T"), Cond("F")

def mkbool(c):
    if c is TRUE: return True
    if c is FALSE: return False
    return SymBool(c)

def cond_of(x):
    if isinstance(x, SymBool): return x.c
    if isinstance(x, Cond): return x
    if isinstance(x, (bool, int)): return TRUE if x else FALSE
    if type(x).__name__ == "bool_": return TRUE if x else FALSE
    if isinstance(x, R) and x.op == "c": return TRUE if x.args[0] != 0 else FALSE
    if isinstance(x, R): return x._cmp(0, "!=").c
    if hasattr(x, "_as_scalar"): return cond_of(x._as_scalar())
    raise Unsupported(f"truth value of {type(x).__name__}")

class SymBool:
    __slots__ = ("c",)
    __array_ufunc__ = None
    __array_priority__ = 1000
    def __init__(self, c): self.c = c
    def __bool__(self): return CTX.decide(self.c)
    def __and__(self, o): return NotImplemented if isarr(o) else mkbool(Cond.conj(self.c, cond_of(o)))
    __rand__ = __and__
    def __or__(self, o): return NotImplemented if isarr(o) else mkbool(Cond.disj(self.c, cond_of(o)))
    __ror__ = __or__
    def __xor__(self, o):
        a, b = self.c, cond_of(o)
        return mkbool(Cond.disj(Cond.conj(a, b.neg()), Cond.conj(a.neg(), b)))
    __rxor__ = __xor__
    def __invert__(self): return mkbool(self.c.neg())
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)): return ~(self ^ o) if not isinstance(self ^ o, bool) else not (self ^ o)
        return R.of(self) == o
    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = object.__hash__
    def item(self): return self
    def _num(self): return mkite(self.c, R.of(1), R.of(0))
    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return R.of(o) - self._num()
    def __int__(self): return 1 if bool(self) else 0
    def __index__(self): return 1 if bool(self) else 0
    def __repr__(self): return f"SymBool({self.c!r})"

def isarr(x): return hasattr(type(x), "_is_symarr")

# ---------------------------------------------------------------- reals
class R(Number):
    """Real term (hash-consed).  Also the scalar value the verified code sees (like a numpy float64)."""
    _tab = {}
    __slots__ = ("op", "args", "id", "syms", "apps")
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 0; shape = (); size = 1; dtype = "f8"
    def __new__(cls, op, *args):
        key = (op,) + tuple(_akey(a) for a in args)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls); o.op = op; o.args = args; o.id = len(cls._tab)
            s, ap = frozenset(), frozenset()
            if op == "app":
                ap = frozenset([args[0]])
                for x in args[1]: s |= x.syms
            elif op == "i":
                s = args[0].syms
                for m in args[0].d:
                    for a, _ in m: ap |= _iapps(a)
            elif op in ("sum", "prod"):
                v, lo, hi, b = args
                s = (b.syms - {v}) | lo.syms | hi.syms; ap = b.apps
            else:
                for a in args:
                    if isinstance(a, R): s |= a.syms; ap |= a.apps
                    elif isinstance(a, (IPoly, Cond)):
                        s |= a.syms
                        if isinstance(a, Cond): ap |= _capps(a)
                    elif isinstance(a, tuple):
                        for x in a:
                            s |= x.syms
                            if isinstance(x, R): ap |= x.apps
            o.syms = s; o.apps = ap
            cls._tab[key] = o
        return o
    @staticmethod
    def of(x):
        if isinstance(x, R): return x
        if isinstance(x, bool): return R("c", Fraction(int(x)))
        if isinstance(x, int): return R("c", Fraction(x))
        if isinstance(x, Fraction): return R("c", x)
        if isinstance(x, float):
            if math.isinf(x): return R("app", "+inf" if x > 0 else "-inf", ())
            if math.isnan(x): return R("app", "nan", ())
            return _float_const(x)
        if isinstance(x, IPoly):
            c = x.const()
            return R("c", Fraction(c)) if c is not None else R("i", x)
        if isinstance(x, SymBool): return x._num()
        if isinstance(x, Cond): return mkite(x, R.of(1), R.of(0))
        if hasattr(x, "_as_scalar"): return R.of(x._as_scalar())
        if type(x).__module__ == "numpy": return R.of(x.item())
        raise Unsupported(f"not a real number: {type(x).__name__}")
    @property
    def isnan_(self): return self.op == "app" and self.args[0] == "nan"
    def _bin(self, o, f):
        if isarr(o): return NotImplemented
        if isinstance(o, (Number, SymBool, Cond)) or hasattr(o, "_as_scalar"): return f(self, R.of(o))
        return NotImplemented
    def __add__(self, o): return self._bin(o, radd)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: radd(a, rmul(R.of(-1), b)))
    def __rsub__(self, o): return self._bin(o, lambda a, b: radd(b, rmul(R.of(-1), a)))
    def __mul__(self, o): return self._bin(o, rmul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, rdiv)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: rdiv(b, a))
    def __neg__(self): return rmul(R.of(-1), self)
    def __pos__(self): return self
    def __abs__(self): return rabs(self)
    def __pow__(self, k): return NotImplemented if isarr(k) else rpow(self, k)
    def __rpow__(self, o): return rpow(R.of(o), self)
    def __floordiv__(self, o): return R.of(rfloor(rdiv(self, R.of(o))))
    def _cmp(self, o, kind):
        if isarr(o): return NotImplemented
        if not (isinstance(o, (Number, SymBool, Cond)) or hasattr(o, "_as_scalar")):
            return False if kind == "==" else True if kind == "!=" else NotImplemented
        o = R.of(o)
        special = {"+inf": math.inf, "-inf": -math.inf, "nan": math.nan}
        a = special.get(self.args[0]) if self.op == "app" else None
        b = special.get(o.args[0]) if o.op == "app" else None
        if a is not None or b is not None:
            x, y = (0.0 if a is None else a), (0.0 if b is None else b)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[kind]
        d = radd(self, rmul(R.of(-1), o))
        if kind == "<": return mkbool(Cond.real("rlt", d))
        if kind == "<=": return mkbool(Cond.real("rle", d))
        if kind == ">": return mkbool(Cond.real("rlt", -d))
        if kind == ">=": return mkbool(Cond.real("rle", -d))
        if kind == "==": return mkbool(Cond.real("req", d))
        return mkbool(Cond.real("req", d).neg())
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    def __hash__(self): return self.id
    def __bool__(self): return CTX.decide(cond_of(self))
    def __float__(self): raise Unsupported("float() of a symbolic real")
    def __int__(self): raise Unsupported("int() of a symbolic real")
    def __len__(self): raise TypeError("object of type 'float' has no len()")
    def item(self): return self
    def copy(self): return self
    def astype(self, *a, **k): return IPoly.of(self) if self.op == "i" and 0 else self
    def conj(self): return self
    @property
    def real(self): return self
    @property
    def T(self): return self
    def __getitem__(self, k): raise TypeError("'float' object is not subscriptable")
    def __repr__(self):
        o, a = self.op, self.args
        if o == "c": return str(a[0])
        if o == "i": return repr(a[0])
        if o == "app": return a[0] + ("[" + ",".join(map(repr, a[1])) + "]" if a[1] else "")
        if o == "+": return "(" + " + ".join(map(repr, a[0])) + ")"
        if o == "*": return "*".join(map(repr, a[0]))
        if o == "^": return f"{a[0]!r}^{a[1]}"
        if o in ("sum", "prod"): return f"{o}({a[0]} in [{a[1]!r},{a[2]!r}): {a[3]!r})"
        if o == "ite": return f"({a[0]!r} ? {a[1]!r} : {a[2]!r})"
        if o == "fn": return f"{a[0]}({','.join(map(repr, a[1]))})"
        return f"{o}{a}"

def _iapps(a):
    if a.kind == "floor": return a.args[0].apps
    s = frozenset()
    if a.kind != "sym":
        for x in a.args:
            for m in x.d:
                for b, _ in m: s |= _iapps(b)
    return s
def _capps(c):
    s = frozenset()
    for a in c.args:
        if isinstance(a, R): s |= a.apps
        elif isinstance(a, Cond): s |= _capps(a)
        elif isinstance(a, IPoly):
            for m in a.d:
                for b, _ in m: s |= _iapps(b)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, R): s |= x.apps
    return s

def _akey(a):
    if isinstance(a, R): return ("R", a.id)
    if isinstance(a, Cond): return ("C", a.id)
    if isinstance(a, IPoly): return a.key
    if isinstance(a, tuple): return tuple(_akey(x) for x in a)
    return a

def _float_const(x):
    """machine arithmetic is treated as mathematical: a double that is the rounding of a simple rational or square root is read as it"""
    q = Fraction(x).limit_denominator(100000)
    if float(q) == x: return R("c", q)
    if abs(x) >= 1e-3:                     # a few roundings away (1 - 0.95)
        q2 = Fraction(x).limit_denominator(2000)
        if q2.denominator > 1 and abs(float(q2) - x) <= 4 * math.ulp(max(1.0, abs(x))): return R("c", q2)
    q2 = Fraction(x * x).limit_denominator(1000)
    if x > 0 and math.sqrt(q2) == x: return rsqrt(R("c", q2))
    if abs(x) < 1e-3:
        q = Fraction(repr(x))
        if float(q) == x and q.denominator < 10 ** 40: return R("c", q)
    return R("c", Fraction(x))

DEADLINE = [None]
def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]: raise TimeoutError("obligation budget")
ZERO, ONE = None, None
def _init():
    global ZERO, ONE
    ZERO, ONE = R("c", Fraction(0)), R("c", Fraction(1))
_init()

SPECIAL = frozenset(("nan", "+inf", "-inf"))
def special(r): return r.op == "app" and r.args[0] in SPECIAL
def _sval(r): return {"nan": math.nan, "+inf": math.inf, "-inf": -math.inf}[r.args[0]]
def _sign(r):
    """sign of a finite term where it can be told"""
    if r.op == "c": return (r.args[0] > 0) - (r.args[0] < 0)
    if CTX is None: return None
    if CTX.entails(Cond.real("rlt", rmul(R.of(-1), r)) if r.op != "i" else Cond.le(1 - r.args[0])): return 1
    if CTX.entails(Cond.real("rlt", r) if r.op != "i" else Cond.le(r.args[0] + 1)): return -1
    return None
def radd(a, b):
    if special(a) or special(b):
        x, y = (_sval(a) if special(a) else 0.0), (_sval(b) if special(b) else 0.0)
        return R.of(x + y)
    if a is ZERO: return b
    if b is ZERO: return a
    if a.op == "c" and b.op == "c": return R("c", a.args[0] + b.args[0])
    if a.op in "ci" and b.op in "ci":
        if all(x.op == "i" or x.args[0].denominator == 1 for x in (a, b)):
            return R.of(IPoly.of(a) + IPoly.of(b))
    la = a.args[0] if a.op == "+" else (a,)
    lb = b.args[0] if b.op == "+" else (b,)
    return R("+", la + lb)
def rmul(a, b):
    if special(a) or special(b):
        if special(a) and special(b): return R.of(_sval(a) * _sval(b))
        if special(b): a, b = b, a
        if a.args[0] == "nan": return a
        if b is ZERO: return R.of(math.nan)
        sg = _sign(b)
        if sg is not None: return R.of(_sval(a) * sg)
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if a.op == "c" and b.op == "c": return R("c", a.args[0] * b.args[0])
    if a.op in "ci" and b.op in "ci":
        if all(x.op == "i" or x.args[0].denominator == 1 for x in (a, b)):
            return R.of(IPoly.of(a) * IPoly.of(b))
    if b.op == "c": a, b = b, a
    if a.op == "c" and b.op == "*" and b.args[0][0].op == "c":
        c = R("c", a.args[0] * b.args[0][0].args[0]); rest = b.args[0][1:]
        if c is ONE: return rest[0] if len(rest) == 1 else R("*", rest)
        return R("*", (c,) + rest)
    la = a.args[0] if a.op == "*" else (a,)
    lb = b.args[0] if b.op == "*" else (b,)
    return R("*", la + lb)
def rdiv(a, b):
    if b is ZERO:
        raise ZeroDivisionError("division by a term that is identically zero")
    if CTX is not None: CTX.note_div(b)
    return rmul(a, rinv(b))
def rinv(b):
    if b.op == "c":
        if b.args[0] == 0: raise ZeroDivisionError("float division by zero")
        return R("c", 1 / b.args[0])
    if b.op == "^": return R("^", b.args[0], -b.args[1]) if b.args[1] != -1 else b.args[0]
    return R("^", b, -1)
def rpow(a, k):
    if isinstance(k, R):
        if k.op == "c": k = k.args[0]
        elif k.op == "i": k = k.args[0]
        else: return rfn("rpow", a, k)
    if isinstance(k, float): k = Fraction(k)
    if isinstance(k, Fraction) and k.denominator == 1: k = int(k)
    if isinstance(k, Fraction):
        if k == Fraction(1, 2): return rsqrt(a)
        if k == Fraction(-1, 2): return rinv(rsqrt(a))
        return rfn("rpow", a, R.of(k))
    if isinstance(k, IPoly):
        c = k.const()
        if c is None:
            if a.op == "c" and a.args[0] == 1: return ONE
            return rfn("ipow", a, R.of(k))
        k = c
    if not isinstance(k, int): k = int(k)
    if k == 0: return ONE
    if k == 1: return a
    if a.op == "c":
        if a.args[0] == 0 and k < 0: raise ZeroDivisionError("0 cannot be raised to a negative power")
        return R("c", a.args[0] ** k)
    if a.op == "^": return rpow(a.args[0], a.args[1] * k)
    return R("^", a, k)
def rsqrt(a):
    if special(a): return a if a.args[0] != "-inf" else R.of(math.nan)
    if a.op == "c":
        n, d = a.args[0].numerator, a.args[0].denominator
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return R("c", Fraction(math.isqrt(n), math.isqrt(d)))
    if a.op == "^" and a.args[1] % 2 == 0: return rpow(rabs(a.args[0]), a.args[1] // 2)
    if a.op == "*":
        cnt = {}
        for x in a.args[0]: cnt[x.id] = (x, cnt.get(x.id, (x, 0))[1] + 1)
        if any(k > 1 for _, k in cnt.values()):
            out, rest = ONE, ONE
            for x, k in cnt.values():
                if k // 2: out = rmul(out, rpow(rabs(x), k // 2))
                if k % 2: rest = rmul(rest, x)
            return rmul(out, rsqrt(rest))
    return R("fn", "sqrt", (a,))
def rabs(a):
    if special(a): return R.of(abs(_sval(a)))
    if a.op == "c": return R("c", abs(a.args[0]))
    return R("fn", "abs", (a,))
def rfn(name, *args):
    return R("fn", name, tuple(R.of(x) for x in args))
def rfloor(r):
    r = R.of(r)
    if r.op == "c": return r.args[0].numerator // r.args[0].denominator
    if r.op == "i": return icollapse(r.args[0])
    # (int)/(int): floor division when the denominator is an integer term
    num, den = _as_intfrac(r)
    if num is not None:
        return ifloordiv(num, den)
    return IPoly.atom("floor", r)
def _as_intfrac(r):
    """r == num/den with integer polynomials, den > 0 entailed; else (None, None)"""
    if r.op == "c": return IPoly.of(r.args[0].numerator), IPoly.of(r.args[0].denominator)
    if r.op == "i": return r.args[0], IPoly.of(1)
    if r.op == "*":
        n, d = IPoly.of(1), IPoly.of(1)
        for f in r.args[0]:
            a, b = _as_intfrac(f)
            if a is None: return None, None
            n, d = IPoly.of(n * a), IPoly.of(d * b)
        return n, d
    if r.op == "^" and r.args[1] == -1 and r.args[0].op == "i": return IPoly.of(1), r.args[0].args[0]
    if r.op == "+":
        n, d = IPoly.of(0), IPoly.of(1)
        for f in r.args[0]:
            a, b = _as_intfrac(f)
            if a is None: return None, None
            if a is not None and b.key == d.key: n = IPoly.of(n + a)
            else: n, d = IPoly.of(n * b + a * d), IPoly.of(d * b)
        return n, d
    return None, None
def mkite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return R("ite", c, a, b)
def rsum(var, lo, hi, body):
    lo, hi = IPoly.of(lo), IPoly.of(hi)
    if body is ZERO: return ZERO
    w = IPoly.of(hi - lo).const()
    if w is not None:
        if w <= 0: return ZERO
        if w <= 4:
            t = ZERO
            for k in range(w): t = radd(t, rsubst(body, {var: lo + k}))
            return t
    if var not in body.syms: return rmul(R.of(hi - lo), body)
    return R("sum", var, lo, hi, body)
def rprod(var, lo, hi, body):
    lo, hi = IPoly.of(lo), IPoly.of(hi)
    w = IPoly.of(hi - lo).const()
    if w is not None:
        if w <= 0: return ONE
        if w <= 64:
            t = ONE
            for k in range(w): t = rmul(t, rsubst(body, {var: lo + k}))
            return t
    return R("prod", var, lo, hi, body)
def app(name, *idx): return R("app", name, tuple(IPoly.of(i) for i in idx))

def rsubst(r, m, memo=None):
    """Substitute integer symbols.  Bound variables are globally fresh, so no capture (sum variables are renamed when m mentions them)."""
    keys = m.keys()
    if not (r.syms & keys): return r
    if memo is None: memo = {}
    k = r.id
    if k in memo: return memo[k]
    o, a = r.op, r.args
    if o == "i": v = R.of(a[0].subst(m))
    elif o == "app": v = R("app", a[0], tuple(x.subst(m) for x in a[1]))
    elif o == "+":
        v = ZERO
        for x in a[0]: v = radd(v, rsubst(x, m, memo))
    elif o == "*":
        v = ONE
        for x in a[0]: v = rmul(v, rsubst(x, m, memo))
    elif o == "^": v = rpow(rsubst(a[0], m, memo), a[1])
    elif o in ("sum", "prod"):
        var, lo, hi, b = a
        mm = m if var not in m else {x: y for x, y in m.items() if x != var}
        nv, nb = var, b
        if any(var in IPoly.of(y).syms for y in mm.values()):
            nv = fresh("i"); nb = rsubst(b, {var: IPoly.sym(nv)})
        nb = rsubst(nb, mm) if mm is not m or nb is not b else rsubst(nb, mm, memo)
        v = (rsum if o == "sum" else rprod)(nv, lo.subst(m), hi.subst(m), nb)
    elif o == "ite":
        v = mkite(a[0].subst(m), rsubst(a[1], m, memo), rsubst(a[2], m, memo))
    elif o == "fn":
        v = rebuild_fn(a[0], [rsubst(x, m, memo) for x in a[1]])
    else: raise Unsupported(o)
    memo[k] = v
    return v

def rebuild_fn(name, args):
    if name == "sqrt": return rsqrt(args[0])
    if name == "abs": return rabs(args[0])
    if name == "ipow": return rpow(args[0], args[1])
    return R("fn", name, tuple(args))

def replace_apps(r, table, memo=None):
    """Replace app(name, idx) by table[name](*idx) (a function returning R), everywhere."""
    if not (r.apps & table.keys()): return r
    if memo is None: memo = {}
    if r.id in memo: return memo[r.id]
    o, a = r.op, r.args
    def ip(p):
        if not any(_iapps(x) & table.keys() for mm in p.d for x, _ in mm): return p
        tot = IPoly({})
        for mm, c in p.d.items():
            t = IPoly.of(c)
            for at, e in mm:
                if at.kind == "floor": w = IPoly.of(rfloor(replace_apps(at.args[0], table)))
                elif at.kind == "div": w = IPoly.of(ifloordiv(ip(at.args[0]), ip(at.args[1])))
                else: w = IPoly({((at, 1),): 1})
                for _ in range(e): t = IPoly.of(t * w)
            tot = IPoly.of(tot + t)
        return tot
    if o == "app":
        idx = tuple(ip(x) for x in a[1])
        v = table[a[0]](*idx) if a[0] in table else R("app", a[0], idx)
    elif o == "i": v = R.of(ip(a[0]))
    elif o == "+":
        v = ZERO
        for x in a[0]: v = radd(v, replace_apps(x, table, memo))
    elif o == "*":
        v = ONE
        for x in a[0]: v = rmul(v, replace_apps(x, table, memo))
    elif o == "^": v = rpow(replace_apps(a[0], table, memo), a[1])
    elif o in ("sum", "prod"): v = (rsum if o == "sum" else rprod)(a[0], ip(a[1]), ip(a[2]), replace_apps(a[3], table, memo))
    elif o == "ite": v = mkite(cond_replace(a[0], table), replace_apps(a[1], table, memo), replace_apps(a[2], table, memo))
    elif o == "fn": v = rebuild_fn(a[0], [replace_apps(x, table, memo) for x in a[1]])
    else: raise Unsupported(o)
    memo[r.id] = v
    return v
def cond_replace(c, table):
    if not (_capps(c) & table.keys()): return c
    o = c.op
    if o in ("rlt", "rle", "req"): return Cond.real(o, replace_apps(c.args[0], table))
    if o == "and": return Cond.conj(*[cond_replace(x, table) for x in c.args])
    if o == "not": return cond_replace(c.args[0], table).neg()
    if o == "b": return Cond("b", c.args[0], tuple(replace_apps(x, table) if isinstance(x, R) else x for x in c.args[1]))
    raise Unsupported("replace in condition")

def alpha(r, memo=None):
    """rename bound variables canonically (by nesting depth); alpha-equal terms become the same object"""
    return _alpha(r, {} if memo is None else memo)[0]
def _alpha(r, memo):
    k = memo.get(r.id)
    if k is not None: return k
    o, a = r.op, r.args; d = 0
    def go(x):
        nonlocal d
        y, e = _alpha(x, memo); d = max(d, e); return y
    if o in ("+", "*"):
        xs = [go(x) for x in a[0]]
        if all(x is y for x, y in zip(xs, a[0])): v = r
        else:
            v = ZERO if o == "+" else ONE
            for x in xs: v = radd(v, x) if o == "+" else rmul(v, x)
    elif o == "^": x = go(a[0]); v = r if x is a[0] else rpow(x, a[1])
    elif o == "ite":
        x, y = go(a[1]), go(a[2]); c = _alpha_cond(a[0], go); v = r if (x is a[1] and y is a[2] and c is a[0]) else mkite(c, x, y)
    elif o == "fn":
        xs = [go(x) for x in a[1]]; v = r if all(x is y for x, y in zip(xs, a[1])) else rebuild_fn(a[0], xs)
    elif o in ("sum", "prod"):
        b = go(a[3]); nv = f"~{d}"; d += 1
        v = (rsum if o == "sum" else rprod)(nv, a[1], a[2], rsubst(b, {a[0]: IPoly.sym(nv)}))
    else: v = r
    memo[r.id] = (v, d)
    return v, d
def _alpha_cond(c, go):
    if c.op in ("rlt", "rle", "req"):
        x = go(c.args[0]); return c if x is c.args[0] else Cond.real(c.op, x)
    return c
