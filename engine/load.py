"""Loading of the verified sources: /repo's current files are parsed, loops and comprehensions are rewritten mechanically so that symbolic
trip counts can be summarised, and the result is executed on symbolic values.  Nothing of a function body is dropped."""
import ast, builtins as B, copy, types, sys, os, math, itertools, operator as _op
from numbers import Number, Integral, Real
from .snp import *
from . import snp, ssp, gmap, names as NAMES, terms as TM, norm as NM
from .ssp import Gen, SymSeq, NS, HOOKS
from .ctx import PathAbort

REPO = os.environ.get("VERIF_REPO", "/repo")
UNROLL = 40

# ---------------------------------------------------------------- sequences of symbolic length
class Many:
    __slots__ = ("n", "fn")
    def __init__(self, n, fn): self.n = I(n); self.fn = fn
class SList(list):
    """a Python list which may also hold runs of symbolic length (items then live in `segs`)"""
    _sl = True
    def __init__(self, it=()): list.__init__(self, it); self.segs = None
    def _sym(self):
        if self.segs is None:
            self.segs = [("one", x) for x in list.__iter__(self)]; list.clear(self)
        return self.segs
    def extend(self, it):
        it = symiter(it)
        if isinstance(it, SymIter):
            n = it.n
            if n.const() is not None: 
                for k in B.range(n.const()): self.append(it.item(I(k)))
                return
            self._sym().append(("many", Many(n, it.item)))
        elif self.segs is not None: self.segs.extend(("one", x) for x in it)
        else: list.extend(self, it)
    def append(self, x):
        if self.segs is not None: self.segs.append(("one", x))
        else: list.append(self, x)
    def symlen(self):
        if self.segs is None: return list.__len__(self)
        n = I(0)
        for k, s in self.segs: n = I(n + (1 if k == "one" else s.n))
        return dim_simplify(n)
    def __len__(self):
        n = self.symlen()
        if isinstance(n, int): return n
        raise Unsupported("len of a symbolic list")
    def __iadd__(self, o): self.extend(o); return self
    def __add__(self, o): r = self.copy(); r.extend(o); return r
    def copy(self):
        r = SList(list.__iter__(self)); r.segs = B.list(self.segs) if self.segs is not None else None
        return r
    def __iter__(self):
        if self.segs is None: return list.__iter__(self)
        if all(k == "one" for k, _ in self.segs): return iter([x for _, x in self.segs])
        raise Unsupported("iteration over a symbolic list")
    def __bool__(self):
        n = self.symlen()
        return n > 0 if isinstance(n, int) else bool(n > 0)
    def __getitem__(self, i):
        if self.segs is None: return SList(list.__getitem__(self, i)) if isinstance(i, slice) else list.__getitem__(self, i)
        if isinstance(i, slice): raise Unsupported("slice of a symbolic list")
        n = I(self.symlen()); i = I(i)
        if i.const() is not None and i.const() < 0: i = I(i + n)
        off = I(0)
        for k, s in self.segs:
            ln = I(1) if k == "one" else s.n
            if ctx().decide(Cond.conj(Cond.le(off - i), Cond.le(i + 1 - off - ln))): return s if k == "one" else s.fn(I(i - off))
            off = I(off + ln)
        raise IndexError("list index out of range")
    def item_at(self, i):
        """item at a symbolic position as a case distinction (numbers and arrays of one shape only)"""
        return self.to_symarr_item(i)
    def to_symarr(self):
        if self.segs is None: return asarr(B.list(list.__iter__(self)))
        parts = []
        for k, s in self.segs:
            if k == "one": parts.append(asarr([s]))
            else:
                x0 = s.fn(S("p0"))
                e0 = x0 if isarr(x0) else asarr(x0)
                def g(i, *r, s=s):
                    x = s.fn(I(i)); x = x if isarr(x) else asarr(x)
                    return x.rsnap()(*r)
                parts.append(SymArr.make((s.n,) + tuple(e0.shape), g, e0.dtype))
        return concat(parts, 0) if len(parts) > 1 else parts[0]
    __hash__ = None

_old_asarr = snp.asarr
def _asarr(x, dtype=None):
    if isinstance(x, SList) and x.segs is not None:
        a = x.to_symarr()
        return a if dtype is None or DType(dtype) == a.dtype else a.astype(dtype)
    if isinstance(x, SymIter) or isinstance(x, SymRange):
        l = SList(); l.extend(x); return l.to_symarr()
    return _old_asarr(x, dtype)
snp.asarr = _asarr
for _m in (snp, ssp): _m.__dict__["asarr"] = _asarr
asarr = _asarr

class SymIter:
    def __init__(self, n, item): self.n = I(n); self.item = item
    def __iter__(self):
        c = self.n.const()
        if c is None: raise Unsupported("iteration over a symbolic sequence")
        return iter([self.item(I(k)) for k in B.range(c)])
class SymRange:
    def __init__(self, lo, hi, st=1):
        self.lo, self.hi, self.st = I(lo), I(hi), st
        n = I(self.hi - self.lo) if st == 1 else I(self.lo - self.hi) if st == -1 else I((self.hi - self.lo + (st - 1)) // st) if st > 0 else I((self.lo - self.hi + (-st - 1)) // (-st))
        if n.const() is not None: n = I(max(n.const(), 0))
        elif not ctx().decide(Cond.le(-n)): n = I(0)
        self.n = n
    def item(self, k): return simpint(I(self.lo + I(k) * self.st))
    def symlen(self): return dim_simplify(self.n)
    def __iter__(self):
        c = self.n.const()
        if c is None: raise Unsupported("iteration over a symbolic range")
        return iter([self.item(k) for k in B.range(c)])
    def __len__(self):
        c = self.n.const()
        if c is None: raise Unsupported("len of a symbolic range")
        return c
    def __getitem__(self, k): return self.item(k)
def simpint(p):
    c = p.const()
    return c if c is not None else p
def symiter(x):
    """SymIter when the length is symbolic, otherwise the object itself"""
    if isinstance(x, SymIter): return x if x.n.const() is None else iter(x)
    if isinstance(x, SymRange): return SymIter(x.n, x.item) if x.n.const() is None else x
    if isinstance(x, SymSeq): return SymIter(x.n, lambda k: x[k]) if x.n.const() is None else x
    if isarr(x) and x.ndim and not isinstance(x.shape[0], int):
        return SymIter(x.shape[0], lambda k: _row(x, k))
    if isinstance(x, SList) and x.segs is not None:
        if len(x.segs) == 1 and x.segs[0][0] == "many": return SymIter(x.segs[0][1].n, x.segs[0][1].fn)
        if all(k == "one" for k, _ in x.segs): return [v for _, v in x.segs]
        raise Unsupported("iteration over a mixed symbolic list")
    if isinstance(x, SEnum): 
        it = symiter(x.it)
        if isinstance(it, SymIter): return SymIter(it.n, lambda k: (simpint(I(k + x.start)), it.item(k)))
        return B.enumerate(it, x.start)
    if isinstance(x, SZip):
        its = [symiter(i) for i in x.its]
        if any(isinstance(i, SymIter) for i in its):
            if not all(isinstance(i, SymIter) for i in its): raise Unsupported("zip of symbolic and concrete sequences")
            n = its[0].n
            for i in its[1:]:
                if not dim_eq(i.n, n): raise Unsupported("zip of different lengths")
            return SymIter(n, lambda k: tuple(i.item(k) for i in its))
        return B.zip(*its)
    if isinstance(x, SMap):
        its = [symiter(i) for i in x.its]
        if any(isinstance(i, SymIter) for i in its):
            if len(its) != 1: raise Unsupported("map over several symbolic sequences")
            return SymIter(its[0].n, lambda k: x.f(its[0].item(k)))
        return B.map(x.f, *its)
    if isinstance(x, SRev):
        it = symiter(x.it)
        if isinstance(it, SymIter): return SymIter(it.n, lambda k: it.item(I(it.n - 1 - k)))
        return B.reversed(it if hasattr(it, "__reversed__") or hasattr(it, "__len__") else B.list(it))
    return x
def _row(x, k):
    # element access inside the range: no bounds decision needed
    newshape, amap, _ = x._view((slice(None),))if False else (None, None, None)
    k = I(k)
    amap = {0: ("fix", k)}
    for a in B.range(1, x.ndim): amap[a] = ("ax", a - 1, I(0), 1)
    if x.ndim == 1: 
        v = x.at(k); return mkbool(v) if isinstance(v, Cond) else v
    return x._compose(list(x.shape[1:]), amap)
class SEnum:
    def __init__(self, it, start=0): self.it, self.start = it, start
    def __iter__(self): return iter(_native(self))
class SZip:
    def __init__(self, *its): self.its = its
    def __iter__(self): return iter(_native(self))
class SMap:
    def __init__(self, f, *its): self.f, self.its = f, its
    def __iter__(self): return iter(_native(self))
    def __next__(self): raise Unsupported("next(map)")
class SRev:
    def __init__(self, it): self.it = it
    def __iter__(self): return iter(_native(self))
def _native(x):
    it = symiter(x)
    if isinstance(it, SymIter): raise Unsupported("iteration over a symbolic sequence")
    return it

# ---------------------------------------------------------------- substitution of loop indices in values
def subst_val(v, m):
    """value with integer symbols replaced (m: name -> IPoly); arrays are read through placeholders so that nothing is captured"""
    if isinstance(v, R): return rsubst(v, m)
    if isinstance(v, IPoly): return simpint(v.subst(m))
    if isinstance(v, SymBool): return mkbool(v.c.subst(m))
    if isinstance(v, Cond): return v.subst(m)
    if isarr(v):
        f = v.snap(); nd = v.ndim
        ph = [fresh("ph") for _ in B.range(nd)]
        body = f(*[S(p) for p in ph])
        def g(*idx):
            mm = dict(m); mm.update(zip(ph, idx))
            return rsubst(body, mm) if isinstance(body, R) else body.subst(mm)
        r = SymArr.make([I(s).subst(m) for s in v.shape], g, v.dtype)
        r.buf.order = v.buf.order if v.is_order(v.buf.order) else "C"
        return r
    if isinstance(v, tuple): return tuple(subst_val(x, m) for x in v)
    return v
def depends(v, names):
    if isinstance(v, R): return bool(v.syms & names)
    if isinstance(v, IPoly): return bool(v.syms & names)
    if isinstance(v, SymBool): return bool(v.c.syms & names)
    if isarr(v):
        b = v.snap()(*[S(f"dep{k}") for k in B.range(v.ndim)])
        return bool(b.syms & names) or any(I(s).syms & names for s in v.shape)
    return False

class Poison:
    """value of a variable that is not tracked by a loop summary; any use is outside the verified subset"""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("use of a value not tracked by a loop summary")
    def _no(self, *a, **k): raise Unsupported("use of a value not tracked by a loop summary")
    __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __matmul__ = __rmatmul__ = __pow__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = __iadd__ = __isub__ = __imul__ = __float__ = __int__ = _no
    def __eq__(self, o): raise Unsupported("use of a value not tracked by a loop summary")
    __hash__ = object.__hash__
POISON = Poison()
UNBOUND = object()

# ---------------------------------------------------------------- heap state
def reach(roots):
    """mutable cells reachable from the roots: id -> object"""
    seen = {}; todo = list(roots)
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (int, float, str, bytes, bool, R, IPoly, SymBool, Cond, Poison)): continue
        if id(o) in seen: continue
        if isarr(o):
            seen[id(o)] = o; 
            if id(o.buf) not in seen: seen[id(o.buf)] = o.buf
            continue
        if isinstance(o, Buf): seen[id(o)] = o; continue
        if isinstance(o, Gen): seen[id(o)] = o; continue
        if isinstance(o, SList):
            seen[id(o)] = o
            todo += [x for x in list.__iter__(o)]
            if o.segs: todo += [x for k, x in o.segs if k == "one"]
            continue
        if isinstance(o, dict): seen[id(o)] = o; todo += list(o.values()); continue
        if isinstance(o, (tuple, frozenset, set)): seen[id(o)] = o; todo += list(o); continue
        if isinstance(o, list): seen[id(o)] = o; todo += list(o); continue
        if isinstance(o, types.FunctionType):
            seen[id(o)] = o
            for c in (o.__closure__ or ()):
                try: seen[id(c)] = c; todo.append(c.cell_contents)
                except ValueError: pass
            continue
        if isinstance(o, types.MethodType): todo.append(o.__self__); seen[id(o)] = o; continue
        if isinstance(o, types.CellType):
            seen[id(o)] = o
            try: todo.append(o.cell_contents)
            except ValueError: pass
            continue
        if isinstance(o, (type, types.ModuleType, NS)): continue
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict) and not getattr(type(o), "_opaque_ghost", False):
            seen[id(o)] = o; todo += list(d.values())
    return seen
def snapshot(objs):
    s = {}
    for k, o in objs.items():
        if isinstance(o, Buf): s[k] = ("buf", o, o.fn)
        elif isarr(o): s[k] = ("arr", o, (o.buf, o._shape, o.maps))
        elif isinstance(o, Gen): s[k] = ("gen", o, (o.segs, o.spawned))
        elif isinstance(o, SList): s[k] = ("slist", o, (list(list.__iter__(o)), list(o.segs) if o.segs is not None else None))
        elif isinstance(o, dict): s[k] = ("dict", o, dict(o))
        elif isinstance(o, list): s[k] = ("list", o, list(o))
        elif isinstance(o, types.CellType):
            try: s[k] = ("cell", o, o.cell_contents)
            except ValueError: pass
        elif isinstance(o, (tuple, frozenset, set, types.FunctionType, types.MethodType)): pass
        elif hasattr(o, "__dict__"): s[k] = ("obj", o, dict(o.__dict__))
    return s
def restore(s):
    for kind, o, v in s.values():
        if kind == "buf": o.fn = v
        elif kind == "arr": o.buf, o._shape, o.maps = v
        elif kind == "gen": o.segs, o.spawned = v
        elif kind == "slist": list.clear(o); list.extend(o, v[0]); o.segs = list(v[1]) if v[1] is not None else None
        elif kind == "dict": o.clear(); o.update(v)
        elif kind == "list": o[:] = v
        elif kind == "cell": o.cell_contents = v
        elif kind == "obj": o.__dict__.clear(); o.__dict__.update(v)

def same_val(a, b):
    if a is b: return True
    if isarr(a) or isarr(b): return isarr(a) and isarr(b) and a.buf is b.buf and [I(x).key for x in a._shape] == [I(x).key for x in b._shape] and _mapkey(a) == _mapkey(b)
    if isinstance(a, (IPoly, int)) and isinstance(b, (IPoly, int)) and type(a) is not bool and type(b) is not bool: return I(a).key == I(b).key
    if isinstance(a, SymBool) and isinstance(b, SymBool): return a.c is b.c
    if isinstance(a, (R, float, int)) and isinstance(b, (R, float, int)):
        try: return R.of(a) is R.of(b)
        except Unsupported: return False
    if type(a) is type(b) and isinstance(a, (str, bytes, bool, types.NoneType)): return a == b
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType): return a.__self__ is b.__self__ and a.__func__ is b.__func__
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return False
def _mapkey(a): return [tuple(x.key if isinstance(x, IPoly) else x for x in m) if m[0] != "fn" else id(m[1]) for m in a.maps]
def isnum(x): return isinstance(x, (R, IPoly, int, float)) and not isinstance(x, bool)
def isint(x): return isinstance(x, (IPoly, int)) and not isinstance(x, bool)

# ---------------------------------------------------------------- summarised loops
class Cell:
    """kind: int / real / arr (array-valued slot) / buf (array contents) / gen / list / temp"""
    def __init__(self, key, kind, old, new=None): self.key = key; self.kind = kind; self.old = old; self.new = new; self.tmpl = None; self.name = None
LOOPSTATS = {"loops": 0}

class Loop:
    """drives `while L.enter(locals()): ...` of the transformed code"""
    def __init__(self, eng, it=None, label="", names=()):
        self.eng = eng; self.it = it; self.phase = "start"; self.vals = {}; self.n_unrolled = 0
        self.label = label; self.names = names; self.inv = eng.invariants.get(label) if eng.invariants else None
        self.broke = False; self.roots = list(eng.roots)
    # the locals as the loop wants them
    def has(self, name): return name in self.vals
    def get(self, name):
        v = self.vals.get(name, UNBOUND)
        return v
    def brk(self):
        if self.phase == "inv-body": self.vals = {}; return
        raise Unsupported("break inside a summarised loop")
    def ret(self):
        if self.phase in ("start", "unrolled", "generic", "inv-body"): return
        raise Unsupported("return inside a summarised loop")
    def item(self): return self.cur
    # ------------------------------------------------------------
    def enter(self, loc):
        loc = {k: v for k, v in loc.items() if not k.startswith("_vl_")}
        c = ctx()
        if self.inv is not None:
            fn = self.label.rsplit(":", 1)[0]; self.alias = NAMES.aliases(fn, _LOCALS.get(fn))
            if self.alias: self.eng.aliased = True; loc.update({a: loc[b] for a, b in self.alias.items() if b in loc})
            return self.inv_enter(loc)
        if self.it is None and self.phase in ("start", "unrolled"):     # a while loop starts natively
            self.phase = "unrolled"; self.n_unrolled += 1
            if self.n_unrolled > UNROLL: raise Unsupported("while loop unrolled too often")
            self.vals = {}; self.loc = loc
            if self.n_unrolled == 1 and self.eng.from_start:
                self.first = (dict(loc), snapshot(reach(list(loc.values()) + self.roots)))
            return True
        if self.phase == "generic": self.phase = "end"; self.vals = {}; return False
        if self.phase == "start" and self.eng.generic is not None:
            # one generic iteration, for harnesses that argue per iteration (ownership); the state afterwards is that of this iteration alone
            g, self.eng.generic = self.eng.generic, None
            self.N = self.it.n; g["N"] = self.N; t = fresh("g"); ctx().dims.add(t); g["t"] = S(t); ctx().add(Cond.le(-S(t)))
            if not ctx().decide(Cond.le(S(t) + 1 - self.N)): raise PathAbort("empty loop")
            self.cur = self.it.item(S(t)); self.phase = "generic"; self.vals = {}
            return True
        if self.phase == "start":
            LOOPSTATS["loops"] += 1
            self.N = self.it.n
            if c.nosplit:
                if not c.entails(Cond.le(1 - self.N)): raise Unsupported("possibly empty nested loop")
            elif not c.decide(Cond.le(1 - self.N)):
                self.vals = {}; self.phase = "end"; return False
            self.begin(loc)
            return True
        if self.phase == "redo": self.phase = "A"; return True
        if self.phase == "A": self.endA(loc); return True
        if self.phase == "B":
            self.endB(loc); return True
        if self.phase == "C":
            self.endC(loc)
            if self.it is None: return True
            return False
        if self.phase in ("last", "final"): return True
        if self.phase == "exit": self.phase = "end"; return False
        if self.phase == "end": return False
        raise Unsupported("loop phase " + self.phase)
    # ------------------------------------------------------------ loops with an invariant given by the contract
    def inv_enter(self, loc):
        """the rule for loops: the invariant holds on entry; an arbitrary state that satisfies it is carried by one iteration to a state that
        satisfies it (one path); the code after the loop runs from an arbitrary state that satisfies it and the negated condition (another path)"""
        c = ctx()
        if self.phase == "start":
            LOOPSTATS["loops"] += 1
            if c.nosplit: raise Unsupported("loop with an invariant inside a summarised loop")
            if self.it is not None: self.N = I(self.it.n); c.decide(Cond.le(-self.N)) or self._none()
            self.inv.check(loc, I(0))
            body = c.choose(f"inv:{self.label}", 2) == 0
            if self.it is not None:
                if body:
                    t = fresh("t"); self.t = t; c.dims.add(t); c.add(Cond.le(-S(t)))
                    if not c.decide(Cond.le(S(t) + 1 - self.N)): raise PathAbort("no iteration")
                    k = S(t); self.k = k
                else: k = self.N
            else: k = None; self.k = None
            heap = reach(list(loc.values()) + self.roots); s0 = snapshot(heap)
            new = {self.alias.get(x, x): y for x, y in self.inv.havoc(loc, k).items()}
            self.vals = {n: new[n] if n in new else (POISON if n in loc else UNBOUND) for n in self.names}
            self.vals = {n: v for n, v in self.vals.items() if v is not UNBOUND}
            for n in new:
                if n not in self.names and not same_val(new[n], loc.get(n)): raise Unsupported("invariant about a variable the loop does not assign")
            self.before = snapshot(heap); self.heap = heap; self.declared = {kk: self._changed(s0.get(kk), self.before.get(kk)) for kk in s0}
            self.eng.loops.append(self)
            if body:
                self.phase = "inv-body"
                if self.it is not None: self.cur = self.it.item(self.k)
                return True
            if self.it is not None: self.phase = "end"; return False
            self.phase = "inv-exit"; return True
        if self.phase == "inv-body":
            now = snapshot(self.heap)
            for kk, a in self.before.items():
                ch = self._changed(a, now.get(kk))
                if ch - self.declared.get(kk, set()): raise Unsupported(f"the loop changes {sorted(map(str, ch - self.declared.get(kk, set())))[:3]} of an object, which the invariant does not mention")
            self.inv.check(loc, I(self.k + 1) if self.k is not None else None)
            raise PathAbort("iteration verified")
        if self.phase == "end": return False
        raise Unsupported("loop phase " + self.phase)
    def _none(self): self.N = I(0)
    @staticmethod
    def _changed(a, b):
        if a is None or b is None: return set()
        kind, o, v = a; w = b[2]
        if kind == "buf": return {"contents"} if v is not w else set()
        if kind == "arr": return {"shape"} if v[0] is not w[0] or len(v[1]) != len(w[1]) or not all(I(x).key == I(y).key for x, y in zip(v[1], w[1])) else set()
        if kind == "gen": return {"stream"} if v != w else set()
        if kind in ("obj", "dict"): return {k for k in set(v) | set(w) if k not in v or k not in w or not same_val(v[k], w[k])}
        if kind == "slist": return {"items"} if not (len(v[0]) == len(w[0]) and all(same_val(x, y) for x, y in zip(v[0], w[0])) and v[1] == w[1]) else set()
        if kind == "list": return {"items"} if len(v) != len(w) or not all(same_val(x, y) for x, y in zip(v, w)) else set()
        return set()
    def begin(self, loc):
        c = ctx()
        self.t = fresh("t"); c.nosplit += 1
        self.loc0 = loc
        self.heap0 = reach(list(loc.values()) + self.roots); self.snap0 = snapshot(self.heap0)
        self.start_generic("A")
        self.vals = {}
    def start_generic(self, phase):
        c = ctx(); self.phase = phase
        c.push(); c.add(Cond.le(-S(self.t))); c.add(Cond.le(S(self.t) + 1 - self.N))
        if self.it is not None: self.cur = self.it.item(S(self.t))
    def cond(self, v):
        """value of a while condition"""
        c = ctx()
        if self.phase == "inv-body":
            self.vals = {}
            if isinstance(v, SymBool):
                if not c.decide(v.c): raise PathAbort("no iteration")
                return True
            if not v: raise PathAbort("no iteration")
            return True
        if self.phase == "inv-exit":
            self.phase = "end"; self.vals = {}
            if isinstance(v, SymBool):
                if c.decide(v.c): raise PathAbort("another iteration")
            elif v: raise PathAbort("another iteration")
            return False
        if self.phase == "unrolled":
            if isinstance(v, SymBool):
                if c.entails(v.c, real=c._isreal(v.c)): return True
                if c.entails(v.c.neg(), real=c._isreal(v.c)): return False
                # undecided: summarise from here
                LOOPSTATS["loops"] += 1
                s = fresh("N"); c.dims.add(s); self.N = S(s); c.add(Cond.le(-self.N))
                if c.nosplit: raise Unsupported("nested while loop")
                if not c.decide(v.c): return False
                c.add(Cond.le(1 - self.N))
                if self.n_unrolled > 1:
                    Engine.LATE = True
                    if self.eng.from_start:
                        # the whole loop is summarised, the iterations run so far included
                        restore(self.first[1]); k = self.n_unrolled - 1; self.n_unrolled = 1; self.N = I(self.N + k); self.loc = self.first[0]
                self.begin(self.loc); self.loc0 = self.loc
                if getattr(self, "first", None) and self.loc is self.first[0]: self.phase = "redo"; self.vals = dict(self.loc); return None
                c.nosplit -= 0
                return True
            return bool(v)
        if self.phase in ("A", "B", "C"):
            if self.phase == "C": self.held = v.c if isinstance(v, SymBool) else None
            if isinstance(v, SymBool): c.add(v.c)
            elif not v: raise PathAbort("loop condition false in the generic iteration")
            return True
        if self.phase == "last":
            # state before the last iteration: the condition held
            if isinstance(v, SymBool): c.assume(v.c)
            elif not v: raise PathAbort("loop condition")
            self.state_at(self.N); self.phase = "final"
            return None
        if self.phase == "final":
            self.phase = "end"
            if isinstance(v, SymBool): c.assume(v.c.neg())
            elif v: raise PathAbort("loop condition")
            return False
        raise Unsupported("loop phase " + self.phase)
    # ------------------------------------------------------------ phase A: which cells change
    def endA(self, loc):
        c = ctx(); c.pop()
        objs1 = reach(list(loc.values()) + self.roots)
        now = snapshot({k: o for k, o in self.heap0.items()})
        cells = []
        for n, v in loc.items():
            if n not in self.loc0:
                cells.append(Cell(("loc", n), "temp", UNBOUND, v)); continue
            if not same_val(self.loc0[n], v): cells.append(self.classify(("loc", n), self.loc0[n], v))
        for n in self.loc0:
            if n not in loc: raise Unsupported("variable deleted in a loop")
        for k, (kind, o, v) in self.snap0.items():
            v1 = now[k][2]
            if kind == "buf":
                if v is not v1: cells.append(Cell(("buf", k), "buf", v, v1))
            elif kind == "arr":
                if v[0] is not v1[0]: raise Unsupported("array rebinding in a loop")
            elif kind == "gen":
                if v != v1: cells.append(Cell(("gen", k), "gen", v, v1))
            elif kind == "slist":
                if not (len(v[0]) == len(v1[0]) and (v[1] is None) == (v1[1] is None) and all(same_val(a, b) for a, b in zip(v[0], v1[0])) and (v[1] is None or v[1] == v1[1])):
                    cells.append(Cell(("list", k), "list", v, v1))
            elif kind in ("dict", "obj"):
                for a in set(v) | set(v1):
                    if a not in v: cells.append(Cell(("attr", k, a), "temp", UNBOUND, v1[a])); continue
                    if a not in v1: raise Unsupported("attribute deleted in a loop")
                    if not same_val(v[a], v1[a]): cells.append(self.classify(("attr", k, a), v[a], v1[a]))
            elif kind == "cell":
                if not same_val(v, v1):
                    # closure cell of a local variable: covered by the local's cell
                    nm = [x for x in self.loc0 if self.loc0[x] is v]
                    if not nm: raise Unsupported("closure variable changed in a loop")
            elif kind == "list":
                if len(v) != len(v1) or not all(same_val(a, b) for a, b in zip(v, v1)): raise Unsupported("list changed in a loop")
        self.cells = cells
        for k, cell in enumerate(cells): cell.name = f"H{k}@{self.t}"
        restore(self.snap0)
        self.havoc()
        self.start_generic("B")
    def classify(self, key, a, b):
        if isint(a) and isint(b): return Cell(key, "int", a, b)
        if isnum(a) and isnum(b): return Cell(key, "real", a, b)
        if isarr(a) and isarr(b) and a.ndim == b.ndim and all(I(x).key == I(y).key for x, y in zip(a.shape, b.shape)):
            return Cell(key, "arr", a, b)
        return Cell(key, "temp", a, b)
    def obj(self, k): return self.snap0[k][1]
    def put(self, cell, value):
        k = cell.key
        if k[0] == "loc": self.vals[k[1]] = value
        elif k[0] == "attr":
            o = self.obj(k[1])
            if isinstance(o, dict): o[k[2]] = value
            else: o.__dict__[k[2]] = value
        elif k[0] == "buf": self.obj(k[1]).fn = value
        elif k[0] == "gen": g = self.obj(k[1]); g.segs, g.spawned = value
        elif k[0] == "list":
            l = self.obj(k[1]); list.clear(l); list.extend(l, value[0]); l.segs = value[1]
    def read(self, cell, loc):
        k = cell.key
        if k[0] == "loc": return loc.get(k[1], UNBOUND)
        if k[0] == "attr":
            o = self.obj(k[1]); d = o if isinstance(o, dict) else o.__dict__
            return d.get(k[2], UNBOUND)
        if k[0] == "buf": return self.obj(k[1]).fn
        if k[0] == "gen": g = self.obj(k[1]); return (g.segs, g.spawned)
        if k[0] == "list": l = self.obj(k[1]); return (list(list.__iter__(l)), list(l.segs) if l.segs is not None else None)
    def havoc(self):
        t = S(self.t); self.vals = {}
        for cell in self.cells:
            if cell.kind == "int":
                d = I(cell.new) - I(cell.old)
                cell.tmpl = lambda T, o=I(cell.old), d=I(d): simpint(I(o + d * T))
                if set(I(d).syms) & {self.t}: cell.kind = "temp"; cell.tmpl = None; self.put(cell, POISON); continue
                self.put(cell, cell.tmpl(t))
            elif cell.kind == "real": self.put(cell, app(cell.name, t))
            elif cell.kind == "arr":
                a = SymArr.make(cell.old.shape, lambda *i, n=cell.name: app(n, t, *i), cell.old.dtype, cell.old.buf.order); self.put(cell, a)
            elif cell.kind == "buf": 
                b = self.obj(cell.key[1])
                if b.dtype == B1: raise Unsupported("boolean array changed in a loop")
                self.put(cell, memo_fn(lambda *i, n=cell.name: app(n, t, *i)))
            elif cell.kind == "gen":
                (s0, p0), (s1, p1) = cell.old, cell.new
                if len(s1) == len(s0) + 1 and s1[:-1] == s0: base = s0 + ((s1[-1][0], I(0)),)
                elif len(s1) == len(s0) and s1[:-1] == s0[:-1] and s1 and s1[-1][0] == s0[-1][0]: base = s0
                elif s1 == s0: base = s0
                else: raise Unsupported("random draws of several kinds in a loop")
                d = I(s1[-1][1] - base[-1][1]) if s1 else I(0); dp = I(p1 - p0)
                if (d.syms | dp.syms) & {self.t}: raise Unsupported("varying number of random draws")
                if base is not s0: cell.norm0 = (base, p0)
                cell.tmpl = lambda T, base=base, d=d, p0=p0, dp=dp: (base[:-1] + ((base[-1][0], I(base[-1][1] + d * T)),) if base else base, I(p0 + dp * T))
                self.put(cell, cell.tmpl(t))
            elif cell.kind == "list":
                (i0, s0), (i1, s1) = cell.old, cell.new
                o = ([("one", x) for x in i0] if s0 is None else s0); n = ([("one", x) for x in i1] if s1 is None else s1)
                if len(n) < len(o) or not all(a is b or (a[0] == b[0] and a[1] is b[1]) for a, b in zip(o, n)): raise Unsupported("list not only appended to in a loop")
                cell.base = o; cell.per = n[len(o):]
                ln = I(0)
                for kk, x in cell.per: ln = I(ln + (1 if kk == "one" else x.n))
                if ln.syms & {self.t}: raise Unsupported("varying number of appended items")
                cell.len = ln
                def bad(i): return POISON
                self.put(cell, ([], list(o) + [("many", Many(I(ln * t), bad))]))
            else: self.put(cell, POISON)
    # ------------------------------------------------------------ phase B: templates
    def endB(self, loc):
        c = ctx(); t = S(self.t)
        # (facts of the generic iteration still hold here)
        pend = {}
        self.new = {}
        for cell in self.cells:
            v = self.read(cell, loc)
            if cell.kind in ("real", "arr", "buf"):
                if cell.kind == "real":
                    if not isnum(v): raise Unsupported("loop variable changes its type")
                    idx = (); e = R.of(v)
                else:
                    nd = cell.old.ndim if cell.kind == "arr" else len(self.obj(cell.key[1]).shape)
                    idx = tuple(f"x{k}@{self.t}" for k in B.range(nd))
                    if cell.kind == "arr":
                        if not isarr(v) or v.ndim != nd: raise Unsupported("loop variable changes its type")
                        e = R.of(v.rsnap()(*[S(x) for x in idx]))
                    else: e = R.of(v(*[S(x) for x in idx]))
                pend[cell.name] = (cell, idx, e)
            elif cell.kind == "list":
                i1, s1 = v
                cell.per = s1[len(cell.base) + 1:] if s1 is not None else []
            elif cell.kind == "temp": cell.new = v
        names = set(pend)
        table = {}
        progress = True
        while pend and progress:
            progress = False
            for nm in list(pend):
                cell, idx, e = pend[nm]
                e2 = replace_apps(e, table) if table else e
                deps = (e2.apps & names) - set(table)
                if deps - {nm}: continue
                f = self.solve(cell, nm, idx, e2)
                if f is None: continue
                table[nm] = f; cell.fn = f; del pend[nm]; progress = True
        for nm, (cell, idx, e) in pend.items():
            self.recurrence(cell, nm, idx, e, table, pend)
        # lists
        for cell in self.cells:
            if cell.kind == "list":
                if len(cell.per) != 1: 
                    if any(k != "one" for k, _ in cell.per): raise Unsupported("several runs appended per iteration")
                    raise Unsupported("several items appended per iteration")
                kk, x = cell.per[0]
                if kk == "one":
                    x = self.close(x, table)
                    cell.tmpl = lambda T, x=x, cell=cell: ([], list(cell.base) + [("many", Many(I(T), lambda i: subst_val(x, {self.t: I(i)})))])
                else:
                    q = fresh("q")
                    y = self.close(x.fn(S(q)), table); ln = x.n
                    def at(i, y=y, q=q, ln=ln):
                        i = I(i)
                        return subst_val(y, {self.t: I(i // ln), q: I(i % ln)})
                    cell.tmpl = lambda T, at=at, ln=ln, cell=cell: ([], list(cell.base) + [("many", Many(I(ln * T), at))])
        c.pop()
        self.table = table
        restore(self.snap0)
        self.state_at(t, generic=True)
        self.start_generic("C")
    def close(self, v, table):
        """value of the generic iteration with havocked cells replaced by their templates"""
        tb = {n: f for n, f in table.items()}
        if isinstance(v, R): return replace_apps(v, tb)
        if isarr(v):
            f = v.snap(); ph = [fresh("ph") for _ in B.range(v.ndim)]
            body = f(*[S(p) for p in ph])
            body = replace_apps(body, tb) if isinstance(body, R) else TM.cond_replace(body, tb)
            return SymArr.make(v.shape, lambda *i: rsubst(body, dict(zip(ph, i))) if isinstance(body, R) else body.subst(dict(zip(ph, i))), v.dtype)
        if isinstance(v, (int, IPoly, str, bool, type(None), float)): return v
        if isinstance(v, SymBool): return mkbool(TM.cond_replace(v.c, tb))
        if isinstance(v, tuple): return tuple(self.close(x, table) for x in v)
        return v
    def start_val(self, cell):
        if cell.kind == "real": return lambda: R.of(cell.old)
        if cell.kind == "arr": 
            f = cell.old.rsnap(); return lambda *i: R.of(f(*i))
        f = cell.old; return lambda *i: R.of(f(*i))
    def solve(self, cell, nm, idx, e):
        """closed form T, idx -> R of the cell after T iterations, or None"""
        t = self.t; s0 = self.start_val(cell)
        me = app(nm, S(t), *[S(x) for x in idx])
        if nm not in e.apps:
            def f(T, *ix):
                T = I(T)
                last = rsubst(e, {t: I(T - 1), **dict(zip(idx, map(I, ix)))})
                return mkite(Cond.le(1 - T), last, s0(*ix))
            return f
        # accumulation
        P = NM.normal(e - me)
        D = NM.poly_to_R(P)
        if nm not in D.apps:
            v = fresh("s")
            def f(T, *ix):
                v = fresh("s")
                return s0(*ix) + rsum(v, 0, I(T), rsubst(D, {t: S(v), **dict(zip(idx, map(I, ix)))}))
            return f
        # guarded writes
        chain = []; cur = e
        while cur.op == "ite" and cur is not me:
            chain.append((cur.args[0], cur.args[1])); cur = cur.args[2]
        if cur is me and chain and not any(nm in TM._capps(cc) for cc, w in chain):
            if any(nm in w.apps for cc, w in chain): return self.sequence(cell, nm, idx, chain, s0)
            sol = []
            for cc, w in chain:
                if t not in cc.syms:
                    sol.append((cc, None, w)); continue
                parts = cc.args if cc.op == "and" else (cc,)
                s = None
                for p in parts:
                    if p.op == "eq":
                        l = p.args[0].linear_in(t)
                        if l is not None and l[0].const() in (1, -1):
                            a, b = l; s = I(b * (-1 if a.const() == 1 else 1)); break
                if s is None: return None
                sol.append((cc, s, w))
            def f(T, *ix):
                m0 = dict(zip(idx, map(I, ix))); r = s0(*ix); T = I(T)
                for cc, s, w in reversed(sol):
                    if s is None:
                        c1 = Cond.conj(cc.subst(m0), Cond.le(1 - T)); w1 = rsubst(w, {t: I(T - 1), **m0})
                    else:
                        s1 = I(s.subst(m0)); m1 = {t: s1, **m0}
                        c1 = Cond.conj(Cond.le(-s1), Cond.le(s1 + 1 - T), cc.subst(m1)); w1 = rsubst(w, m1)
                    r = mkite(c1, w1, r)
                return r
            return f
        return None
    def sequence(self, cell, nm, idx, chain, s0):
        """one entry is written per iteration, from entries written before: the entries form a sequence defined by recursion"""
        t = self.t
        if len(chain) != 1: return None
        cc, w = chain[0]
        if t not in cc.syms: return None
        parts = cc.args if cc.op == "and" else (cc,); s = None
        for p in parts:
            if p.op == "eq":
                l = p.args[0].linear_in(t)
                if l is not None and l[0].const() in (1, -1):
                    a, b = l; s = I(b * (-1 if a.const() == 1 else 1)); break
        if s is None: return None
        y = f"Y.{nm}"; c = ctx()
        def written(T, ix):
            s1 = I(s.subst(dict(zip(idx, ix)))); return s1, Cond.conj(Cond.le(-s1), Cond.le(s1 + 1 - I(T)), cc.subst({t: s1, **dict(zip(idx, ix))}))
        def f(T, *ix):
            ix = [I(x) for x in ix]; s1, cw = written(T, ix)
            return mkite(cw, app(y, *ix), s0(*ix))
        def define(*ix):
            """the entry at ix by the values at the time it was written"""
            ix = [I(x) for x in ix]; s1 = I(s.subst(dict(zip(idx, ix))))
            body = rsubst(w, {t: s1, **dict(zip(idx, ix))})
            return replace_apps(body, {nm: f})
        c.seqs = getattr(c, "seqs", {}); c.seqs[y] = dict(define=define, time=lambda *ix: I(s.subst(dict(zip(idx, [I(x) for x in ix])))), start=s0)
        c.providers[y] = lambda env, *ix: env.r(define(*[I(x) for x in ix])) if env.ip(I(s.subst(dict(zip(idx, [I(x) for x in ix]))))) >= 0 else 0.0
        return f
    def recurrence(self, cell, nm, idx, e, table, pend):
        """no closed form found: a named sequence defined by its recurrence"""
        c = ctx(); t = self.t
        z = f"Z.{nm}"
        table[nm] = lambda T, *ix: app(z, I(T), *ix)
        cell.fn = table[nm]; s0 = self.start_val(cell)
        recs = c.recs = getattr(c, "recs", {})
        def step(T, *ix):
            """value after T+1 iterations in terms of the values after T"""
            return rsubst(replace_apps(e, table), {t: I(T), **dict(zip(idx, map(I, ix)))})
        recs[z] = dict(start=s0, step=step, cell=cell.key, arity=len(idx), N=self.N)
        def prov(env, T, *ix):
            if T < 0: return 0.0
            if T == 0: return env.r(s0(*[I(x) for x in ix]))
            return env.r(step(I(T - 1), *[I(x) for x in ix]))
        c.providers[z] = prov
    def state_at(self, T, generic=False):
        T = I(T); self.vals = {}
        for cell in self.cells:
            if cell.kind == "real":
                self.put(cell, cell.fn(T))
            elif cell.kind == "arr":
                self.put(cell, SymArr.make(cell.old.shape, lambda *i, f=cell.fn: f(T, *i), cell.old.dtype, cell.old.buf.order))
            elif cell.kind == "buf": self.put(cell, memo_fn(lambda *i, f=cell.fn: f(T, *i)))
            elif cell.kind in ("int", "gen", "list"): self.put(cell, cell.tmpl(T))
            else:
                if generic: self.put(cell, POISON)
                else:
                    v = cell.new
                    v = self.close(v, self.table)
                    if isinstance(v, (R, IPoly, SymBool)) or isarr(v): v = subst_val(v, {self.t: I(T - 1)})
                    elif isinstance(v, (int, float, str, bool, type(None), types.FunctionType, type)): pass
                    else: v = POISON
                    self.put(cell, v)
    # ------------------------------------------------------------ phase C: the templates are preserved by the generic iteration
    def endC(self, loc):
        c = ctx(); t = S(self.t); T1 = I(t + 1)
        recs = getattr(c, "recs", {})
        def unfold(r):
            tb = {}
            for z, d in recs.items():
                if z in r.apps:
                    def g(T, *ix, z=z, d=d):
                        T = I(T)
                        if I(T - T1).const() == 0: return d["step"](I(T - 1), *ix)
                        if T.const() == 0: return d["start"](*ix)
                        return app(z, T, *ix)
                    tb[z] = g
            for y, d in getattr(c, "seqs", {}).items():
                if y in r.apps: tb[y] = lambda *ix, y=y, d=d: d["define"](*ix) if ctx().entails(Cond.eq(d["time"](*ix) - t)) else app(y, *ix)
            return replace_apps(r, tb) if tb else r
        def check(a, b, what):
            d = R.of(a) - R.of(b)
            if d is TM.ZERO: return
            d = unfold(d)
            if d is TM.ZERO: return
            x = c.prove_zero(d)
            if x is not True: raise Unsupported(f"loop summary not verified for {what}")
        for cell in self.cells:
            v = self.read(cell, loc)
            if cell.kind in ("real",): check(cell.fn(T1), v, cell.key)
            elif cell.kind in ("arr", "buf"):
                nd = cell.old.ndim if cell.kind == "arr" else len(self.obj(cell.key[1]).shape)
                idx = [fresh("x") for _ in B.range(nd)]
                sh = cell.old.shape if cell.kind == "arr" else self.obj(cell.key[1]).shape
                c.push()
                try:
                    for x, d in zip(idx, sh): c.add(Cond.le(-S(x))); c.add(Cond.le(S(x) + 1 - I(d)))
                    ix = [S(x) for x in idx]
                    y = f"Y.{cell.name}"
                    if y in getattr(c, "seqs", {}):
                        # the entry written in this iteration, and all others
                        g = Cond.eq(c.seqs[y]["time"](*ix) - t)
                        for h in (g, g.neg()):
                            c.push()
                            try:
                                c.add(h); check(cell.fn(T1, *ix), (v.rsnap() if cell.kind == "arr" else v)(*ix), cell.key)
                            except PathAbort: pass
                            finally: c.pop()
                    else: check(cell.fn(T1, *ix), (v.rsnap() if cell.kind == "arr" else v)(*ix), cell.key)
                finally: c.pop()
            elif cell.kind == "int":
                if not isint(v) or not c.entails(Cond.eq(I(v) - I(cell.tmpl(T1)))): raise Unsupported("loop counter not affine")
            elif cell.kind == "gen":
                a, b = cell.tmpl(T1), v
                if len(a[0]) != len(b[0]) or not all(x[0] == y[0] and I(x[1]).key == I(y[1]).key for x, y in zip(a[0], b[0])) or I(a[1]).key != I(b[1]).key: raise Unsupported("random stream position not affine")
            elif cell.kind == "list":
                per = v[1][len(cell.base) + 1:]
                if len(per) != 1: raise Unsupported("list summary")
                kk, x = per[0]
                k0, x0 = cell.per[0]
                if kk != k0: raise Unsupported("list summary")
                def cmp(p, q):
                    if isarr(p):
                        ix = [S(fresh("x")) for _ in p.shape]
                        check(p.rsnap()(*ix), q.rsnap()(*ix), "list item")
                    elif isnum(p): check(p, q, "list item")
                    elif p is q: pass
                    else: raise Unsupported("list item")
                if kk == "one": cmp(x, self.close(x0, self.table))
                else:
                    q = S(fresh("q")); c.push()
                    try:
                        c.add(Cond.le(-q)); c.add(Cond.le(q + 1 - x.n)); cmp(x.fn(q), self.close(x0.fn(q), self.table))
                    finally: c.pop()
            elif cell.kind == "temp": cell.new = v
        # objects created by the iteration must not be shared with later ones: only reachable through temporaries
        c.pop(); c.nosplit -= 1
        restore(self.snap0)
        if self.it is None:
            if True:
                self.state_at(I(self.N - 1)); self.phase = "last"
                # at N-1 temporaries are unknown
                for cell in self.cells:
                    if cell.kind == "temp": self.put(cell, POISON)
        else:
            self.state_at(self.N); self.phase = "exit"
        self.eng.loops.append(self)

# ---------------------------------------------------------------- builtins of the verified code
def b_len(x):
    if hasattr(x, "symlen"): return x.symlen()
    if isarr(x):
        if x.ndim == 0: raise TypeError("len() of unsized object")
        return x.shape[0]
    f = getattr(type(x), "__len__", None)
    if f is None: raise TypeError(f"object of type '{type(x).__name__}' has no len()")
    if isinstance(x, (list, tuple, dict, str, set, range)): return B.len(x)
    return f(x)
def b_range(*a):
    a = [IPoly.of(x) if isinstance(x, (R,)) or isarr(x) else x for x in a]
    a = [simpint(x) if isinstance(x, IPoly) else x for x in a]
    if all(isinstance(x, int) for x in a): return B.range(*a)
    if len(a) == 1: return SymRange(0, a[0])
    st = a[2] if len(a) == 3 else 1
    if not isinstance(st, int): raise Unsupported("symbolic range step")
    return SymRange(a[0], a[1], st)
def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for q in ts:
        if isinstance(q, types.UnionType): flat += list(q.__args__)
        elif isinstance(q, tuple): flat += list(q)
        else: flat.append(q)
    for q in flat:
        if q is b_int: q = int
        elif q is b_float: q = float
        elif q is b_bool: q = bool
        if isinstance(x, IPoly):
            if q in (int, Integral, Number, Real, object): return True
            import numbers
            if q in (numbers.Rational, numbers.Complex): return True
        elif isinstance(x, R):
            if q in (float, Number, Real, object) or q is snp._TYPES["float64"]: return True
        elif isinstance(x, SymBool):
            if q in (bool, int, Integral, Number, object): return True
        elif q is snp.SymNumpy.integer or q is snp.SymNumpy.floating: continue
        else:
            if B.isinstance(x, q): return True
    return False
class _Meta(type):
    def __instancecheck__(cls, x): return b_isinstance(x, cls._py)
    def __eq__(cls, o): return o is cls or o is cls._py
    def __hash__(cls): return hash(cls._py)
def b_int(x=0, *a):
    if isinstance(x, SymBool): return IPoly.of(1) if ctx().decide(x.c) else 0
    if isinstance(x, IPoly): return x
    if isarr(x): x = x._as_scalar()
    if isinstance(x, R): return simpint(IPoly.of(snp.rtrunc(x)))
    return B.int(x, *a)
def b_float(x=0.0):
    if isinstance(x, (IPoly, SymBool)): return R.of(x)
    if isinstance(x, R): return x
    if isarr(x): return R.of(x.item())
    return B.float(x)
def b_bool(x=False):
    if isinstance(x, SymBool): return x
    if isinstance(x, (R, IPoly)): return mkbool(cond_of(x != 0))
    return B.bool(x)
def b_abs(x):
    if isarr(x): return abs(x)
    return B.abs(x)
def _mm(name, kind):
    def f(*a, key=None, default=UNBOUND):
        if key is not None: return getattr(B, name)(*a, key=key)
        xs = a if len(a) > 1 else None
        if xs is None:
            it = symiter(a[0])
            if isinstance(it, SymIter): raise Unsupported(name + " over a symbolic sequence")
            xs = list(it)
            if not xs:
                if default is not UNBOUND: return default
                raise ValueError(f"{name}() arg is an empty sequence")
        r = xs[0]
        for x in xs[1:]:
            if isinstance(x, (IPoly, int)) and isinstance(r, (IPoly, int)):
                c = (x < r) if kind == "<" else (x > r)
                if bool(c): r = x
            elif isinstance(x, (R,)) or isinstance(r, (R,)):
                c = cond_of(R.of(x)._cmp(R.of(r), kind)); r = mkite(c, R.of(x), R.of(r))
            elif (x < r) if kind == "<" else (x > r): r = x
        return r
    return f
def b_sum(it, start=0):
    it = symiter(it)
    if isinstance(it, SymIter):
        v = fresh("s"); x = it.item(S(v))
        if isarr(x):
            f = x.rsnap(); ph = [fresh("ph") for _ in x.shape]; body = f(*[S(p) for p in ph])
            return SymArr.make(x.shape, lambda *i: rsum(v, 0, it.n, rsubst(body, dict(zip(ph, i))))) + start
        return rsum(v, 0, it.n, R.of(x)) + start
    r = start
    for x in it: r = r + x
    return r
def b_all(it):
    it = symiter(it)
    if isinstance(it, SymIter): raise Unsupported("all() over a symbolic sequence")
    r = True
    for x in it:
        if isinstance(x, SymBool): r = x if r is True else r & x
        elif not x: return False
    return r
def b_any(it):
    it = symiter(it)
    if isinstance(it, SymIter): raise Unsupported("any() over a symbolic sequence")
    r = False
    for x in it:
        if isinstance(x, SymBool): r = x if r is False else r | x
        elif x: return True
    return r
def b_list(it=()):
    l = SList(); l.extend(it) if not isinstance(it, dict) else l.extend(list(it)); return l
def b_tuple(it=()):
    it = symiter(it)
    if isinstance(it, SymIter):
        l = SList(); l._sym().append(("many", Many(it.n, it.item))); return l
    return B.tuple(it)
def b_round(x, *a):
    if isinstance(x, IPoly): return x
    return B.round(x, *a)
def b_divmod(a, b): return (a // b, a % b)
def b_pow(a, b, *c): return B.pow(a, b, *c)
def b_iter(x, *a):
    if a: return B.iter(x, *a)
    it = symiter(x)
    if isinstance(it, SymIter): return it
    return B.iter(it)

def not_(x):
    if isinstance(x, SymBool): return ~x
    return not x

class _OpMod(NS): pass
def _opns():
    d = {n: getattr(_op, n) for n in dir(_op) if not n.startswith("_")}
    d["not_"] = not_
    return NS("operator", **d)

class SymFormatMixin: pass
for _c in (R, IPoly): _c.__format__ = lambda self, spec: "<sym>"
SymArr.__format__ = lambda self, spec: "<sym>"
SymBool.__format__ = lambda self, spec: "<sym>"

# ---------------------------------------------------------------- transformation
def names_assigned(nodes):
    out = []
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out: out.append(n.id)
        def visit_FunctionDef(self, n):
            if n.name not in out: out.append(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): 
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr) and x.target.id not in out: out.append(x.target.id)
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
        def visit_ClassDef(self, n):
            if n.name not in out: out.append(n.name)
    for n in nodes: V().visit(n)
    return out
class Both(ast.NodeTransformer):
    """and/or of truth values that are formulas"""
    def visit_BoolOp(s, b):
        b = s.generic_visit(b); out = b.values[-1]
        for y in reversed(b.values[:-1]): out = ast.Call(ast.Attribute(ast.Name("_eng", ast.Load()), "both" if isinstance(b.op, ast.And) else "either", ast.Load()), [y, ast.Lambda(ast.arguments([], [], None, [], [], None, []), out)], [])
        return out
class Transform(ast.NodeTransformer):
    def __init__(self): self.k = 0; self.infn = 0; self.loops = []
    def nm(self): self.k += 1; return f"_vl_{self.k}"
    def call(self, attr, *args): return ast.Call(ast.Attribute(ast.Name("_eng", ast.Load()), attr, ast.Load()), list(args), [])
    def lcall(self, L, attr, *args): return ast.Call(ast.Attribute(ast.Name(L, ast.Load()), attr, ast.Load()), list(args), [])
    def visit_FunctionDef(self, n):
        self.infn += 1; sv, self.loops = self.loops, []
        n.body = [self.visit(s) for s in n.body]; n.body = flat(n.body)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        self.infn -= 1; self.loops = sv
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)): pass
        return n
    def rebind(self, L, names):
        out = []
        for x in names:
            out.append(ast.If(self.lcall(L, "has", ast.Constant(x)), [ast.Assign([ast.Name(x, ast.Store())], self.lcall(L, "get", ast.Constant(x)))], []))
        return out
    def locs(self): return ast.Call(ast.Name("locals", ast.Load()), [], [])
    def hasyield(self, n): return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
    def visit_For(self, n):
        if not self.infn or self.hasyield(n): return self.generic_visit(n)
        it, L = self.nm(), self.nm()
        names = names_assigned([n.target] + n.body)
        conc = copy.deepcopy(n)
        self.loops.append(None); conc.body = flat([self.visit(s) for s in conc.body]); self.loops.pop()
        conc.iter = ast.Name(it, ast.Load())
        conc.orelse = flat([self.visit(s) for s in conc.orelse])
        sy = copy.deepcopy(n)
        self.loops.append(L); body = flat([self.visit(s) for s in sy.body]); self.loops.pop()
        head = ast.Assign([ast.Name(it, ast.Store())], self.call("iter", self.visit(n.iter)))
        loop = ast.While(self.lcall(L, "enter", self.locs()), self.rebind(L, names) + [ast.Assign([n.target], self.lcall(L, "item"))] + body, flat([self.visit(s) for s in sy.orelse]))
        if n.orelse: loop.orelse = self.rebind(L, names) + loop.orelse
        sym = [ast.Assign([ast.Name(L, ast.Store())], self.call("loop", ast.Name(it, ast.Load()), ast.Constant(getattr(n, "_label", "")), ast.Constant(tuple(names)))), loop] + self.rebind(L, names)
        sea = self.search(n, it)
        if sea: sym = [ast.If(self.call("searchable", ast.Constant(getattr(n, "_label", ""))), sea, sym)]
        return [head, ast.If(self.call("concrete", ast.Name(it, ast.Load())), [conc], sym)]
    def search(self, n, it):
        """for x in it: <local names>; if test: <...>; break / return   (else: ...)  -- the first x that passes the test"""
        body = list(n.body)
        if not body or not isinstance(body[-1], ast.If) or body[-1].orelse or not isinstance(body[-1].body[-1], (ast.Break, ast.Return)): return None
        pre, last = body[:-1], body[-1]; local = set(names_assigned([n.target]))
        for x in [n.target] + pre + [last.test]:
            for y in ast.walk(x):
                if isinstance(y, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda, ast.FunctionDef)): return None
        mine = set(names_assigned(pre)); known = set(local)
        for x in pre:                  # no carried variables: every name is set before it is read
            if not isinstance(x, ast.Assign) or not all(isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts) for t in x.targets): return None
            if any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in mine - known for y in ast.walk(x.value)): return None
            known |= set(names_assigned([x]))
        for x in last.body[:-1]:
            if any(isinstance(y, (ast.Break, ast.Continue, ast.For, ast.While)) for y in ast.walk(x)): return None
        P, r = self.nm(), self.nm()
        dc = copy.deepcopy; bind = lambda: ast.Assign([dc(n.target)], ast.Name(P + "x", ast.Load())); sv, self.loops = self.loops, []
        fn = ast.FunctionDef(P, ast.arguments([], [ast.arg(P + "x")], None, [], [], None, []), [bind()] + flat([self.visit(dc(x)) for x in pre]) + [ast.Return(self.visit(Both().visit(dc(last.test))))], [], type_params=[])
        self.loops = sv
        then = [x for x in last.body if not isinstance(x, ast.Break)]; then = flat([self.visit(dc(x)) for x in then])
        found = [ast.Assign([ast.Name(P + "x", ast.Store())], ast.Name(r, ast.Load())), bind()] + flat([self.visit(dc(x)) for x in pre]) + then
        lost = [ast.Assign([ast.Name(x, ast.Store())], self.call("poison")) for x in sorted(local | mine)] + flat([self.visit(dc(x)) for x in n.orelse])
        return [fn, ast.Assign([ast.Name(r, ast.Store())], self.call("search", ast.Name(it, ast.Load()), ast.Name(P, ast.Load()))), ast.If(ast.Compare(ast.Name(r, ast.Load()), [ast.IsNot()], [ast.Constant(None)]), found, lost or [ast.Pass()])]
    def countup(self, n):
        """while k < N and rest: k += 1   -- as a search for the first k in [k, N) at which the rest fails"""
        t = n.test; b = n.body
        if n.orelse or len(b) != 1 or not isinstance(b[0], ast.AugAssign) or not isinstance(b[0].op, ast.Add) or not isinstance(b[0].target, ast.Name) or not isinstance(b[0].value, ast.Constant) or b[0].value.value is not True and b[0].value.value != 1: return None
        if not isinstance(t, ast.BoolOp) or not isinstance(t.op, ast.And): return None
        k, f = b[0].target.id, t.values[0]
        if not isinstance(f, ast.Compare) or len(f.ops) != 1: return None
        if isinstance(f.ops[0], ast.Lt) and isinstance(f.left, ast.Name) and f.left.id == k: N = f.comparators[0]
        elif isinstance(f.ops[0], ast.Gt) and isinstance(f.comparators[0], ast.Name) and f.comparators[0].id == k: N = f.left
        else: return None
        for y in ast.walk(t):
            if isinstance(y, (ast.NamedExpr, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp)): return None
        if any(isinstance(y, ast.Name) and y.id == k or isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id in ("len", "min", "max", "int")) for y in ast.walk(N)): return None
        rest = t.values[1] if len(t.values) == 2 else ast.BoolOp(ast.And(), t.values[1:])
        z = self.nm(); T = copy.deepcopy(rest)
        for y in ast.walk(T):
            if isinstance(y, ast.Name) and y.id == k: y.id = z
        name = lambda x, c=ast.Load: ast.Name(x, c())
        call = lambda f, *a: ast.Call(name(f), list(a), [])
        return ast.For(name(z, ast.Store), self.call("countrange", name(k), N), [ast.If(ast.UnaryOp(ast.Not(), T), [ast.Assign([name(k, ast.Store)], name(z)), ast.Break()], [])], [ast.Assign([name(k, ast.Store)], self.call("atleast", name(k), copy.deepcopy(N)))], None)
    def visit_While(self, n):
        if not self.infn or self.hasyield(n): return self.generic_visit(n)
        f = self.countup(n)
        if f is not None:
            f._label = getattr(n, "_label", ""); g = copy.deepcopy(n); g._label = f._label
            ast.fix_missing_locations(ast.copy_location(f, n)); keep = self.visit_While_(g)
            return [ast.If(self.call("searchable", ast.Constant(f._label)), flat([self.visit_For(f)]), flat([keep]))]
        return self.visit_While_(n)
    def visit_While_(self, n):
        if isinstance(n.test, ast.Constant) and n.test.value and isinstance(n.body[0], ast.If) and not n.body[0].orelse and len(n.body[0].body) == 1 and isinstance(n.body[0].body[0], ast.Break):
            # while True: if c: break; ...
            lb = getattr(n, "_label", ""); n = ast.While(ast.UnaryOp(ast.Not(), n.body[0].test), n.body[1:] or [ast.Pass()], n.orelse); n._label = lb
        if isinstance(n.test, ast.Constant) and n.orelse: 
            self.loops.append(None); n.body = flat([self.visit(s) for s in n.body]); self.loops.pop()
            n.orelse = flat([self.visit(s) for s in n.orelse]); return n
        L = self.nm(); cv = self.nm()
        names = names_assigned([n.test] + n.body)
        self.loops.append(L); body = flat([self.visit(s) for s in n.body]); self.loops.pop()
        test = self.visit(n.test)
        loop = ast.While(self.lcall(L, "enter", self.locs()), self.rebind(L, names) + [
            ast.Assign([ast.Name(cv, ast.Store())], self.lcall(L, "cond", test)),
            ast.If(ast.Compare(ast.Name(cv, ast.Load()), [ast.Is()], [ast.Constant(None)]), [ast.Continue()], []),
            ast.If(ast.UnaryOp(ast.Not(), ast.Name(cv, ast.Load())), [ast.Break()], [])] + body, [])
        if n.orelse: raise Unsupported("while-else")
        return [ast.Assign([ast.Name(L, ast.Store())], self.call("loop", ast.Constant(None), ast.Constant(getattr(n, "_label", "")), ast.Constant(tuple(names)))), loop]
    def visit_Break(self, n):
        if self.loops and self.loops[-1]: return [ast.If(self.call("brk", ast.Name(self.loops[-1], ast.Load())), [], []) if False else ast.Expr(self.call("brk", ast.Name(self.loops[-1], ast.Load()))), n]
        return n
    def visit_Return(self, n):
        n = self.generic_visit(n)
        pre = [ast.Expr(self.lcall(L, "ret")) for L in self.loops if L]
        return pre + [n] if pre else n
    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Not): return self.call("not_", n.operand)
        return n
    def comp(self, n, kind):
        if kind == "genexp" and self.infn and len(n.generators) == 1 and n.generators[0].ifs and not n.generators[0].is_async and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            g = n.generators[0]; cond = Both().visit(copy.deepcopy(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))); T = g.target
            if isinstance(T, ast.Name): a, star = [T.id], False
            elif isinstance(T, ast.Tuple) and all(isinstance(x, ast.Name) for x in T.elts): a, star = [x.id for x in T.elts], True
            else: return self.generic_visit(n)
            lam = lambda e: ast.Lambda(ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), self.visit(e))
            return self.call("genif", self.visit(g.iter), lam(n.elt), lam(cond), ast.Constant(star))
        n = self.generic_visit(n)
        g = n.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async or not self.infn: return n
        if isinstance(g[0].target, ast.Name):
            lam = ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, []), n.elt)
        elif isinstance(g[0].target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g[0].target.elts):
            inner = ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in g[0].target.elts], None, [], [], None, []), n.elt)
            lam = ast.Lambda(ast.arguments([], [ast.arg("_vl_t")], None, [], [], None, []), ast.Call(inner, [ast.Starred(ast.Name("_vl_t", ast.Load()), ast.Load())], []))
        else: return n
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.elt)): return n
        return self.call(kind, g[0].iter, lam)
    def visit_DictComp(self, n):
        n = self.generic_visit(n); g = n.generators
        if len(g) != 1 or g[0].is_async or not self.infn or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)): return n
        if isinstance(g[0].target, ast.Name): a = [g[0].target.id]; star = False
        elif isinstance(g[0].target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g[0].target.elts): a = [x.id for x in g[0].target.elts]; star = True
        else: return n
        lam = lambda e: ast.Lambda(ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), e)
        cond = ast.Constant(True) if not g[0].ifs else g[0].ifs[0] if len(g[0].ifs) == 1 else ast.BoolOp(ast.And(), g[0].ifs)
        if isinstance(n, ast.SetComp): return self.call("setcomp", g[0].iter, lam(n.elt), lam(cond), ast.Constant(star))
        return self.call("dictcomp", g[0].iter, lam(n.key), lam(n.value), lam(cond), ast.Constant(star))
    visit_SetComp = visit_DictComp
    def visit_ListComp(self, n): return self.comp(n, "listcomp")
    def visit_GeneratorExp(self, n): return self.comp(n, "genexp")
    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infn: return self.call("mklist", *n.elts)
        return n
    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target)
        if n.value is not None: n.value = self.visit(n.value)
        return n
    def visit_arg(self, n): n.annotation = None; return n
def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list): out += x
        elif x is not None: out.append(x)
    return out

class SGen:
    """a generator expression: evaluated lazily, once"""
    def __init__(self, it, f): self.it, self.f = it, f
    def __iter__(self):
        it = symiter(self.it)
        if isinstance(it, SymIter): raise Unsupported("iteration over a symbolic sequence")
        return (self.f(x) for x in it)
_old_symiter = symiter
def symiter(x):
    if isinstance(x, SGen):
        it = symiter(x.it)
        if isinstance(it, SymIter): return SymIter(it.n, _pure(x.f, it))
        return (x.f(y) for y in it)
    return _old_symiter(x)
class SGenIf:
    """a filtered generator expression"""
    def __init__(self, it, f, cond): self.it, self.f, self.cond = it, f, cond
    def __iter__(self):
        if not hasattr(self, "gen"):
            it = symiter(self.it)
            if isinstance(it, SymIter): raise Unsupported("iteration over a filtered symbolic sequence")
            self.gen = (self.f(x) for x in it if self.cond(x))
        return self.gen
    def __next__(self): return next(iter(self))
def _spent():
    raise Unsupported("continuing a filtered symbolic sequence")
    yield
def _pure(f, it):
    return lambda k: f(it.item(k))

class External:
    def __init__(self, name): self.__dict__["_name"] = name
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported(f"compiled extension {self._name}.{n} without a contract")
class Engine:
    _opaque_ghost = True; FROM_START = True; LATE = False
    def __init__(self, repo=None):
        self.repo = repo or REPO; self.mods = {}; self.ext = ssp.modules(); self.roots = []; self.loops = []; self.overrides = {}; self.invariants = {}; self.generic = None; self.from_start = self.FROM_START
        self.ext["operator"] = _opns()
        ct = {}
        self.ext["itertools"] = NS("itertools", islice=itertools.islice, chain=itertools.chain, count=itertools.count, repeat=itertools.repeat, accumulate=itertools.accumulate, zip_longest=itertools.zip_longest, cycle=itertools.cycle)
        self.ext["math"] = NS("math", sqrt=lambda x: rsqrt(R.of(x)) if isinstance(x, (R, IPoly)) else math.sqrt(x), inf=math.inf, pi=math.pi, nan=math.nan,
                              floor=lambda x: simpint(IPoly.of(rfloor(R.of(x)))) if isinstance(x, (R, IPoly)) else math.floor(x),
                              ceil=lambda x: simpint(IPoly.of(-rfloor(-R.of(x)))) if isinstance(x, (R, IPoly)) else math.ceil(x),
                              isnan=lambda x: x.isnan_ if isinstance(x, R) else math.isnan(x), fsum=b_sum, log=lambda x: rfn("log", R.of(x)), exp=lambda x: rfn("exp", R.of(x)),
                              isfinite=lambda x: not (isinstance(x, R) and x.op == "app" and x.args[0] in ("+inf", "-inf", "nan")) if isinstance(x, R) else math.isfinite(x))
        self.builtins = dict(B.__dict__)
        self.builtins.update(len=b_len, range=b_range, isinstance=b_isinstance, int=type.__call__(_Meta, "int", (), {"_py": int, "__new__": lambda cls, *a: b_int(*a)}),
            float=type.__call__(_Meta, "float", (), {"_py": float, "__new__": lambda cls, *a: b_float(*a)}), bool=type.__call__(_Meta, "bool", (), {"_py": bool, "__new__": lambda cls, *a: b_bool(*a)}),
            abs=b_abs, min=_mm("min", "<"), max=_mm("max", ">"), sum=b_sum, all=self.b_all, any=self.b_any, next=self.b_next, enumerate=SEnum, zip=SZip, map=SMap, reversed=SRev,
            list=_mk_list(), tuple=_mk_tuple(), set=_mk_set(set), frozenset=_mk_set(frozenset), dict=_mk_dict(), round=b_round, divmod=b_divmod, iter=b_iter, __import__=self.imp)
    # hooks of transformed code
    def iter(self, x): return symiter(x)
    def poison(self): return POISON
    def searchable(self, label): return not (self.invariants and label in self.invariants)
    def both(self, a, f): return a & mkbool(cond_of(f())) if isinstance(a, SymBool) else a and f()
    def either(self, a, f): return a | mkbool(cond_of(f())) if isinstance(a, SymBool) else a or f()
    def search(self, it, pred):
        """item at which the test first holds, or None: the test has no effects (checked) and is decided for a generic position"""
        c = ctx(); t = fresh("se"); objs = reach(self.roots + [pred]); s0 = snapshot(objs); c.push(); c.nosplit += 1
        try:
            c.add(Cond.le(-S(t))); c.add(Cond.le(S(t) + 1 - it.n)); r = pred(it.item(S(t)))
        except PathAbort: return None
        finally: c.nosplit -= 1; c.pop()
        for k, (kind, o, v) in snapshot(objs).items():
            w = s0[k][2]
            if kind == "buf" and v is not w or kind == "obj" and (set(v) != set(w) or any(not same_val(v[x], w[x]) for x in v)) or kind in ("gen", "slist", "list", "dict", "cell") and not (v is w or kind != "cell" and repr(v) == repr(w)): raise Unsupported("search with side effects")
        if not isinstance(r, (SymBool, bool)): raise Unsupported("search for a value that is no truth value")
        r = cond_of(r)
        num, first = snp.least(lambda i: r.subst({t: I(i)}), it.n)
        return None if first is None else it.item(first)
    def concrete(self, it): return not isinstance(it, SymIter)
    def loop(self, it, label="", names=()): return Loop(self, it, label, names)
    def brk(self, L):
        if L.phase in ("unrolled", "start"): return
        L.brk()
    def not_(self, x): return not_(x)
    def mklist(self, *xs): return SList(xs)
    def listcomp(self, it, f):
        it = symiter(it)
        if isinstance(it, SymIter):
            l = SList(); l._sym().append(("many", Many(it.n, generic_item(self, it, f)))); return l
        return SList([f(x) for x in it])
    def genexp(self, it, f): return SGen(it, f)
    def genif(self, it, f, c, star): return SGenIf(it, (lambda x: f(*x)), (lambda x: c(*x))) if star else SGenIf(it, f, c)
    def b_any(self, it):
        it = symiter(it)
        return b_any(it) if not isinstance(it, SymIter) else self.search(it, lambda x: x) is not None
    def b_all(self, it):
        it = symiter(it)
        return b_all(it) if not isinstance(it, SymIter) else self.search(it, lambda x: not_(x)) is None
    def b_next(self, g, *d):
        it = symiter(g.it) if isinstance(g, (SGenIf, SGen)) and not hasattr(g, "gen") else None
        if not isinstance(it, SymIter): return B.next(g, *d)
        if not isinstance(g, SGenIf): raise Unsupported("next() of a symbolic sequence")
        r = self.search(it, g.cond); g.gen = _spent()
        if r is None:
            if d: return d[0]
            raise StopIteration
        return g.f(r)
    def countrange(self, k, n): return self.builtins["range"](k, n)
    def atleast(self, k, n): return n if n >= k else k
    def dictcomp(self, it, key, val, cond, star):
        r = gmap.dictcomp(it, key, val, cond)
        if r is not NotImplemented: return r
        out = {}
        for x in it:
            x = tuple(x) if star else (x,)
            if cond(*x): out[key(*x)] = val(*x)
        return out
    def setcomp(self, it, elt, cond, star):
        r = gmap.setcomp(it, elt, cond)
        if r is not NotImplemented: return r
        return {elt(*(tuple(x) if star else (x,))) for x in it if cond(*(tuple(x) if star else (x,)))}
    # imports
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            full = "primate" + ("." + name if name else "")
        else: full = name
        if full == "primate" or full.startswith("primate."):
            if full == "primate":
                ns = types.SimpleNamespace()
                for f in fromlist or (): setattr(ns, f, self.mod(f))
                return ns
            m = self.mod(full.split(".", 1)[1])
            return m
        if full in self.ext:
            if fromlist: return self.ext[full]
            top = full.split(".")[0]
            return self.ext[top]
        top = full.split(".")[0]
        if top in self.ext: raise Unsupported("import " + full)
        if top in ("multiprocessing", "concurrent"):
            if "concurrent.futures" in HOOKS and top == "concurrent": return NS("concurrent", futures=HOOKS["concurrent.futures"]) if not fromlist else HOOKS["concurrent.futures"]
            if top == "multiprocessing": return NS("multiprocessing", cpu_count=lambda: HOOKS["cpu_count"]() if "cpu_count" in HOOKS else (_ for _ in ()).throw(Unsupported("cpu_count")))
            return NS("concurrent", futures=NS("concurrent.futures"))
        return B.__import__(name, globals, locals, fromlist, level)
    def mod(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.overrides: 
            self.mods[name] = self.overrides[name]; return self.mods[name]
        path = os.environ.get("VERIF_NATIVE", "") if name == "native" else os.path.join(self.repo, "src", "primate", name + ".py")
        if not os.path.exists(path):
            if name.startswith("_") and any(os.path.exists(os.path.join(self.repo, "src", "primate", name + e)) for e in (".cpp", ".c", ".pyx")):
                self.mods[name] = External(name); return self.mods[name]       # compiled extension: only through an assumed contract
            raise ImportError("primate." + name)
        src = open(path).read()
        code = _CODE.get(path)
        if code is None:
            tree = ast.parse(src)
            for f in ast.walk(tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ls = sorted((x for x in ast.walk(f) if isinstance(x, (ast.For, ast.While))), key=lambda x: (x.lineno, x.col_offset))
                    for k, x in enumerate(ls): x._label = f"{name}.{f.name}:{k}"        # (inner functions are visited later and relabel theirs)
                    if ls: _LOCALS[f"{name}.{f.name}"] = NAMES.bindings(f)
            tree = Transform().visit(tree); ast.fix_missing_locations(tree)
            code = _CODE[path] = compile(tree, path, "exec")
        m = types.ModuleType("primate." + name)
        m.__dict__.update(__builtins__=self.builtins, _eng=self, __package__="primate", __file__=path)
        self.mods[name] = m
        sys.modules.setdefault("primate_sym", types.ModuleType("primate_sym"))
        exec(code, m.__dict__)
        return m

_CODE = {}; _LOCALS = {}
def generic_item(eng, it, f):
    """item function of a comprehension over a symbolic sequence: the body is run once for a generic index and must have no effects"""
    c = ctx()
    t = fresh("t"); c.push(); c.nosplit += 1
    try:
        c.add(Cond.le(-S(t))); c.add(Cond.le(S(t) + 1 - it.n))
        roots = [x for x in (f.__closure__ or ())] + eng.roots
        h = reach(roots); s0 = snapshot(h)
        v = f(it.item(S(t)))
        s1 = snapshot(h)
        for k, (kind, o, a) in s0.items():
            b = s1[k][2]
            if kind == "buf" and a is not b or kind == "gen" and a != b: raise Unsupported("comprehension with side effects")
            if kind in ("obj", "dict") and (set(a) != set(b) or any(not same_val(a[q], b[q]) for q in a)): raise Unsupported("comprehension with side effects")
    finally: c.pop(); c.nosplit -= 1
    return lambda i: subst_val(v, {t: I(i)})

def _mk_list():
    class list_(list, metaclass=_Meta):
        _py = list
        def __new__(cls, *a): return b_list(*a)
    return list_
def _mk_tuple():
    class tuple_(tuple, metaclass=_Meta):
        _py = tuple
        def __new__(cls, *a): return b_tuple(*a)
    return tuple_
def _mk_set(base):
    class set_(base, metaclass=_Meta):
        _py = base
        def __new__(cls, *a):
            if a and B.isinstance(a[0], (gmap.GMap, gmap.GSet)): return gmap.GSet(a[0]._has)
            return base(*a)
    return set_
def _mk_dict():
    class dict_(dict, metaclass=_Meta):
        _py = dict
        def __new__(cls, *a, **k):
            if a and B.isinstance(a[0], gmap.GMap) and not k: return a[0].copy()
            return dict(*a, **k)
        fromkeys = dict.fromkeys
    return dict_
