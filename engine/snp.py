"""Symbolic arrays and the contracts of the numpy functions the code calls (shape-polymorphic: dimensions are integer terms)."""
from fractions import Fraction
import itertools, math, builtins
import numpy as rnp
from .terms import *
from . import terms as TM, norm as NM
from .ctx import Rule, PathAbort

def ctx(): return TM.CTX
def I(x): return IPoly.of(x)
def S(name): return IPoly.sym(name)
class _NP: pass

# ---------------------------------------------------------------- dtypes
class DType:
    _tab = {}
    def __new__(cls, x=None):
        n = cls._name(x)
        if n not in cls._tab:
            o = object.__new__(cls); o.name = n; cls._tab[n] = o
        return cls._tab[n]
    @staticmethod
    def _name(x):
        if isinstance(x, DType): return x.name
        if x is None or x is float: return "float64"
        if x is bool: return "bool"
        if x is int: return "int64"
        if x is complex: return "complex128"
        if isinstance(x, str): return {"f8": "float64", "f4": "float32", "d": "float64", "f": "float32", "i8": "int64", "b1": "bool"}.get(x, x)
        if isinstance(x, type) and hasattr(x, "_dt"): return x._dt
        raise Unsupported(f"dtype {x!r}")
    @property
    def type(self): return _TYPES[self.name]
    @property
    def kind(self): return {"float64": "f", "float32": "f", "int64": "i", "int32": "i", "bool": "b", "complex128": "c"}.get(self.name, "f")
    @property
    def itemsize(self): return {"float64": 8, "float32": 4, "int64": 8, "int32": 4, "bool": 1, "complex128": 16}[self.name]
    @property
    def char(self): return {"float64": "d", "float32": "f", "int64": "l", "bool": "?"}[self.name]
    def __eq__(self, o):
        try: return self.name == DType._name(o)
        except Unsupported: return False
    def __hash__(self): return hash(self.name)
    def __repr__(self): return f"dtype('{self.name}')"

def _mktype(name):
    def new(cls, x=0.0):
        if isinstance(x, (R, IPoly, SymBool)): return x
        return float(x) if name.startswith("float") else (bool(x) if name == "bool" else int(x))
    return type(name, (), {"_dt": name, "__new__": new})
_TYPES = {n: _mktype(n) for n in ("float64", "float32", "int64", "int32", "bool", "complex128", "complex64", "float16", "longdouble", "object")}
F64, F32, I64, B1 = DType("float64"), DType("float32"), DType("int64"), DType("bool")
def promote(*ds):
    names = [d.name for d in ds]
    for n in ("complex128", "float64"):
        if n in names: return DType(n)
    if "float32" in names: return F64 if "int64" in names else F32
    if "int64" in names: return I64
    return ds[0] if ds else F64

def site(c, a, b):
    """if-then-else on reals or conditions"""
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, Cond) or isinstance(b, Cond):
        a, b = cond_of(a), cond_of(b)
        return Cond.disj(Cond.conj(c, a), Cond.conj(c.neg(), b))
    return mkite(c, a, b)
def tor(x): return R.of(x)
def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    p = I(a) - I(b)
    if isinstance(p, int): return p == 0
    return ctx().decide(Cond.eq(p))
def dim_is1(a):
    if isinstance(a, int): return a == 1
    return ctx().entails(Cond.eq(I(a) - 1))
def dim_simplify(d):
    p = I(d); c = p.const()
    return c if c is not None else p

# ---------------------------------------------------------------- arrays
class Buf:
    __slots__ = ("fn", "shape", "dtype", "order", "name", "writeable")
    def __init__(self, fn, shape, dtype=F64, order="C", name=None):
        self.fn = fn; self.shape = shape; self.dtype = dtype; self.order = order; self.name = name; self.writeable = True

def memo_fn(fn):
    cache = {}
    def g(*idx):
        k = tuple(i.key if isinstance(i, IPoly) else i for i in idx)
        v = cache.get(k)
        if v is None:
            v = fn(*[I(i) for i in idx]); cache[k] = v
        return v
    return g

class Flags:
    def __init__(self, a): self.a = a
    def __getitem__(self, k):
        a = self.a
        if k in ("F_CONTIGUOUS", "F"): return a.is_order("F")
        if k in ("C_CONTIGUOUS", "C"): return a.is_order("C")
        if k in ("WRITEABLE", "W"): return a.buf.writeable
        if k in ("OWNDATA", "O"): return a.owns
        if k in ("ALIGNED", "A"): return True
        raise KeyError(k)
    f_contiguous = property(lambda s: s["F"]); c_contiguous = property(lambda s: s["C"])
    writeable = property(lambda s: s["W"]); owndata = property(lambda s: s["O"])

class SymArr:
    _is_symarr = True
    __array_ufunc__ = None
    __array_priority__ = 2000
    __hash__ = None
    def __init__(self, buf, shape, maps=None, owns=True):
        self.buf = buf; self._shape = tuple(dim_simplify(s) for s in shape)
        self.maps = maps if maps is not None else [("ax", k, I(0), 1) for k in range(len(shape))]
        self.owns = owns
    # -- construction
    @staticmethod
    def make(shape, fn, dtype=F64, order="C", name=None):
        shape = tuple(dim_simplify(s) for s in shape)
        return SymArr(Buf(memo_fn(fn), shape, dtype, order, name), shape)
    @staticmethod
    def apps(name, shape, dtype=F64, order="C"):
        return SymArr.make(shape, lambda *i: app(name, *i), dtype, order, name)
    # -- attributes
    @property
    def shape(self): return self._shape
    @shape.setter
    def shape(self, s): 
        b = self.reshape(s); self.buf, self._shape, self.maps = b.buf, b._shape, b.maps
    @property
    def ndim(self): return len(self._shape)
    @property
    def dtype(self): return self.buf.dtype
    @property
    def size(self):
        r = 1
        for s in self._shape: r = r * s
        return r
    @property
    def flags(self): return Flags(self)
    @property
    def T(self): return self.transpose()
    @property
    def real(self): return self
    @property
    def base(self): return None if self.owns else self.buf
    @property
    def flat(self): return self.ravel()
    def is_full(self):
        return len(self.maps) == self.ndim == len(self.buf.shape) and all(m[0] == "ax" and m[1] == k and m[2].const() == 0 and m[3] == 1 and
            I(self._shape[k]).key == I(self.buf.shape[k]).key for k, m in enumerate(self.maps))
    def is_order(self, o):
        if self.ndim <= 1 or any(dim_is1(s) for s in self._shape): return True
        bo = self.buf.order
        axes = [m[1] for m in self.maps if m[0] == "ax"]
        if any(m[0] == "ax" and m[3] != 1 for m in self.maps): return False
        if axes == list(range(self.ndim)): mine = bo
        elif axes == list(range(self.ndim))[::-1]: mine = "F" if bo == "C" else "C"
        else: return False
        full = [k for k, m in enumerate(self.maps) if m[0] == "ax" and m[2].const() == 0 and I(self._shape[m[1]]).key == I(self.buf.shape[k]).key]
        # contiguous block: all but the slowest axis complete
        slow = 0 if bo == "C" else len(self.buf.shape) - 1
        if any(k not in full and k != slow for k in range(len(self.maps))): return False
        return mine == o
    # -- reading
    def snap(self):
        """immutable reading function over the view's indices"""
        f = self.buf.fn
        if len(self.maps) == self.ndim and all(m[0] == "ax" and m[1] == k and m[3] == 1 and m[2].const() == 0 for k, m in enumerate(self.maps)): return f
        maps = self.maps
        def g(*idx):
            b = []
            for m in maps:
                if m[0] == "fix": b.append(m[1])
                elif m[0] == "fn": b.append(m[1](*idx))
                else: b.append(I(m[2] + I(idx[m[1]]) * m[3]))
            return f(*b)
        return g
    def at(self, *idx): return self.snap()(*[I(i) for i in idx])
    def val(self, *idx):
        v = self.at(*idx)
        return mkbool(v) if isinstance(v, Cond) else v
    def rsnap(self):
        f = self.snap()
        if self.dtype == B1:
            return lambda *i: mkite(cond_of(f(*i)), TM.ONE, TM.ZERO)
        return f
    # -- writing
    def _write(self, valfn, where=None):
        b = self.buf
        if not b.writeable: raise ValueError("assignment destination is read-only")
        if b.dtype == B1: valfn2 = lambda *i: cond_of(valfn(*i))
        else: valfn2 = valfn
        if any(m[0] == "fn" for m in self.maps): raise Unsupported("write through a reshaped view")
        if self.is_full() and where is None:
            b.fn = memo_fn(valfn2); return
        old, maps, shape, bshape = b.fn, self.maps, self._shape, b.shape
        def new(*bi):
            idx = [None] * len(shape); conds = []
            for j, m in enumerate(maps):
                if m[0] == "fix": conds.append(Cond.eq(I(bi[j]) - m[1])); continue
                k, st, sp = m[1], m[2], m[3]
                if sp not in (1, -1): raise Unsupported("strided write")
                e = I(I(bi[j]) - st) if sp == 1 else I(st - I(bi[j]))
                if idx[k] is not None: conds.append(Cond.eq(idx[k] - e)); continue
                idx[k] = e
                if not (sp == 1 and st.const() == 0): conds.append(Cond.le(-e))
                if not (sp == 1 and I(st + shape[k]).key == I(bshape[j]).key): conds.append(Cond.le(e + 1 - shape[k]))
            idx = [I(0) if x is None else x for x in idx]
            if where is not None: conds.append(cond_of(where(*idx)))
            c = Cond.conj(*conds)
            if c is FALSE: return old(*bi)
            return site(c, valfn2(*idx), old(*bi))
        b.fn = memo_fn(new)
    # -- indexing
    def _axis_index(self, i, d):
        """integer index -> buffer offset, with bounds obligation"""
        i = I(i); d = I(d)
        c = i.const()
        if c is not None and c < 0:
            i = I(i + d); 
            if not ctx().decide(Cond.le(-i)): raise IndexError("index out of bounds")
            return i
        if c is None and not ctx().entails(Cond.le(-i)):
            if ctx().decide(Cond.le(i + 1)):
                i = I(i + d)
                if not ctx().decide(Cond.le(-i)): raise IndexError("index out of bounds")
                return i
        if not ctx().decide(Cond.le(i - d + 1)): raise IndexError("index out of bounds")
        return i
    def _view(self, key):
        if not isinstance(key, tuple): key = (key,)
        n_spec = builtins.sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            e = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:e] + (slice(None),) * (self.ndim - n_spec) + key[e + 1:]
        else: key = key + (slice(None),) * (self.ndim - n_spec)
        if builtins.sum(1 for k in key if k is not None) > self.ndim: raise IndexError("too many indices for array")
        ax = 0; newshape = []; amap = {}   # old axis -> ("fix", e) or ("ax", newk, start, step)
        gathers = []
        for k in key:
            if k is None: newshape.append(1); continue
            d = self._shape[ax]
            if isinstance(k, slice):
                st, ln, sp = norm_slice(k, d)
                amap[ax] = ("ax", len(newshape), I(st), sp); newshape.append(ln)
            elif isinstance(k, (int, IPoly)) and not isinstance(k, bool):
                amap[ax] = ("fix", self._axis_index(k, d))
            elif isinstance(k, R) and k.op in "ci": amap[ax] = ("fix", self._axis_index(IPoly.of(k), d))
            elif hasattr(k, "__index__") and not isarr(k): amap[ax] = ("fix", self._axis_index(k.__index__(), d))
            elif isinstance(k, (list,)) or isarr(k):
                if isinstance(k, list): k = asarr(k)
                if k.dtype == B1: raise Unsupported("boolean mask index")
                if k.ndim == 0: amap[ax] = ("fix", self._axis_index(IPoly.of(k.at()), d))
                elif k.ndim == 1 and k.shape[0] == 1:
                    e = self._axis_index(IPoly.of(k.at(0)), d)
                    amap[ax] = ("ax", len(newshape), e, 1); newshape.append(1); gathers.append(None)
                elif k.ndim == 1:
                    gathers.append(k); amap[ax] = ("gather", len(newshape), k, d); newshape.append(k.shape[0])
                else: raise Unsupported("fancy index")
            else: raise Unsupported(f"index {type(k).__name__}")
            ax += 1
        return newshape, amap, gathers
    def __getitem__(self, key):
        newshape, amap, gathers = self._view(key)
        if not newshape:
            idx = [amap[k][1] for k in range(self.ndim)]
            ex = getattr(ctx(), "extreme", None)
            if ex and self.ndim == 1 and IPoly.of(idx[0]).key in ex:
                from .ssp import same_arr
                b, q, fac = ex[IPoly.of(idx[0]).key]
                if same_arr(self, b if fac is TM.ONE else b * fac): return fac * q
            return self.val(*idx)
        if any(g is not None for g in gathers):
            f = self.snap()
            ks = {a: m[2].snap() for a, m in amap.items() if m[0] == "gather"}
            def g(*i):
                out = []
                for a in range(self.ndim):
                    m = amap[a]
                    if m[0] == "fix": out.append(m[1])
                    elif m[0] == "ax": out.append(I(m[2] + I(i[m[1]]) * m[3]))
                    else:
                        j = IPoly.of(ks[a](i[m[1]])); 
                        if j.const() is not None and j.const() < 0: j = I(j + m[3])
                        out.append(j)
                return f(*out)
            return SymArr.make(newshape, g, self.dtype)
        v = self._compose(newshape, amap)
        if gathers: return v.copy()
        return v
    def _compose(self, newshape, amap):
        maps = []
        for m in self.maps:
            if m[0] == "fix": maps.append(m)
            elif m[0] == "fn":
                f = m[1]
                def g(*i, f=f):
                    o = []
                    for a in range(self.ndim):
                        x = amap[a]
                        o.append(x[1] if x[0] == "fix" else I(x[2] + I(i[x[1]]) * x[3]))
                    return f(*o)
                maps.append(("fn", g))
            else:
                x = amap[m[1]]
                if x[0] == "fix": maps.append(("fix", I(m[2] + x[1] * m[3])))
                else: maps.append(("ax", x[1], I(m[2] + x[2] * m[3]), m[3] * x[3]))
        return SymArr(self.buf, newshape, maps, owns=False)
    def __setitem__(self, key, value):
        if isarr(key) and key.dtype == B1:
            c = key.snap(); value = value if isarr(value) else asarr(value)
            if value.ndim != 0: raise Unsupported("masked assignment of an array")
            x = value.at(); old = self.snap()
            self._write(lambda *i: site(cond_of(c(*i)), x, old(*i))); return
        newshape, amap, gathers = self._view(key)
        if any(g is not None for g in gathers): raise Unsupported("fancy assignment")
        v = self._compose(newshape, amap)
        v._assign(value)
    def _assign(self, value, where=None):
        value = value if isarr(value) else asarr(value)
        vs = list(value.shape)
        while len(vs) > self.ndim:
            if not dim_is1(vs[0]): raise ValueError("could not broadcast input array")
            vs.pop(0); value = value[0]
            if not isarr(value): value = asarr(value)
        bm = bmap(value.shape, self._shape, strict=True)
        f = value.snap() if self.dtype == B1 else value.rsnap()
        self._write(lambda *i: f(*bm(i)), where)
    def fill(self, x): self._assign(x)
    # -- views and copies
    def copy(self, order="C"):
        f = self.snap()
        o = self.buf.order if order in ("K", "A") and self.is_order(self.buf.order) else ("F" if order == "F" else "C")
        return SymArr.make(self._shape, f, self.dtype, o)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, m): return self.copy("K")
    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        dt = DType(dt)
        if dt == self.dtype and not copy: return self
        a = self.copy(order)
        if dt.kind == "i" and self.dtype.kind == "f":
            f = a.snap(); a = SymArr.make(a.shape, lambda *i: R.of(rtrunc(f(*i))), dt)
        elif self.dtype == B1 and dt != B1: a = SymArr.make(a.shape, self.rsnap(), dt)
        elif dt == B1 and self.dtype != B1:
            f = a.snap(); a = SymArr.make(a.shape, lambda *i: cond_of(R.of(f(*i)) != 0), dt)
        a.buf.dtype = dt
        return a
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = tuple(axes[0])
        axes = axes or tuple(range(self.ndim))[::-1]
        inv = {a: k for k, a in enumerate(axes)}
        return self._compose([self._shape[a] for a in axes], {a: ("ax", inv[a], I(0), 1) for a in range(self.ndim)})
    def swapaxes(self, a, b):
        ax = list(range(self.ndim)); ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)
    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        shape = [dim_simplify(s) for s in shape]
        neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if neg:
            known = 1
            for k, s in enumerate(shape):
                if k != neg[0]: known = known * s
            if isinstance(known, int) and known == 1: shape[neg[0]] = self.size
            else:
                # cancel common factors
                rest = list(self._shape)
                for k, s in enumerate(shape):
                    if k == neg[0]: continue
                    hit = [j for j, r in enumerate(rest) if I(r).key == I(s).key]
                    if hit: rest.pop(hit[0])
                    elif dim_is1(s): pass
                    else: raise Unsupported("reshape(-1) of symbolic size")
                p = 1
                for r in rest: p = p * r
                shape[neg[0]] = p
        tot = 1
        for s in shape: tot = tot * s
        if not dim_eq(tot, self.size): raise ValueError(f"cannot reshape array of size {self.size} into shape {tuple(shape)}")
        old = [(k, s) for k, s in enumerate(self._shape) if not dim_is1(s)]
        new = [(k, s) for k, s in enumerate(shape) if not dim_is1(s)]
        if len(old) == len(new) and all(I(a[1]).key == I(b[1]).key or ctx().entails(Cond.eq(I(a[1]) - b[1])) for a, b in zip(old, new)):
            amap = {k: ("fix", I(0)) for k in range(self.ndim)}
            for (a, _), (b, _) in zip(old, new): amap[a] = ("ax", b, I(0), 1)
            return self._compose(shape, amap)
        if order != "C": raise Unsupported("reshape order")
        if len(new) == 1 and len(old) > 1 or len(old) >= 1:
            src = self._shape; f = self.snap()
            def g(*i):
                lin = I(0)
                for k, s in enumerate(shape): lin = I(lin * s + i[k])
                out = []
                for s in reversed(src[1:]): out.append(I(lin % s) if not isinstance(lin % s, int) else I(lin % s)); lin = I(lin // s)
                out.append(lin)
                return f(*out[::-1])
            if self.ndim == 0: return SymArr.make(shape, lambda *i: f(), self.dtype)
            r = SymArr.make(shape, g, self.dtype)
            r.buf.writeable = not self.is_order("C")   # writing through the copy is not modelled when numpy returns a view
            return r
        if not old and not new or all(dim_is1(s) for s in shape):
            f = self.snap(); z = [I(0)] * self.ndim
            return self._compose(shape, {k: ("fix", I(0)) for k in range(self.ndim)})
        raise Unsupported("reshape")
    def ravel(self, order="C"): 
        if order == "F" or (order in ("K", "A") and not self.is_order("C")): return self.T.reshape(-1)
        return self.reshape(-1)
    def flatten(self, order="C"): return self.ravel(order).copy()
    def squeeze(self, axis=None):
        ks = [k for k, s in enumerate(self._shape) if not (dim_is1(s) and (axis is None or k == axis % self.ndim))]
        return self.reshape(tuple(self._shape[k] for k in ks)) if ks else (self.reshape(()) )
    def resize(self, *shape, refcheck=True):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        if len(shape) != self.ndim or not all(dim_eq(a, b) for a, b in zip(shape, self._shape)): raise Unsupported("resize to another shape")
    def item(self, *idx):
        if idx: return self[idx]
        if not dim_eq(self.size, 1): raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.val(*[I(0)] * self.ndim)
    def tolist(self):
        if self.ndim == 0: return self.item()
        return [self[i].tolist() if self.ndim > 1 else self[i] for i in range(self._clen())]
    def _clen(self):
        if not isinstance(self._shape[0], int): raise Unsupported("iteration over a symbolic dimension")
        return self._shape[0]
    def _as_scalar(self):
        if self.ndim and not all(dim_is1(s) for s in self._shape): raise ValueError("truth value of an array with more than one element is ambiguous")
        return self.at(*[I(0)] * self.ndim)
    def __bool__(self):
        if self.ndim and not all(dim_eq(s, 1) for s in self._shape): raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        v = self.at(*[I(0)] * self.ndim)
        return ctx().decide(cond_of(v))
    def __float__(self): raise Unsupported("float() of a symbolic array")
    def __len__(self):
        if self.ndim == 0: raise TypeError("len() of unsized object")
        if isinstance(self._shape[0], int): return self._shape[0]
        raise Unsupported("builtin len() of a symbolic dimension")
    def __iter__(self):
        if self.ndim == 0: raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(self._clen()))
    def __repr__(self): return f"SymArr{self._shape}:{self.dtype.name}"
    def __contains__(self, x): raise Unsupported("in array")
    # -- arithmetic
    def _bin(self, o, f, swap=False, out=None, dt=None):
        if not (isarr(o) or isinstance(o, (int, float, Fraction, IPoly, R, SymBool, Cond, list, tuple)) or type(o).__module__ == "numpy"): return NotImplemented
        return ufunc2(f, o, self, dt=dt) if swap else ufunc2(f, self, o, dt=dt)
    def __add__(s, o): return s._bin(o, radd)
    def __radd__(s, o): return s._bin(o, radd, True)
    def __sub__(s, o): return s._bin(o, rsub)
    def __rsub__(s, o): return s._bin(o, rsub, True)
    def __mul__(s, o): return s._bin(o, rmul)
    def __rmul__(s, o): return s._bin(o, rmul, True)
    def __truediv__(s, o): return s._bin(o, rdivn)
    def __rtruediv__(s, o): return s._bin(o, rdivn, True)
    def __floordiv__(s, o): return s._bin(o, lambda a, b: R.of(rfloor(rdivn(a, b))))
    def __mod__(s, o): return s._bin(o, lambda a, b: a - b * R.of(rfloor(rdivn(a, b))))
    def __rmod__(s, o): return s._bin(o, lambda a, b: a - b * R.of(rfloor(rdivn(a, b))), True)
    def __rfloordiv__(s, o): return s._bin(o, lambda a, b: R.of(rfloor(rdivn(a, b))), True)
    def __pow__(s, o): return s._bin(o, rpow_)
    def __rpow__(s, o): return s._bin(o, rpow_, True)
    def __neg__(s): return ufunc1(lambda a: rmul(R.of(-1), a), s)
    def __pos__(s): return s.copy()
    def __abs__(s): return ufunc1(rabs, s)
    def __invert__(s):
        f = s.snap(); return SymArr.make(s.shape, lambda *i: cond_of(f(*i)).neg(), B1)
    def _log(s, o, op):
        o = o if isarr(o) else asarr(o)
        sh, (m1, m2) = broadcast(s.shape, o.shape); f, g = s.snap(), o.snap()
        return SymArr.make(sh, lambda *i: op(cond_of(f(*m1(i))), cond_of(g(*m2(i)))), B1)
    def __and__(s, o): return s._log(o, Cond.conj)
    def __or__(s, o): return s._log(o, Cond.disj)
    __rand__ = __and__; __ror__ = __or__
    def _ip(s, o, f):
        r = s._bin(o, f)
        if r is NotImplemented: return r
        if not isarr(r): r = asarr(r)
        if len(r.shape) != s.ndim or not all(dim_eq(a, b) for a, b in zip(r.shape, s.shape)): raise ValueError("non-broadcastable output operand")
        if s.dtype.kind == "i" and r.dtype.kind == "f": raise TypeError("Cannot cast ufunc output from float64 to int64")
        g = r.snap(); s._write(g); return s
    def __iadd__(s, o): return s._ip(o, radd)
    def __isub__(s, o): return s._ip(o, rsub)
    def __imul__(s, o): return s._ip(o, rmul)
    def __itruediv__(s, o): return s._ip(o, rdivn)
    def __ipow__(s, o): return s._ip(o, rpow_)
    def __matmul__(s, o):
        if not isarr(o): 
            if isinstance(o, (list, tuple)): o = asarr(o)
            else: return NotImplemented
        return matmul(s, o)
    def __rmatmul__(s, o):
        if type(o).__module__.startswith("contract_"): raise TypeError("object array in matmul")     # numpy wraps an unknown object as a 0-d object array
        return matmul(asarr(o), s)
    def _cmp(s, o, kind):
        return ufunc2(lambda a, b: cond_of(a._cmp(b, kind)), s, o, dt=B1)
    def __lt__(s, o): return s._cmp(o, "<")
    def __le__(s, o): return s._cmp(o, "<=")
    def __gt__(s, o): return s._cmp(o, ">")
    def __ge__(s, o): return s._cmp(o, ">=")
    def __eq__(s, o):
        if o is None or isinstance(o, (str, type)): return False
        return s._cmp(o, "==")
    def __ne__(s, o):
        if o is None or isinstance(o, (str, type)): return True
        return s._cmp(o, "!=")
    # -- methods delegating to functions
    def sum(s, axis=None, dtype=None, out=None, keepdims=False): nokw(dtype=dtype, out=out); return reduce_sum(s, axis, keepdims)
    def mean(s, axis=None, dtype=None, out=None, keepdims=False): nokw(dtype=dtype, out=out); return np_mean(s, axis, keepdims)
    def prod(s, axis=None, **k): nokw(**k); return reduce_prod(s, axis)
    def std(s, axis=None, ddof=0, keepdims=False, **k): nokw(**k); return ufunc1(rsqrt, np_var(s, axis, ddof, keepdims))
    def var(s, axis=None, ddof=0, keepdims=False, **k): nokw(**k); return np_var(s, axis, ddof, keepdims)
    def dot(s, o): return np_dot(s, o)
    def max(s, axis=None, **k): nokw(**k); return reduce_opaque("max", s, axis)
    def min(s, axis=None, **k): nokw(**k); return reduce_opaque("min", s, axis)
    def argmax(s, axis=None, **k): nokw(**k); return reduce_opaque("argmax", s, axis)
    def argmin(s, axis=None, **k): nokw(**k); return reduce_opaque("argmin", s, axis)
    def trace(s): return np_trace(s)
    def diagonal(s): return np_diag(s)
    def cumsum(s, axis=None): return np_cumsum(s, axis)
    def conj(s): return s
    def all(s, axis=None): return np_all(s)
    def any(s, axis=None): return np_any(s)
    def clip(s, a=None, b=None, **k): nokw(**k); return np_clip(s, a, b)
    def round(s, *a): raise Unsupported("round")
    def sort(s, *a): raise Unsupported("sort")
    def nonzero(s): return np.where(s)
    def repeat(s, *a): raise Unsupported("repeat")

def rsub(a, b): return radd(a, rmul(R.of(-1), b))
def rdivn(a, b):
    """array division: a zero denominator gives nan or inf instead of an exception"""
    if b is TM.ZERO:
        if a is TM.ZERO: return R.of(math.nan)
        return R("app", "divzero", ())
    return rdiv(a, b)
def rpow_(a, b): return rpow(a, b)
def rtrunc(r):
    r = R.of(r)
    if r.op == "c": return int(r.args[0])
    if r.op == "i": return r.args[0]
    return rfloor(r) if ctx().entails(Cond.real("rle", -r), real=True) else (_ for _ in ()).throw(Unsupported("truncation of a possibly negative real"))

def norm_slice(k, d):
    """-> (start, length, step) for a concrete step of +-1 (or constant)"""
    D = I(d)
    sp = 1 if k.step is None else k.step
    if not isinstance(sp, int): raise Unsupported("symbolic slice step")
    def clamp(v, lo, hi):
        v = I(v)
        c = v.const()
        neg = (c < 0) if c is not None else (False if ctx().entails(Cond.le(-v)) else ctx().decide(Cond.le(v + 1)))
        if neg: v = I(v + D)
        if not ctx().decide(Cond.le(I(lo) - v)): return I(lo)
        if not ctx().decide(Cond.le(v - hi)): return I(hi)
        return v
    def ix(v):
        if v is None: return None
        if isinstance(v, R): return IPoly.of(v)
        if isarr(v): return IPoly.of(v._as_scalar())
        return v
    s0, s1 = ix(k.start), ix(k.stop)
    if sp > 0:
        a = I(0) if s0 is None else clamp(s0, 0, D)
        b = D if s1 is None else clamp(s1, 0, D)
        ln = I(b - a)
        if ln.const() is None:
            if not ctx().decide(Cond.le(-ln)): ln = I(0)
        elif ln.const() < 0: ln = I(0)
        if sp > 1: ln = I((ln + (sp - 1)) // sp)
        return a, ln, sp
    a = I(D - 1) if s0 is None else clamp(s0, -1, D - 1)
    b = I(-1) if s1 is None else clamp(s1, -1, D - 1)
    ln = I(a - b)
    if not ctx().decide(Cond.le(-ln)): ln = I(0)
    if sp < -1: ln = I((ln + (-sp - 1)) // (-sp))
    return a, ln, sp

def bmap(src, dst, strict=False):
    """index map of a broadcast of shape src to shape dst"""
    off = len(dst) - len(src)
    if off < 0: raise ValueError("could not broadcast")
    one = []
    for k, s in enumerate(src):
        t = dst[k + off]
        if I(s).key == I(t).key: one.append(False); continue
        if isinstance(s, int) and s == 1: one.append(True); continue
        if dim_eq(s, t): one.append(False); continue
        if dim_eq(s, 1): one.append(True); continue
        raise ValueError(f"could not broadcast input array from shape {tuple(src)} into shape {tuple(dst)}")
    return lambda idx: [I(0) if one[k] else idx[k + off] for k in range(len(src))]
def broadcast(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        ds = [s[k - (n - len(s))] for s in shapes if k - (n - len(s)) >= 0]
        cur = ds[0]
        for d in ds[1:]:
            if I(d).key == I(cur).key: continue
            if isinstance(cur, int) and cur == 1: cur = d; continue
            if isinstance(d, int) and d == 1: continue
            if dim_eq(d, cur): continue
            if dim_eq(cur, 1): cur = d; continue
            if dim_eq(d, 1): continue
            raise ValueError(f"operands could not be broadcast together with shapes {shapes}")
        out.append(cur)
    return tuple(out), [bmap(s, out) for s in shapes]

def dt_of(x):
    if isarr(x): return x.dtype
    if isinstance(x, (bool, SymBool)): return B1
    if isinstance(x, (int, IPoly)): return I64
    return F64
def ufunc2(f, a, b, out=None, dt=None):
    A, B = (a if isarr(a) else asarr(a)), (b if isarr(b) else asarr(b))
    if dt is None:
        da, db = A.dtype, B.dtype
        if not isarr(a) and db.kind == "f": da = db
        if not isarr(b) and da.kind == "f": db = da
        dt = promote(da, db)
        if dt.kind in "ib" and f in (rdivn,): dt = F64
        if dt.kind == "b": dt = I64
    sh, (m1, m2) = broadcast(A.shape, B.shape)
    fa, fb = A.rsnap(), B.rsnap()
    if out is not None:
        if not all(dim_eq(x, y) for x, y in zip(sh, out.shape)): raise ValueError("non-broadcastable output operand")
        out._write(lambda *i: f(R.of(fa(*m1(i))), R.of(fb(*m2(i))))); return out
    if not sh:
        r = f(R.of(fa()), R.of(fb()))
        return mkbool(r) if isinstance(r, Cond) else simp_scalar(r)
    o = "F" if (A.ndim == len(sh) and B.ndim == len(sh) and A.is_order("F") and B.is_order("F") and not A.is_order("C")) else "C"
    return SymArr.make(sh, lambda *i: f(R.of(fa(*m1(i))), R.of(fb(*m2(i)))), dt, o)
def simp_scalar(r): return r
def ufunc1(f, a, out=None, dt=None):
    if not isarr(a):
        if isinstance(a, (list, tuple)): a = asarr(a)
        else:
            r = f(R.of(a)); 
            return mkbool(r) if isinstance(r, Cond) else r
    g = a.rsnap()
    if out is not None: out._write(lambda *i: f(R.of(g(*i)))); return out
    if a.ndim == 0:
        r = f(R.of(g())); return mkbool(r) if isinstance(r, Cond) else r
    if dt is None: dt = a.dtype if a.dtype.kind == "f" else (I64 if f in (rabs,) else F64)
    return SymArr.make(a.shape, lambda *i: f(R.of(g(*i))), dt, a.buf.order if a.is_order(a.buf.order) else "C")

def asarr(x, dtype=None):
    if isarr(x): return x if dtype is None or DType(dtype) == x.dtype else x.astype(dtype)
    if isinstance(x, (SymBool, Cond)):
        c = cond_of(x); return SymArr.make((), lambda: c, B1)
    if isinstance(x, (int, float, Fraction, IPoly, R)) or type(x).__module__ == "numpy" and not hasattr(x, "shape"):
        dt = DType(dtype) if dtype is not None else dt_of(x)
        r = R.of(x)
        if dt == B1: c = cond_of(x); return SymArr.make((), lambda: c, B1)
        return SymArr.make((), lambda: r, dt)
    if isinstance(x, (list, tuple)):
        if not x: return SymArr.make((0,), lambda i: TM.ZERO, DType(dtype) if dtype is not None else F64)
        es = [e if isarr(e) else asarr(e) for e in x]
        sh = es[0].shape
        for e in es[1:]:
            if len(e.shape) != len(sh) or not all(dim_eq(a, b) for a, b in zip(e.shape, sh)): raise ValueError("inhomogeneous shape")
        dt = DType(dtype) if dtype is not None else promote(*[e.dtype for e in es])
        fs = [e.snap() if dt == B1 else e.rsnap() for e in es]
        def g(i, *rest):
            c = I(i).const()
            if c is not None: return fs[c](*rest) if 0 <= c < len(fs) else TM.ZERO
            r = fs[-1](*rest)
            for k in reversed(range(len(fs) - 1)): r = site(Cond.eq(I(i) - k), fs[k](*rest), r)
            return r
        return SymArr.make((len(es),) + tuple(sh), g, dt)
    if type(x).__module__ == "numpy" and hasattr(x, "tolist"): return asarr(x.tolist(), dtype)
    if hasattr(x, "to_symarr"): return x.to_symarr()
    if x is None: raise TypeError("object arrays are not supported")
    if hasattr(x, "__iter__") and not isinstance(x, (str, dict)): raise Unsupported(f"array of {type(x).__name__}")
    raise Unsupported(f"array of {type(x).__name__}")

# ---------------------------------------------------------------- reductions
def axes_of(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, tuple): return [k % a.ndim for k in axis]
    if not (-a.ndim <= axis < a.ndim): raise ValueError(f"axis {axis} is out of bounds for array of dimension {a.ndim}")
    return [axis % a.ndim]
def _reduce(a, axis, keepdims, comb):
    a = asarr(a)
    ax = axes_of(a, axis); f = a.rsnap()
    keep = [k for k in range(a.ndim) if k not in ax]
    sh = [a.shape[k] for k in keep]
    def at(idx):
        full = [None] * a.ndim
        for k, i in zip(keep, idx): full[k] = i
        return comb(a, ax, full, f)
    if not keep and not keepdims:
        return at(())
    if keepdims:
        sh2 = [1 if k in ax else a.shape[k] for k in range(a.ndim)]
        return SymArr.make(sh2, lambda *i: at([i[k] for k in keep]), a.dtype if a.dtype.kind == "f" else F64)
    return SymArr.make(sh, lambda *i: at(i), a.dtype if a.dtype.kind != "b" else I64)
def _nest(f, a, ax, full, op):
    full = list(full); vs = []
    for k in ax:
        v = fresh("s"); vs.append((v, k)); full[k] = S(v)
    r = R.of(f(*full))
    for v, k in reversed(vs): r = op(v, 0, a.shape[k], r)
    return r
def reduce_sum(a, axis=None, keepdims=False): return _reduce(a, axis, keepdims, lambda a, ax, full, f: _nest(f, a, ax, full, rsum))
def reduce_prod(a, axis=None, keepdims=False):
    if isinstance(a, (tuple, list)) and axis is None:
        r = 1
        for x in a: r = r * x
        return r
    return _reduce(a, axis, keepdims, lambda a, ax, full, f: _nest(f, a, ax, full, rprod))
def count(a, axis):
    n = 1
    for k in axes_of(a, axis): n = n * a.shape[k]
    return n
def nokw(**k):
    """keyword arguments which do not change the (real) result; any other is outside the subset"""
    for n, x in k.items():
        if x is None or n in ("order", "subok", "casting"): continue
        if n == "dtype" and DType(x).kind == "f": continue
        if n in ("copy",) : continue
        if n == "keepdims" and x is False: continue
        raise Unsupported(f"keyword {n}={x!r}"[:80])

def np_mean(a, axis=None, keepdims=False, **k):
    nokw(**k)
    a = asarr(a); n = R.of(count(a, axis))
    s = reduce_sum(a, axis, keepdims)
    if n.op == "i" and ctx().nosplit == 0 and ctx().decide(Cond.eq(n.args[0])): n = TM.ZERO
    if n is TM.ZERO: return R.of(math.nan) if not isarr(s) else SymArr.make(s.shape, lambda *i: R.of(math.nan), F64)
    return ufunc1(lambda x: rdiv(x, n), s) if isarr(s) else rdiv(s, n)
def np_var(a, axis=None, ddof=0, keepdims=False, **k):
    nokw(**k)
    a = asarr(a); m = np_mean(a, axis, True) if a.ndim else a
    d = a - m
    n = R.of(count(a, axis)) - ddof
    s = reduce_sum(d * d, axis, keepdims)
    if R.of(n).op == "i" and ctx().nosplit == 0 and ctx().decide(Cond.eq(n.args[0])): n = TM.ZERO
    n = R.of(n)
    if n is TM.ZERO: return R.of(math.nan) if not isarr(s) else SymArr.make(s.shape, lambda *i: R.of(math.nan), F64)
    return ufunc1(lambda x: rdiv(x, n), s) if isarr(s) else rdiv(s, n)
def opaque(name, bodies, extra=(), evalf=None):
    """an uninterpreted quantity determined by the given (index count, extents, element function) descriptions: equal descriptions
    (after normalisation) give equal quantities.  Free symbols become arguments."""
    keys = []; syms = set()
    for ext, f in bodies:
        vs = [f"o{k}" for k in range(len(ext))]
        with_range = [Cond.conj(Cond.le(-S(v)), Cond.le(S(v) + 1 - I(e))) for v, e in zip(vs, ext)]
        ctx().push()
        try:
            for c in with_range:
                try: ctx().add(c)
                except Exception: pass
            r = f(*[S(v) for v in vs])
            p = NM.normal(R.of(r) if not isinstance(r, Cond) else mkite(r, TM.ONE, TM.ZERO))
        finally: ctx().pop()
        keys.append(f"{[repr(I(e)) for e in ext]}:{p.key}")
        syms |= set(p.syms) - set(vs)
        for e in ext: syms |= set(I(e).syms)
    sy = sorted(syms)
    k = f"{name}({';'.join(keys)};{extra})"
    # alpha-rename free symbols that are not dimensions so that the quantity can be re-indexed
    free = [s for s in sy if not ctx().is_dim(s)]
    for n, s in enumerate(free): k = k.replace(s, f"\u00a7{n}")
    if evalf is not None and k not in ctx().providers:
        def prov(env, *idx):
            loc = tuple(zip(free, idx)); arrs = []
            for ext, f in bodies:
                sh = tuple(env.ip(I(e), loc) for e in ext); out = rnp.zeros(sh)
                for i in itertools.product(*[range(s) for s in sh]):
                    r = f(*[I(x) for x in i])
                    out[i] = float(env.c(r, loc)) if isinstance(r, Cond) else env.r(R.of(r), loc)
                arrs.append(out)
            try: return float(evalf(*arrs))
            except (ValueError, rnp.linalg.LinAlgError): return None
        ctx().providers[k] = prov
    return app(k, *[S(s) for s in free])
def congruent(name, a, q):
    """reuse the quantity of an earlier provably equal array"""
    c = ctx()
    if q.args[1] or getattr(c, "_stack", None) or c.nosplit: return q
    reg = c.__dict__.setdefault("redreg", [])
    from .ssp import same_arr, frozen
    for nm, b, q2 in reg:
        if nm == name and (q2 is q or same_arr(a, b)): return q2
    reg.append((name, frozen(a), q))
    return q
def reduce_opaque(name, a, axis=None):
    a = asarr(a)
    if name == "argmax" and a.dtype == B1 and a.ndim == 1:
        z = NonZero(a); return 0 if isinstance(z.symlen(), int) and z.symlen() == 0 else z[0]
    if a.ndim == 1 or axis is None:
        if isinstance(a.size, int) and a.ndim == 1 and name in ("max", "min"):
            if a.size == 0: raise ValueError("zero-size array to reduction operation has no identity")
            r = R.of(a.at(0))
            for k in range(1, a.size):
                x = R.of(a.at(k)); r = mkite(cond_of(r._cmp(x, "<" if name == "max" else ">")), x, r)
            return r
        f = a.rsnap()
        base = name[3:] if name.startswith("arg") else name
        n = I(a.size)
        if not ctx().entails(Cond.le(1 - n)) and ctx().decide(Cond.le(n)): raise ValueError("zero-size array to reduction operation has no identity")
        fac = TM.ONE
        if base in ("max", "min"):
            # max and min are homogeneous for nonnegative factors
            vs = [f"o{k}" for k in range(a.ndim)]
            try:
                P = NM.normal(R.of(f(*[S(v) for v in vs])))
                com = {x: e for x, e in NM.common_factor(P, frozenset(vs)).items() if NM.nonneg_term(NM.T(Fraction(1), (), {x: e}))}
            except Unsupported: com = {}
            if com:
                fac = NM.poly_to_R(NM.collect([NM.T(Fraction(1), (), dict(com))]))
                Q = NM.poly_to_R(NM.divide_out(P, com))
                f = lambda *i, Q=Q: rsubst(Q, {v: I(x) for v, x in zip(vs, i)})
                a = SymArr.make(a.shape, f)
        q = congruent(base, a, opaque(base, [(a.shape, f)], evalf=getattr(rnp, base)))
        from .ssp import used
        used("numpy max/min/argmax: an extreme value of the entries, attained at the returned index")
        if name.startswith("arg"):
            ag = congruent(name, a, opaque(name, [(a.shape, f)], evalf=getattr(rnp, name)))
            # the index is an integer in range
            at = IPoly.atom("floor", ag)
            ctx().assume(Cond.conj(Cond.le(-at), Cond.le(at - n + 1)))
            ctx().__dict__.setdefault("extreme", {})[IPoly.of(at).key] = (a, q, fac)
            return at
        return fac * q
    raise Unsupported("axis reduction " + name)
def _first(a, neg=False):
    """first true (false) entry of a vector of symbolic length, or None"""
    f = a.snap(); g = (lambda i: cond_of(f(I(i))).neg()) if neg else (lambda i: cond_of(f(I(i))))
    return least(g, I(a.shape[0]), (a.buf.fn, I(a.shape[0]).key, repr(_keyed(a)), neg))[1]
def np_all(a):
    a = asarr(a)
    if a.ndim == 1 and not isinstance(a.shape[0], int): return _first(a, True) is None
    f = a.snap(); cs = []
    if not all(isinstance(s, int) for s in a.shape):
        raise Unsupported("all() over a symbolic dimension")
    return mkbool(Cond.conj(*[cond_of(f(*[I(x) for x in i])) if isinstance(f(*[I(x) for x in i]), Cond) else cond_of(f(*[I(x) for x in i])) for i in itertools.product(*[range(s) for s in a.shape])]))
def np_any(a):
    a = asarr(a)
    if a.ndim == 1 and not isinstance(a.shape[0], int): return _first(a) is not None
    f = a.snap()
    if not all(isinstance(s, int) for s in a.shape): raise Unsupported("any() over a symbolic dimension")
    return mkbool(Cond.disj(*[cond_of(f(*[I(x) for x in i])) for i in itertools.product(*[range(s) for s in a.shape])]))

# ---------------------------------------------------------------- products
def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2: raise Unsupported("batched matmul")
    ka, kb = a.shape[-1], b.shape[0] 
    if not dim_eq(ka, kb): raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 ({a.shape} @ {b.shape})")
    fa, fb = a.rsnap(), b.rsnap()
    def dot(ia, ib):
        v = fresh("k")
        return rsum(v, 0, ka, rmul(R.of(fa(*ia, S(v))), R.of(fb(S(v), *ib))))
    sh = a.shape[:-1] + b.shape[1:]
    n1 = a.ndim - 1
    if not sh: return dot((), ())
    return SymArr.make(sh, lambda *i: dot(i[:n1], i[n1:]), promote(a.dtype, b.dtype))
def np_dot(a, b):
    A, B = asarr(a) if not isarr(a) else a, asarr(b) if not isarr(b) else b
    if A.ndim == 0 or B.ndim == 0: return A * B
    return matmul(A, B)
def einsum(sub, *ops, out=None, **kw):
    ops = [asarr(o) if not isarr(o) else o for o in ops]
    sub = sub.replace(" ", "")
    lhs, _, rhs = sub.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops): raise ValueError("einsum operands")
    ell = 0
    for s, o in zip(ins, ops):
        if "..." in s: ell = max(ell, o.ndim - len(s.replace("...", "")))
    E = "".join(chr(0x391 + k) for k in range(ell))
    full = []
    for s, o in zip(ins, ops):
        if "..." in s:
            n = o.ndim - len(s.replace("...", "")); s = s.replace("...", E[ell - n:])
        if len(s) != o.ndim: raise ValueError("einstein sum subscripts string contains the wrong number of subscripts for operand")
        full.append(s)
    if "->" not in sub:
        letters = "".join(full); rhs = E + "".join(sorted(c for c in set(letters) if letters.count(c) == 1 and c not in E))
    else: rhs = rhs.replace("...", E)
    dims = {}
    for s, o in zip(full, ops):
        for c, d in zip(s, o.shape):
            if c in dims and I(dims[c]).key != I(d).key:
                if isinstance(dims[c], int) and dims[c] == 1: dims[c] = d
                elif not dim_eq(dims[c], d): raise ValueError("operand has a mismatch in its core dimension")
            dims.setdefault(c, d)
    if len(ops) == 1 and len(full[0]) == 2 and full[0][0] == full[0][1] and rhs == full[0][0]:
        a = ops[0]
        return a._compose([a.shape[0]], {0: ("ax", 0, I(0), 1), 1: ("ax", 0, I(0), 1)})
    fs = [o.rsnap() for o in ops]
    shs = [o.shape for o in ops]
    inner = [c for c in dims if c not in rhs]
    def g(*idx):
        env = dict(zip(rhs, idx)); vs = []
        for c in inner:
            v = fresh("e"); vs.append((v, c)); env[c] = S(v)
        t = TM.ONE
        for f, s, sh in zip(fs, full, shs):
            t = rmul(t, R.of(f(*[env[c] if not (isinstance(d, int) and d == 1) else I(0) for c, d in zip(s, sh)])))
        for v, c in reversed(vs): t = rsum(v, 0, dims[c], t)
        return t
    if not rhs: return g()
    return SymArr.make([dims[c] for c in rhs], g, promote(*[o.dtype for o in ops]))
def np_trace(a):
    f = a.rsnap(); n = a.shape[0]
    if not (I(n).key == I(a.shape[1]).key): n = n if ctx().decide(Cond.le(I(n) - a.shape[1])) else a.shape[1]
    v = fresh("t"); return rsum(v, 0, n, R.of(f(S(v), S(v))))
def np_diag(a, k=0):
    a = asarr(a)
    f = a.rsnap()
    if a.ndim == 1:
        n = I(a.shape[0])
        if k == 0: return SymArr.make((n, n), lambda i, j: mkite(Cond.eq(i - j), R.of(f(i)), TM.ZERO), a.dtype)
        if k > 0: return SymArr.make((n + k, n + k), lambda i, j: mkite(Cond.eq(j - i - k), R.of(f(i)), TM.ZERO), a.dtype)
        return SymArr.make((n - k, n - k), lambda i, j: mkite(Cond.eq(i - j + k), R.of(f(j)), TM.ZERO), a.dtype)
    n, m = a.shape
    if k: raise Unsupported("off-diagonal extraction")
    d = n if I(n).key == I(m).key or ctx().decide(Cond.le(I(n) - m)) else m
    return SymArr.make((d,), lambda i: f(i, i), a.dtype)
def np_cumsum(a, axis=None, op=rsum):
    a = asarr(a)
    if a.ndim != 1: raise Unsupported("cumsum of a matrix")
    f = a.rsnap()
    def g(i):
        v = fresh("c"); return op(v, 0, i + 1, R.of(f(S(v))))
    return SymArr.make(a.shape, g, a.dtype)
def rmax(a, b):
    return mkite(cond_of(a._cmp(b, "<")), b, a)
def rmin(a, b):
    return mkite(cond_of(b._cmp(a, "<")), b, a)
def np_clip(a, lo, hi, out=None, **kw):
    nokw(**kw)
    if isinstance(a, (int, IPoly)) and (lo is None or isinstance(lo, (int, IPoly))) and (hi is None or isinstance(hi, (int, IPoly))):
        if lo is not None and a < lo: a = lo
        if hi is not None and a > hi: a = hi
        return a
    if isinstance(a, (list, tuple)) and out is None and all(isinstance(x, (int, IPoly)) for x in a) and all(x is None or isinstance(x, (int, IPoly)) for x in (lo, hi)): return asarr([np_clip(x, lo, hi) for x in a])
    r = a
    if lo is not None: r = ufunc2(rmax, r, lo)
    if hi is not None: r = ufunc2(rmin, r, hi)
    if out is not None: out._assign(r); return out
    return r

def lmap(f, l):
    """f over the items of a list, which may hold runs of symbolic length"""
    if getattr(l, "segs", None) is None: return [f(x) for x in l]
    r = type(l)(); r.segs = [(k, f(x)) if k == "one" else (k, type(x)(x.n, lambda i, x=x: f(x.fn(i)))) for k, x in l.segs]; return r
def pieces(arrs, axis):
    """arrays to join along the axis; a run of symbolic length is joined first"""
    if getattr(arrs, "segs", None) is None: return [asarr(a) for a in arrs]
    out = []
    for k, x in arrs.segs:
        if k == "one": out.append(asarr(x)); continue
        if ctx().decide(Cond.le(x.n)): continue
        one = type(arrs)(); one.segs = [(k, x)]; a = asarr(one); d = a.ndim - 1
        if d == 0: raise ValueError("zero-dimensional arrays cannot be concatenated")
        ax = axis % d
        if dim_eq(a.shape[ax + 1], 1):
            f = a.rsnap(); sh = [a.shape[0] if q == ax else a.shape[q + 1] for q in range(d)]
            out.append(SymArr.make(sh, lambda *i, f=f: f(i[ax], *[I(0) if q == ax else y for q, y in enumerate(i)]), a.dtype))
        elif ax == 0: out.append(a.reshape((-1,) + tuple(a.shape[2:])))
        else: raise Unsupported("joining a run of blocks")
    return out
def concat(arrs, axis=0):
    arrs = pieces(arrs, axis)
    if not arrs: raise ValueError("need at least one array to concatenate")
    nd = arrs[0].ndim
    if nd == 0: raise ValueError("zero-dimensional arrays cannot be concatenated")
    if any(a.ndim != nd for a in arrs): raise ValueError("all the input array dimensions must match")
    ax = axis % nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != ax and not dim_eq(a.shape[k], arrs[0].shape[k]): raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    dt = promote(*[a.dtype for a in arrs])
    offs = [I(0)]
    for a in arrs: offs.append(I(offs[-1] + a.shape[ax]))
    fs = [a.snap() if dt == B1 else a.rsnap() for a in arrs]
    live = [k for k, a in enumerate(arrs) if not (isinstance(a.shape[ax], int) and a.shape[ax] == 0)] or [0]
    def g(*i):
        def val(k): return fs[k](*[I(x - offs[k]) if q == ax else x for q, x in enumerate(i)])
        r = val(live[-1])
        for k in reversed(live[:-1]): r = site(Cond.le(i[ax] - offs[k + 1] + 1), val(k), r)
        return r
    sh = list(arrs[0].shape); sh[ax] = offs[-1]
    return SymArr.make(sh, g, dt)

# ---------------------------------------------------------------- the module
class Finfo:
    def __init__(self, dt): self.dt = DType(dt) if not isinstance(dt, float) else F64
    @property
    def eps(self): return R.of(2.0 ** -23 if self.dt == F32 else 2.0 ** -52)
    tiny = property(lambda s: R("app", "tiny", ())); max = property(lambda s: R("app", "fmax", ()))
class CClass:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        cols = []
        for k in key:
            k = asarr(k); cols.append(k[:, None] if k.ndim == 1 else (k.reshape(1, 1) if k.ndim == 0 else k))
        return concat(cols, 1)
class RClass:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        return concat([k if isarr(k) and k.ndim else asarr([k]) if not isinstance(k, (list, tuple)) and not isarr(k) else asarr(k) for k in key], 0)
class PrintOpts:
    def __enter__(self): return self
    def __exit__(self, *a): return False

def const_arr(shape, val, dtype=F64, order="C"):
    shape = shape if isinstance(shape, (tuple, list)) else (shape,)
    for s in shape:
        if isinstance(s, int) and s < 0: raise ValueError("negative dimensions are not allowed")
        if isinstance(s, IPoly) and not ctx().entails(Cond.le(-s)):
            if ctx().decide(Cond.le(s + 1)): raise ValueError("negative dimensions are not allowed")
        if isinstance(s, (float, R)): 
            if not (isinstance(s, R) and s.op in "ci"): raise TypeError("'float' object cannot be interpreted as an integer")
    return SymArr.make(tuple(IPoly.of(s) for s in shape), lambda *i: val, DType(dtype), order if order in ("C", "F") else "C")

class SymNumpy:
    ndarray = SymArr
    newaxis = None; inf = math.inf; nan = math.nan; pi = math.pi; e = math.e
    dtype = DType
    float64 = _TYPES["float64"]; float32 = _TYPES["float32"]; int64 = _TYPES["int64"]; int32 = _TYPES["int32"]; int_ = _TYPES["int64"]; intp = int_
    bool_ = _TYPES["bool"]; complex128 = _TYPES["complex128"]; double = float64; single = float32; float16 = _TYPES["float16"]; longdouble = _TYPES["longdouble"]
    c_ = CClass(); r_ = RClass(); finfo = Finfo
    def printoptions(self, **k): return PrintOpts()
    def array2string(self, *a, **k): return "<array>"
    def zeros(self, shape, dtype=F64, order="C"): return const_arr(shape, TM.ZERO if DType(dtype) != B1 else FALSE, dtype, order)
    def ones(self, shape, dtype=F64, order="C"): return const_arr(shape, TM.ONE if DType(dtype) != B1 else TRUE, dtype, order)
    def full(self, shape, fill_value, dtype=None, order="C"):
        return const_arr(shape, R.of(fill_value), dtype if dtype is not None else dt_of(fill_value), order)
    def empty(self, shape, dtype=F64, order="C"):
        a = const_arr(shape, TM.ZERO, dtype, order); n = fresh("garbage")
        ctx().providers[n] = lambda env, *i: None
        a.buf.fn = memo_fn(lambda *i: app(n, *i)); return a
    def zeros_like(self, a, dtype=None, **k): nokw(**k); return self.zeros(a.shape, dtype if dtype is not None else a.dtype)
    def ones_like(self, a, dtype=None, **k): nokw(**k); return self.ones(a.shape, dtype if dtype is not None else a.dtype)
    def empty_like(self, a, dtype=None, **k): nokw(**k); return self.empty(a.shape, dtype if dtype is not None else a.dtype)
    def full_like(self, a, v, dtype=None, **k): nokw(**k); return self.full(a.shape, v, dtype if dtype is not None else a.dtype)
    def eye(self, n, m=None, k=0, dtype=F64, order="C"):
        return SymArr.make((n, n if m is None else m), lambda i, j: mkite(Cond.eq(j - i - k), TM.ONE, TM.ZERO), DType(dtype), order)
    def identity(self, n, dtype=F64): return self.eye(n, dtype=dtype)
    def diag(self, a, k=0): return np_diag(a, k)
    def diagonal(self, a): return np_diag(a)
    def arange(self, *a, dtype=None):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        n = hi - lo
        if st != 1:
            if not isinstance(st, int): raise Unsupported("arange step")
            n = -((lo - hi) // st) if st > 0 else -((hi - lo) // (-st))
        if isinstance(n, (float, R)): raise Unsupported("arange of reals")
        if isinstance(n, int): n = max(n, 0)
        elif not ctx().decide(Cond.le(-n)): n = 0
        return SymArr.make((n,), lambda i: R.of(I(lo) + i * st), DType(dtype) if dtype is not None else I64)
    def linspace(self, a, b, num=50, endpoint=True, **k):
        nokw(**k)
        n = num
        d = R.of(n - 1 if endpoint else n)
        return SymArr.make((n,), lambda i: R.of(a) + rmul(R.of(i), rdivn(R.of(b) - R.of(a), d)), F64)
    def array(self, x, dtype=None, copy=True, order="K", ndmin=0, **k):
        nokw(**k)
        a = asarr(x)
        same = a is x
        if dtype is not None and DType(dtype) != a.dtype: a = a.astype(dtype); same = False
        if order in ("C", "F") and not a.is_order(order): a = a.copy(order); same = False
        if same and copy: a = a.copy("K" if order == "K" else order)
        if order in ("F", "C") and not same: a.buf.order = order if a.ndim > 1 else a.buf.order
        while a.ndim < ndmin: a = a[None]
        return a
    def asarray(self, x, dtype=None, order=None, **k): nokw(**k); return self.array(x, dtype, copy=None, order=order or "K")
    def asanyarray(self, x, dtype=None, **k): nokw(**k); return self.asarray(x, dtype)
    def ascontiguousarray(self, x, dtype=None): return self.array(x, dtype, copy=None, order="C")
    def asfortranarray(self, x, dtype=None): return self.array(x, dtype, copy=None, order="F")
    def atleast_1d(self, *xs):
        r = []
        for x in xs:
            a = asarr(x); r.append(a.reshape(1) if a.ndim == 0 else a)
        return r[0] if len(r) == 1 else r
    def atleast_2d(self, *xs):
        r = []
        for x in xs:
            a = asarr(x); r.append(a.reshape(1, 1) if a.ndim == 0 else a[None, :] if a.ndim == 1 else a)
        return r[0] if len(r) == 1 else r
    def copy(self, a, order="K"): return asarr(a).copy(order)
    def copyto(self, dst, src, where=True, casting=None):
        if where is not True: raise Unsupported("copyto where")
        dst._assign(src)
    def append(self, a, b, axis=None):
        if axis is None: a, b = self.ravel(a), self.ravel(b); axis = 0
        return concat([a, b], axis)
    def concatenate(self, arrs, axis=0, **k):
        nokw(**k)
        if axis is None: return concat(lmap(self.ravel, arrs), 0)
        return concat(arrs if getattr(arrs, "segs", None) is not None else list(arrs), axis)
    concat = concatenate
    def hstack(self, arrs):
        arrs = lmap(self.atleast_1d, arrs); p = pieces(arrs, 0) if getattr(arrs, "segs", None) is None or all(k == "one" for k, _ in arrs.segs) else None
        first = p[0] if p else next(x if k == "one" else x.fn(S("p0")) for k, x in arrs.segs)
        return concat(arrs, 0 if first.ndim == 1 else 1)
    def vstack(self, arrs): return concat(lmap(self.atleast_2d, arrs), 0)
    def column_stack(self, arrs):
        if getattr(arrs, "segs", None) is None: return self.c_[tuple(arrs)]
        return concat(lmap(lambda a: asarr(a)[:, None] if asarr(a).ndim == 1 else asarr(a), arrs), 1)
    def stack(self, arrs, axis=0):
        if axis == 0: return concat(lmap(lambda a: asarr(a)[None], arrs), 0)
        if axis in (-1, 1): 
            a = lmap(lambda a: asarr(a)[..., None], arrs)
            if axis == -1 or getattr(a, "segs", None) is None and all(x.ndim == 2 for x in a): return concat(a, -1)
        raise Unsupported("stack axis")
    def block(self, bl):
        return concat([concat([self.atleast_2d(x) for x in row], 1) for row in bl], 0)
    def flip(self, a, axis=None):
        a = asarr(a)
        ax = axes_of(a, axis)
        return a[tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim))]
    def flipud(self, a): return self.flip(a, 0)
    def roll(self, a, shift, axis=None):
        a = asarr(a)
        if a.ndim != 1: raise Unsupported("roll of a matrix")
        n = I(a.shape[0]); f = a.snap(); s = I(shift)
        if s.const() is not None and s.const() >= 0: return SymArr.make(a.shape, lambda i: site(Cond.le(s - i), f(I(i - s)), f(I(i - s + n))), a.dtype)
        if s.const() is not None: return SymArr.make(a.shape, lambda i: site(Cond.le(i - s - n + 1), f(I(i - s)), f(I(i - s - n))), a.dtype)
        raise Unsupported("roll by a symbolic amount")
    def ravel(self, a, order="C"): return asarr(a).reshape(-1) if order == "C" else asarr(a).ravel(order)
    def reshape(self, a, shape, order="C"): return asarr(a).reshape(shape)
    def squeeze(self, a, axis=None): return asarr(a).squeeze(axis)
    def transpose(self, a, axes=None): return asarr(a).transpose(*(axes or ()))
    def expand_dims(self, a, axis): return asarr(a)[tuple([None if k == axis else slice(None) for k in range(asarr(a).ndim + 1)])]
    def where(self, c, *ab):
        if not ab:
            if asarr(c).ndim != 1: raise Unsupported("where(cond)")
            return (NonZero(asarr(c)),)
        a, b = ab
        C = asarr(c); A, B = asarr(a), asarr(b)
        sh, (m0, m1, m2) = broadcast(C.shape, A.shape, B.shape)
        f, g, h = C.snap(), A.rsnap(), B.rsnap()
        if not sh: return site(cond_of(f()), R.of(g()), R.of(h()))
        return SymArr.make(sh, lambda *i: mkite(cond_of(f(*m0(i))), R.of(g(*m1(i))), R.of(h(*m2(i)))), promote(A.dtype, B.dtype))
    def clip(self, a, a_min=None, a_max=None, out=None, **k): nokw(**{q: x for q, x in k.items() if q not in ('min', 'max')}); return np_clip(a, k.get("min", a_min), k.get("max", a_max), out)
    def maximum(self, a, b, out=None): return ufunc2(rmax, a, b, out)
    def minimum(self, a, b, out=None): return ufunc2(rmin, a, b, out)
    fmax = maximum; fmin = minimum
    def abs(self, a, out=None): return ufunc1(rabs, a, out)
    absolute = abs; fabs = abs
    def sqrt(self, a, out=None): return ufunc1(rsqrt, a, out)
    def square(self, a, out=None): return ufunc1(lambda x: rpow(x, 2), a, out)
    def exp(self, a, out=None): return ufunc1(lambda x: rfn("exp", x) if x is not TM.ZERO else TM.ONE, a, out)
    def log(self, a, out=None): return ufunc1(lambda x: rfn("log", x) if x is not TM.ONE else TM.ZERO, a, out)
    def floor(self, a, out=None): return ufunc1(lambda x: R.of(rfloor(x)), a, out)
    def ceil(self, a, out=None): return ufunc1(lambda x: R.of(-rfloor(-x)), a, out)
    def reciprocal(self, a, out=None): return ufunc1(lambda x: rdivn(TM.ONE, x), a, out)
    def sign(self, a, out=None):
        return ufunc1(lambda x: mkite(cond_of(x._cmp(0, "<")), R.of(-1), mkite(cond_of(x._cmp(0, ">")), TM.ONE, TM.ZERO)), a, out)
    def negative(self, a, out=None): return ufunc1(lambda x: rmul(R.of(-1), x), a, out)
    def positive(self, a, out=None): return ufunc1(lambda x: x, a, out)
    def hypot(self, a, b): return ufunc2(lambda x, y: rsqrt(x * x + y * y), a, b)
    def power(self, a, b, out=None): return ufunc2(rpow_, a, b, out)
    def add(self, a, b, out=None): return ufunc2(radd, a, b, out)
    def subtract(self, a, b, out=None): return ufunc2(rsub, a, b, out)
    def multiply(self, a, b, out=None): return ufunc2(rmul, a, b, out)
    def divide(self, a, b, out=None): return ufunc2(rdivn, a, b, out)
    true_divide = divide
    def less(self, a, b): return ufunc2(lambda x, y: cond_of(x._cmp(y, "<")), a, b, dt=B1)
    def greater(self, a, b): return ufunc2(lambda x, y: cond_of(x._cmp(y, ">")), a, b, dt=B1)
    def less_equal(self, a, b): return ufunc2(lambda x, y: cond_of(x._cmp(y, "<=")), a, b, dt=B1)
    def greater_equal(self, a, b): return ufunc2(lambda x, y: cond_of(x._cmp(y, ">=")), a, b, dt=B1)
    def equal(self, a, b): return ufunc2(lambda x, y: cond_of(x._cmp(y, "==")), a, b, dt=B1)
    def logical_and(self, a, b): return asarr(a)._log(b, Cond.conj) if isarr(a) or isarr(b) else mkbool(Cond.conj(cond_of(a), cond_of(b)))
    def logical_or(self, a, b): return asarr(a)._log(b, Cond.disj) if isarr(a) or isarr(b) else mkbool(Cond.disj(cond_of(a), cond_of(b)))
    def logical_not(self, a): return ~asarr(a) if isarr(a) else mkbool(cond_of(a).neg())
    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False): nokw(dtype=dtype, out=out); return reduce_sum(a, axis, keepdims)
    def mean(self, a, axis=None, dtype=None, out=None, keepdims=False): nokw(dtype=dtype, out=out); return np_mean(a, axis, keepdims)
    def average(self, a, axis=None, weights=None):
        if weights is None: return np_mean(a, axis)
        a = asarr(a); w = asarr(weights)
        if a.ndim != 1: raise Unsupported("average")
        return reduce_sum(a * w) / reduce_sum(w)
    def prod(self, a, axis=None, **k): nokw(**k); return reduce_prod(a, axis)
    def std(self, a, axis=None, ddof=0, **k): nokw(**{q: x for q, x in k.items() if q not in ('keepdims',)}); return ufunc1(rsqrt, np_var(a, axis, ddof, k.get("keepdims", False)))
    def var(self, a, axis=None, ddof=0, **k): nokw(**{q: x for q, x in k.items() if q not in ('keepdims',)}); return np_var(a, axis, ddof, k.get("keepdims", False))
    def cov(self, x, y=None, rowvar=True, ddof=None, bias=False):
        if y is not None: raise Unsupported("cov(x, y)")
        x = asarr(x)
        if x.ndim == 1: x = x[None, :]
        elif not rowvar: x = x.T
        dd = (0 if bias else 1) if ddof is None else ddof
        m = np_mean(x, 1, True); c = x - m
        r = matmul(c, c.T) / (x.shape[1] - dd)
        return r.reshape(()) if dim_is1(r.shape[0]) else r
    def cumsum(self, a, axis=None, **k): nokw(**k); return np_cumsum(a, axis)
    def cumprod(self, a, axis=None, **k): nokw(**k); return np_cumsum(a, axis, rprod)
    def diff(self, a, n=1, axis=-1):
        a = asarr(a)
        if a.ndim != 1 or n != 1: raise Unsupported("diff")
        return a[1:] - a[:-1]
    def dot(self, a, b, out=None): nokw(out=out); return np_dot(a, b)
    def vdot(self, a, b): return np_dot(self.ravel(a), self.ravel(b))
    def inner(self, a, b):
        a, b = asarr(a), asarr(b)
        return np_dot(a, b.T if b.ndim == 2 else b)
    def outer(self, a, b): a, b = self.ravel(a), self.ravel(b); return a[:, None] * b[None, :]
    def matmul(self, a, b, out=None):
        r = a @ b
        if out is not None: out._assign(r); return out
        return r
    def einsum(self, sub, *ops, **k): return einsum(sub, *ops, **k)
    def tensordot(self, a, b, axes=2):
        if axes == 1: return np_dot(a, b)
        raise Unsupported("tensordot")
    def trace(self, a, **k): nokw(**k); return np_trace(asarr(a))
    def min(self, a, axis=None, **k): nokw(**k); return reduce_opaque("min", a, axis)
    def max(self, a, axis=None, **k): nokw(**k); return reduce_opaque("max", a, axis)
    amin = min; amax = max
    def argmax(self, a, axis=None): return reduce_opaque("argmax", a, axis)
    def argmin(self, a, axis=None): return reduce_opaque("argmin", a, axis)
    def all(self, a, axis=None):
        if isinstance(a, (bool, SymBool)): return a
        return np_all(a)
    def any(self, a, axis=None):
        if isinstance(a, (bool, SymBool)): return a
        return np_any(a)
    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return ufunc2(lambda x, y: cond_of(rabs(x - y)._cmp(R.of(atol) + R.of(rtol) * rabs(y), "<=")), a, b, dt=B1)
    def allclose(self, a, b, **k): return self.all(self.isclose(a, b, **k))
    def isnan(self, a): return ufunc1(lambda x: TRUE if x.isnan_ else FALSE, a, dt=B1)
    def isinf(self, a): return ufunc1(lambda x: TRUE if x.op == "app" and x.args[0] in ("+inf", "-inf") else FALSE, a, dt=B1)
    def isfinite(self, a): return ufunc1(lambda x: FALSE if x.op == "app" and x.args[0] in ("+inf", "-inf", "nan") else TRUE, a, dt=B1)
    def isscalar(self, a): return not isarr(a)
    def ndim(self, a): return asarr(a).ndim
    def shape(self, a): return asarr(a).shape
    def size(self, a, axis=None): return asarr(a).size if axis is None else asarr(a).shape[axis]
    def real(self, a): return a.real if hasattr(a, "real") else a
    def conj(self, a): return a
    def triu(self, a, k=0):
        f = asarr(a).rsnap(); return SymArr.make(a.shape, lambda i, j: mkite(Cond.le(i - j + k), R.of(f(i, j)), TM.ZERO), a.dtype)
    def tril(self, a, k=0):
        f = asarr(a).rsnap(); return SymArr.make(a.shape, lambda i, j: mkite(Cond.le(j - i - k), R.of(f(i, j)), TM.ZERO), a.dtype)
    def nonzero(self, a): return self.where(a)
    def flatnonzero(self, a): 
        a = asarr(a)
        if a.ndim != 1: a = a.reshape(-1)
        return NonZero(a)
    def array_split(self, *a, **k): raise Unsupported("array_split")
    def issubdtype(self, a, b):
        if b in (SymNumpy.floating,): return DType(a).kind == "f"
        if b in (SymNumpy.integer,): return DType(a).kind == "i"
        return DType(a) == DType(b)
    class floating: pass
    class integer: pass
    class number: pass
    class errstate:
        def __init__(self, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
    def seterr(self, **k): return {}
    def result_type(self, *a): return promote(*[x if isinstance(x, DType) else dt_of(x) if isarr(x) or not isinstance(x, type) else DType(x) for x in a])
    def may_share_memory(self, a, b): return a.buf is b.buf
    shares_memory = may_share_memory
    def broadcast_to(self, a, shape):
        a = asarr(a); bm = bmap(a.shape, tuple(shape)); f = a.snap()
        return SymArr.make(tuple(shape), lambda *i: f(*bm(i)), a.dtype)
    def tile(self, *a): raise Unsupported("tile")
    def nan_to_num(self, a, **k): raise Unsupported("nan_to_num")
    def __getattr__(self, name):
        if name.startswith("_"): raise AttributeError(name)
        raise Unsupported(f"numpy.{name}")

def least(body, n, key=None):
    """the least i in [0, n) with body(i): (number of such i, i), or (0, None) if there is none"""
    from . import quant
    c = ctx(); memo = c.__dict__.setdefault("nonzero", {}); p = "_lz"; k2 = (body(S(p)).id, n.key)      # the same question asked again
    for k in (key, k2):
        if k is not None and k in memo: return memo[k]
    if c.nosplit: raise Unsupported("search inside a summarised loop")
    if c.choose("flatnonzero", 2) == 0:
        quant.forall(c, I(0), n, lambda i: body(i).neg()); num, first = 0, None
    else:
        s = fresh("nz"); t = S(s); c.dims.add(s); c.add(Cond.le(-t)); c.add(Cond.le(t + 1 - n)); m = fresh("nn"); c.dims.add(m); c.add(Cond.le(1 - S(m))); num, first = S(m), t
        cnd = body(t); c.add(cnd); quant.ground(c, cnd); quant.forall(c, I(0), t, lambda i: body(i).neg())
        if not c.feasible(): raise PathAbort("no first entry")
        for name, ix in quant.apps_of(cnd):        # which of the entries spoken about it is
            for g in quant.entries(c, name):
                for x, y in zip(ix, g):
                    off = I(I(x) - t)
                    if s in off.syms or s in I(y).syms: continue
                    w = I(I(y) - off)
                    if c.entails(Cond.eq(t - w), real=True): c.add(Cond.eq(t - w)); first = dim_simplify(w); break
    if not c.feasible(): raise PathAbort("no entry")
    if key is not None: memo[key] = (num, first)
    memo[k2] = (num, first)
    return num, first
class NonZero:
    """indices of the true entries of a vector (flatnonzero): empty exactly if no entry is true, the first is the least such index; the others are not modelled"""
    _is_symarr = False; ndim = 1; dtype = I64
    def __init__(self, a): self.a = a; self._n = None
    def _least(self):
        if self._n is not None: return
        f = self.a.snap(); n = I(self.a.shape[0])
        self._n, self.first = least(lambda i: cond_of(f(I(i))), n, (self.a.buf.fn, n.key, repr(_keyed(self.a))))
    def symlen(self): self._least(); return self._n
    def __len__(self):
        self._least()
        if self._n == 0: return 0
        raise Unsupported("number of indices")
    @property
    def size(self): return self.symlen()
    @property
    def shape(self): return (self.symlen(),)
    def __getitem__(self, i):
        self._least()
        if isinstance(i, int) and i == 0:
            if self._n == 0: raise IndexError("index 0 is out of bounds for axis 0 with size 0")
            return self.first
        raise Unsupported("entry of flatnonzero")
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("flatnonzero." + n)
def _keyed(a): return [tuple(x.key if isinstance(x, IPoly) else x for x in m) if m[0] != "fn" else id(m[1]) for m in a.maps]

np = SymNumpy()
