"""The Eigen operations the extracted native code uses, over numpy or over the symbolic arrays of the proof engine.  Every element access, view and
size is checked: an obligation in the proof engine, an exception under numpy."""
import math, types

class CxxError(Exception): pass
class OutOfBounds(CxxError): pass
class Thrown(CxxError):
    """an exception the code throws itself"""
class RT:
    _opaque_ghost = True
    CxxError = CxxError; Thrown = Thrown
    def __init__(self, np, v=None): self.np = np; self.v = v; self.rows_of = {}; self.quot = {}; self.hits = 0
    # ---- obligations
    def check(self, label, cond):
        self.hits += 1
        if self.v is None:
            if not cond: raise OutOfBounds(label)
            return
        if cond is True: self.v.put(f"{self.v.ob}/{label}", "proved"); return
        self.v.true(label, cond)
        if cond is False: raise OutOfBounds(label)
        self.v.assume(cond)
    def inside(self, label, i, n):
        if self.v is None: return self.check(label, 0 <= i < n)
        self.check(label, i >= 0); self.check(label, i + 1 <= n)
    def same(self, label, a, b):
        if isinstance(a, int) and isinstance(b, int): return self.check(label, a == b)
        d = a - b; d = d if isinstance(d, int) else d.const() if d.const() is not None else d
        self.check(label, d == 0)
    # ---- scalars
    def real(self, x): return x * 1.0 if self.v is None else self.v.const(x)
    def sqrt(self, x): return math.sqrt(x) if self.v is None else self.v.sqrt(x)
    def abs(self, x): return abs(x) if self.v is None else self.v.abs(x)
    fabs = abs
    eps = 2.0 ** -52
    def epsilon(self): return self.eps
    def max(self, a, b): return a if a >= b else b
    def min(self, a, b): return b if b < a else a
    def icast(self, to, fr, x):
        if x is not Clock: self.check("conversion to an unsigned type", x >= 0)
        return x
    def trunc(self, x):
        if self.v is None: return int(x)
        raise self.v.unsupported("conversion of a real to an integer")
    def imod(self, a, b):
        if self.v is None or isinstance(a, int) and isinstance(b, int):
            self.check("nonzero divisor", b != 0); return int(math.fmod(a, b)) if abs(a) < 2 ** 50 else a - b * int(a / b)
        from .terms import Cond, IPoly
        if self.v.c.entails(Cond.le(-IPoly.of(a))) and self.v.c.entails(Cond.le(1 - IPoly.of(b))):       # the two usual cases exactly
            if bool(a + 1 <= b): return a
            if bool(a + 1 <= 2 * b): return a - b
        return a - b * self.quotient(a, b)
    def idiv(self, a, b):
        if self.v is None or isinstance(a, int) and isinstance(b, int): self.check("nonzero divisor", b != 0); return int(a / b)
        return self.quotient(a, b)
    def quotient(self, a, b):
        """truncated quotient by a positive divisor"""
        v = self.v; v.true("positive divisor", b >= 1); v.assume(b >= 1); k = (repr(a), repr(b))
        if k in self.quot: return self.quot[k]
        q = v.free("q"); self.quot[k] = q; r = a - b * q
        if a >= 0: v.assume(r >= 0); v.assume(r + 1 <= b)
        else: v.assume(r <= 0); v.assume(r >= 1 - b)
        return q
    def clock(self): return Clock
    def pair(self, a, b): return types.SimpleNamespace(first=a, second=b)
    def undef(self): return None
    # ---- small arrays
    def copy(self, x): return Vec(self, x.a.copy()) if isinstance(x, Vec) else Mat(self, x.a.copy()) if isinstance(x, Mat) else x.copy() if isinstance(x, list) else x
    def items(self, x): return tuple(x) if isinstance(x, (list, tuple)) else (x.first, x.second)
    def iter(self, l, what): return It(l, 0 if what == "begin" else len(l))
    def rotate(self, a, m, b):
        l = a.l; s = list(list.__iter__(l)); i, k, j = a.i, m.i, b.i
        self.check("iterators", 0 <= i <= k <= j <= len(s)); s[i:j] = s[k:j] + s[i:k]
        for q, x in enumerate(s): list.__setitem__(l, q, x)
    def swap(self, a, b): raise CxxError("swap")
    # ---- buffers
    def get(self, p, i, j=None):
        if isinstance(p, list): self.check("element of the index array", isinstance(i, int) and 0 <= i < len(p)); return list.__getitem__(p, i)
        if isinstance(p, Mat): self.inside("row inside the matrix", i, p.rows()); return p.col(j).a[i]
        if isinstance(p, Vec): self.inside("element inside the vector", i, p.rows()); return p.a[i]
        return p.at(i)
    def put(self, p, *iv):
        *i, x = iv
        if isinstance(p, list): self.check("element of the index array", isinstance(i[0], int) and 0 <= i[0] < len(p)); list.__setitem__(p, i[0], x); return
        if isinstance(p, Mat): self.inside("row inside the matrix", i[0], p.rows()); p.col(i[1]).a[i[0]] = x; return
        if isinstance(p, Vec): self.inside("element inside the vector", i[0], p.rows()); p.a[i[0]] = x; return
        p.at_put(i[0], x)
    def ref(self, p, i):
        rt = self
        class Ref:
            def get(self): return rt.get(p, i)
            def put(self, x): rt.put(p, i, x)
        return Ref()
    def map_matrix(self, p, r, c):
        if p.a.ndim == 1: raise CxxError("matrix over a flat buffer")
        self.same("rows of the mapped buffer", r, p.a.shape[0]); self.check("columns of the mapped buffer", c <= p.a.shape[1])
        return Mat(self, p.a if self.v is None or r is p.a.shape[0] else p.a, c)
    def map_vector(self, p, n, one=1):
        if p.a.ndim != 1: raise CxxError("vector over a matrix buffer")
        self.check("length of the mapped buffer", p.off + n <= p.a.shape[0])
        return Vec(self, p.a[p.off:p.off + n] if not (isinstance(p.off, int) and p.off == 0 and self._is(n, p.a.shape[0])) else p.a)
    def _is(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        return repr(a) == repr(b)
    def Zero(self, n, m=None): return Vec(self, self.np.zeros(n)) if m is None else Mat(self, self.np.zeros((n, m), order="F"))
    def Ones(self, n): return Vec(self, self.np.ones(n))
    def view(self, x): return x.as_view()
    def matrix(self, x):
        if isinstance(x, Vec): return Vec(self, x.a.copy())
        if isinstance(x, Mat): return Mat(self, x.a.copy(), x.c)
        raise CxxError("copy of a matrix")
    def assign(self, d, x):
        if isinstance(d, Mat) != isinstance(x, Mat): raise CxxError("assignment of different kinds")
        self.same("sizes in an assignment", d.rows(), x.rows())
        if isinstance(d, Mat): self.same("sizes in an assignment", d.cols(), x.cols()); d.a[:, :d.cols()] = x.a[:, :x.cols()]
        else: d.a[:] = x.a
        return d
    def update(self, op, d, x):
        if isinstance(x, (Vec, Mat)):
            self.same("sizes in an update", d.rows(), x.rows()); y = x.a
        else: y = x
        if op == "-": d.a[:] = d.a - y
        elif op == "+": d.a[:] = d.a + y
        elif op == "*": d.a[:] = d.a * y
        else: d.a[:] = d.a / y
        return d
    def mul(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Vec): self.same("sizes in a product", a.cols(), b.rows()); return Vec(self, a.full() @ b.a)
        if isinstance(a, Mat) and isinstance(b, Mat): self.same("sizes in a product", a.cols(), b.rows()); return Mat(self, a.full() @ b.full())
        if isinstance(a, (Vec, Mat)) and isinstance(b, (Vec, Mat)): raise CxxError("product of vectors")
        return a * b
    def vec(self, a): return Vec(self, a)
    def mat(self, a): return Mat(self, a)
    # ---- python objects and arrays in the binding
    def object(self, init, cls, *a):
        o = types.SimpleNamespace(cls=cls); init(o, *a)
        if self.v is None:
            g = init.__globals__; pre = init.__name__[:-4]
            for m in ("matvec", "shape"): setattr(o, m, lambda *a, m=m: g[pre + m](o, *a))
        return o
    def pyobj(self, o): return PyObj(self, o)
    def pyarray_of(self, a): return PyArr(self, a)
    def pyhas(self, o, name): return hasattr(o.obj, name)
    def pycall(self, f, *a): return PyObj(self, f.obj(*(x.a if isinstance(x, PyArr) else x for x in a)))
    def pycast(self, o, t):
        if t.startswith("std::pair<unsigned long"):
            a, b = o.obj; self.check("sizes are not negative", a >= 0); self.check("sizes are not negative", b >= 0); return self.pair(a, b)
        if not t.startswith("pybind11::array_t<F, ") or not int(t[21:-1]) & 16: raise CxxError("conversion to " + t)
        if self.v is not None: return PyArr(self, o.obj, int(t[21:-1]) & 3 != 0)
        a = self.np.asarray(o.obj); r = PyArr(self, a, int(t[21:-1]) & 3 != 0)
        if r.mem is a: r.mem = a.ravel(order="C" if int(t[21:-1]) & 1 else "F")
        return r
    def pyarray(self, shape, p):
        if isinstance(shape, list):
            if len(shape) != 1: raise CxxError("array of several dimensions")
            shape = shape[0]
        return PyArr(self, self.map_vector(p, shape).a.copy())
    def pyempty(self, *a): raise CxxError("array without values")
    def pyarg(self, x, same, flags):
        if not same or flags & 1 and x.a.ndim > 1: return PyArr(self, x.a.copy())
        return x
    def copy_range(self, a, b, out):
        if a.a is not b.a: raise CxxError("range over two buffers")
        n = b.off - a.off; self.check("range", n >= 0); src = self.map_vector(a, n).a.copy(); d = self.map_vector(out, n).a; d[:] = src; return out + n
    def copy_n(self, a, n, out): return self.copy_range(a, a + n, out)
    # pointers
    def ptr(self, a, off=0): return Ptr(self, a, off)
class _Clock:
    def __add__(self, o): return self
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __add__
    def __ge__(self, o): return True
Clock = _Clock()
class It:
    def __init__(self, l, i): self.l, self.i = l, i
    def __add__(self, k): return It(self.l, self.i + k)
    def __sub__(self, k): return It(self.l, self.i - k)
class Ptr:
    """a pointer into a caller's buffer (1-d), or to the first entry of a column-major matrix (2-d)"""
    def __init__(self, rt, a, off=0): self.rt, self.a, self.off = rt, a, off
    def at(self, i): self.flat(i); return self.a[self.off + i]
    def at_put(self, i, x): self.flat(i); self.a[self.off + i] = x
    def flat(self, i):
        if self.a.ndim != 1: raise CxxError("flat access to a matrix buffer")
        self.rt.inside("access inside the buffer", self.off + i, self.a.shape[0])
    def __add__(self, k): return Ptr(self.rt, self.a, self.off + k)
class PyObj:
    """a handle of a Python object"""
    _opaque_ghost = True
    def __init__(self, rt, obj): self.rt, self.obj = rt, obj
    def attr(self, name): return PyObj(self.rt, getattr(self.obj, name))
class PyArr:
    """a numpy array as the binding sees it; the memory of an array that need not be contiguous holds anything"""
    _opaque_ghost = True
    def __init__(self, rt, a, contiguous=True): self.rt, self.a = rt, a; self.mem = a if contiguous or rt.v is None and a.flags.f_contiguous else rt.v.array("memory", *a.shape) if rt.v is not None else rt.np.full(a.shape, 7.25)
    def size(self):
        n = 1
        for d in self.a.shape: n = n * d
        return n
    def ndim(self): return self.a.ndim
    def shape(self, i): self.rt.check("axis", isinstance(i, int) and 0 <= i < self.a.ndim); return self.a.shape[i]
    def data(self): return Ptr(self.rt, self.mem)
    mutable_data = data
class Dense:
    def as_view(self): return self
    def noalias(self): return self
    def eval(self): return self.rt.copy(self)
    def array(self): return self
    def matrix(self): return self
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __neg__(self): return type(self)(self.rt, -self.full())
    def __mul__(self, s):
        if isinstance(s, Dense): raise CxxError("product of arrays")
        return type(self)(self.rt, self.full() * s)
    __rmul__ = __mul__
    def __truediv__(self, s):
        if isinstance(s, Dense): raise CxxError("quotient of arrays")
        return type(self)(self.rt, self.full() / s)
    def _bin(self, o, f):
        if not isinstance(o, type(self)): raise CxxError("operands of different kinds")
        self.rt.same("sizes of the operands", self.rows(), o.rows()); self.rt.same("sizes of the operands", self.cols(), o.cols())
        return type(self)(self.rt, f(self.full(), o.full()))
    def setZero(self): self.a[:] = 0.0; return self
    def squaredNorm(self): a = self.full(); return (a * a).sum()
    def sum(self): return self.full().sum()
class Vec(Dense):
    def __init__(self, rt, a): self.rt, self.a = rt, a
    def full(self): return self.a
    def rows(self): return self.a.shape[0]
    def cols(self): return 1
    size = rows
    def data(self): return Ptr(self.rt, self.a)
    def dot(self, o): self.rt.same("sizes in a dot product", self.rows(), o.rows()); return self.a @ o.a
    def squaredNorm(self): return self.a @ self.a
    def norm(self): return self.rt.sqrt(self.squaredNorm())
    def normalized(self):
        z = self.squaredNorm()
        return Vec(self.rt, self.a / self.rt.sqrt(z)) if z > 0 else self.rt.copy(self)
    def normalize(self):
        z = self.squaredNorm()
        if z > 0: self.a[:] = self.a / self.rt.sqrt(z)
    def cwiseProduct(self, o): return Vec(self.rt, self.a * o.a)
    def head(self, k): self.rt.check("segment", k <= self.rows()); self.rt.check("segment", k >= 0); return Vec(self.rt, self.a[:k])
    def segment(self, i, k): self.rt.check("segment", i >= 0); self.rt.check("segment", i + k <= self.rows()); return Vec(self.rt, self.a[i:i + k])
class Mat(Dense):
    def __init__(self, rt, a, c=None): self.rt, self.a, self.c = rt, a, a.shape[1] if c is None else c
    def full(self): return self.a[:, :self.c]
    def rows(self): return self.a.shape[0]
    def cols(self): return self.c
    def size(self): return self.rows() * self.cols()
    def data(self): return Ptr(self.rt, self.a)
    def col(self, i): self.rt.inside("column inside the matrix", i, self.c); return Vec(self.rt, self.a[:, i])
    def leftCols(self, k): self.rt.check("columns", k <= self.c); return Mat(self.rt, self.a, k)
    def adjoint(self): return Mat(self.rt, self.full().T)
    transpose = adjoint

def load(path, np=None):
    """the extracted text over numpy"""
    import sys
    if np is None: import numpy as np
    rt = RT(np); m = types.ModuleType("native"); src = open(path).read()
    sys.modules["cxxrt"] = type("cxxrt_", (types.ModuleType,), {"__getattr__": lambda s, n: getattr(rt, n)})("cxxrt")
    exec(compile(src, path, "exec"), m.__dict__); m.rt = rt
    return m
