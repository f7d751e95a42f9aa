"""Abstract mappings: a dictionary with arbitrary keys, known only through membership and value at a key (pointwise semantics of
comprehensions and set operations; the key of an obligation is generic and split by cases on the named ones)."""
from .terms import Unsupported
class GMap:
    def __init__(self, has, val): self._has, self._val = has, val
    def items(self): return GItems(self)
    def keys(self): return GSet(self._has)
    def copy(self): return GMap(self._has, self._val)
    def __contains__(self, k): return self._has(k)
    def __getitem__(self, k):
        if not self._has(k): raise KeyError(k)
        return self._val(k)
    def get(self, k, d=None): return self._val(k) if self._has(k) else d
    def __iter__(self): raise Unsupported("iteration over an abstract mapping")
    def __len__(self): raise Unsupported("length of an abstract mapping")
    def __bool__(self): raise Unsupported("truth of an abstract mapping")
    def __setitem__(self, k, v): raise Unsupported("write to an abstract mapping")
    def __or__(self, o):
        if isinstance(o, GMap): return GMap(lambda k: o._has(k) or self._has(k), lambda k: o._val(k) if o._has(k) else self._val(k))
        raise Unsupported("union of an abstract mapping")
class GItems:
    def __init__(self, m): self.m = m
    def __iter__(self): raise Unsupported("iteration over an abstract mapping")
class GSet:
    def __init__(self, has): self._has = has
    def __contains__(self, k): return self._has(k)
    def _o(self, o): return (lambda k: k in o)
    def __sub__(self, o): f = self._o(o); return GSet(lambda k: self._has(k) and not f(k))
    def __rsub__(self, o): f = self._o(o); return GSet(lambda k: f(k) and not self._has(k))
    def __and__(self, o): f = self._o(o); return GSet(lambda k: self._has(k) and f(k))
    __rand__ = __and__
    def __or__(self, o): f = self._o(o); return GSet(lambda k: self._has(k) or f(k))
    __ror__ = __or__
    def difference(self, o): return self - o
    def intersection(self, o): return self & o
    def union(self, o): return self | o
    def __iter__(self): raise Unsupported("iteration over an abstract set")
    def __len__(self): raise Unsupported("length of an abstract set")
def dictcomp(it, key, val, cond):
    """{key: val for .. in it if cond} over an abstract collection; the key expression must be the collection's key"""
    if isinstance(it, GItems): args = lambda k: (k, it.m._val(k)); dom = it.m._has
    elif isinstance(it, (GSet, GMap)): args = lambda k: (k,); dom = it._has
    else: return NotImplemented
    def has(k):
        if not dom(k): return False
        if key(*args(k)) is not k: raise Unsupported("dictionary comprehension with a computed key")
        return bool(cond(*args(k)))
    return GMap(has, lambda k: val(*args(k)))
def setcomp(it, elt, cond):
    m = dictcomp(it, elt, lambda *a: None, cond)
    return m if m is NotImplemented else GSet(m._has)
class AnyCase(str):
    """a string in arbitrary letter case, known only through its lower- and upper-case form"""
    def __new__(cls, s): return str.__new__(cls, s)
    def lower(self): return str(str.lower(self))
    def casefold(self): return str(str.lower(self))
    def upper(self): return str(str.upper(self))
    def _no(self, *a): raise Unsupported("letter case of an arbitrary string")
    def __hash__(self): raise Unsupported("letter case of an arbitrary string")
    def __eq__(self, o): raise Unsupported("letter case of an arbitrary string")
    __getitem__ = __iter__ = swapcase = title = capitalize = __contains__ = startswith = endswith = _no
