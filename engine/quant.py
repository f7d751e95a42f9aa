"""Universally quantified facts, instantiated where an array entry they speak about occurs (the terms that occur in ground facts)."""
from .terms import *
from . import terms as TM

def visit(x, f, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, (R, Cond)):
        k = (type(x).__name__, x.id)
        if k in seen: return
        seen.add(k)
        if isinstance(x, R) and x.op == "app": f(x)
        for a in x.args: visit(a, f, seen)
    elif isinstance(x, tuple):
        for a in x: visit(a, f, seen)
def apps_of(x):
    out = []; visit(x, lambda r: out.append((r.args[0], r.args[1]))); return out
def _state(c):
    if not hasattr(c, "quants"): c.quants = []; c.grounds = []
    return c
def forall(c, lo, hi, body, pats=None):
    """for all i in [lo, hi): body(i)"""
    c = _state(c); v = fresh("fa"); p = []
    for name, idx in apps_of(body(IPoly.sym(v))):
        for k, t in enumerate(idx):
            off = IPoly.of(IPoly.of(t) - IPoly.sym(v))
            if v not in off.syms: p.append((name, k, off))
    q = (IPoly.of(lo), IPoly.of(hi), body, p, set()); c.quants.append(q)
    for g in list(c.grounds): _match(c, q, g)
def ground(c, cond):
    """the entries that occur in the condition"""
    c = _state(c)
    for g in apps_of(cond):
        c.grounds.append(g)
        for q in list(c.quants): _match(c, q, g)
def _match(c, q, g):
    lo, hi, body, pats, done = q
    for name, k, off in pats:
        if name != g[0] or k >= len(g[1]): continue
        t = IPoly.of(IPoly.of(g[1][k]) - off)
        if t.key in done: continue
        done.add(t.key); c.add(Cond.disj(Cond.le(lo - t).neg(), Cond.le(t + 1 - hi).neg(), body(t)))
def entries(c, name): return [g[1] for g in _state(c).grounds if g[0] == name]
