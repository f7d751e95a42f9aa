"""Assumed contracts of library solvers used by several properties."""
from .load import *
from .ssp import provide, opaque_key, orth_rule, frozen, used, eval_arr, LinAlgError
from .ctx import Rule, Reject
import numpy as rnp

def dense_tri(d, e):
    T = rnp.diag(d)
    for i in range(len(d) - 1): T[i, i + 1] = T[i + 1, i] = e[i]
    return T
def eigh_tri(d, e, need=True, **k):
    """T(d, e) = V diag(TH) V', V orthogonal (columns), TH ascending; a function of d and e"""
    if k: raise Unsupported("eigh_tridiagonal options")
    d, e = frozen(asarr(d)), frozen(asarr(e)); n = d.shape[0]
    if d.ndim != 1 or e.ndim != 1: raise ValueError("d and e must be one-dimensional")
    if not dim_eq(I(e.shape[0]) + 1, n): raise ValueError(f"d (shape) must have one more element than e")
    used("scipy.linalg.eigh_tridiagonal / eigvalsh_tridiagonal: T = V diag(w) V' with V orthogonal, a function of the two diagonals; both return the same w")
    nm = opaque_key("eigh", d, e); th, vv = "TH" + nm, "V" + nm; c = ctx()
    def comp(env):
        T = dense_tri(eval_arr(env, d), eval_arr(env, e)); w, V = rnp.linalg.eigh(T)
        return w, V
    provide(th, lambda env: comp(env)[0]); provide(vv, lambda env: comp(env)[1])
    if not any(r.name == "eigh:" + vv for r in c.rules):
        orth_rule(vv, n, n)
        fd, fe = d.rsnap(), e.rsnap()
        c.rules.append(Rule("eigh:" + vv, [(th, ("j",)), (vv, ("a", "j")), (vv, ("b", "j"))], {"j": I(n)},
            lambda b: mkite(Cond.eq(b["a"] - b["b"]), R.of(fd(b["a"])), mkite(Cond.eq(b["a"] + 1 - b["b"]), R.of(fe(b["a"])), mkite(Cond.eq(b["b"] + 1 - b["a"]), R.of(fe(b["b"])), TM.ZERO)))))
        c.bump()
    return SymArr.apps(th, (n,)), SymArr.apps(vv, (n, n))
def install_eigh(fail=None):
    """fail: a function deciding whether the solver raises LinAlgError"""
    def full(d, e, eigvals_only=False, **k):
        if fail is not None and fail(): raise LinAlgError("did not converge")
        r = eigh_tri(d, e, **k); return r[0] if eigvals_only else r
    def vals(d, e, **k):
        if fail is not None and fail(): raise LinAlgError("did not converge")
        return eigh_tri(d, e, **k)[0]
    HOOKS["eigh_tridiagonal"] = full; HOOKS["eigvalsh_tridiagonal"] = vals
