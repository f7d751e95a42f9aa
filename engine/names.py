"""Locals of a function under another name.  A loop invariant speaks about locals; when a local it mentions is gone, it is looked for under another
name: first the variable with the same defining expression, then, if equally many are left over, in order of first binding.  The invariant is checked
like any other (it holds or it does not), but what fails under a guessed name is never reported as refuted."""
import ast, json, os
BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "locals.json")
def bindings(f):
    """[(name, defining expression)] in order of first binding"""
    out = {}
    for x in [*f.args.posonlyargs, *f.args.args, *f.args.kwonlyargs] + [z for z in (f.args.vararg, f.args.kwarg) if z]: out[x.arg] = "argument"
    todo = []
    def visit(n):
        if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): return
        if isinstance(n, ast.Assign): todo.extend((x, n.value) for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        if isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name): todo.append((n.target, n.value))
        if isinstance(n, ast.For): todo.extend((x, n.iter) for x in ast.walk(n.target) if isinstance(x, ast.Name))
        if isinstance(n, ast.NamedExpr): todo.append((n.target, n.value))
        for c in ast.iter_child_nodes(n): visit(c)
    visit(f)
    for x, val in sorted(todo, key=lambda z: (z[0].lineno, z[0].col_offset)):
        if x.id not in out: out[x.id] = ast.unparse(val)
    return list(out.items())
_base = None
def base():
    global _base
    if _base is None: _base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    return _base
def aliases(fn, now):
    """{name in the contract: name in the current source}, for the names that differ"""
    old = base().get(fn)
    if not old or now is None: return {}
    a, b = dict(map(tuple, old)), dict(now); gone = [x for x in a if x not in b]; new = [x for x in b if x not in a]; m = {}
    if not gone: return {}
    def norm(e):
        for o, n in m.items():
            import re; e = re.sub(rf"\b{re.escape(n)}\b", o, e)
        return e
    for g in list(gone):
        c = [x for x in new if norm(b[x]) == a[g]]
        if a[g] != "argument" and len(c) == 1: m[g] = c[0]; gone.remove(g); new.remove(c[0])
    if len(gone) == len(new): m.update(zip(gone, new))
    return m
