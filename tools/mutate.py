"""Mutation sweep: mutate.py OUT.jsonl [--n N] [--seed S] [--props C01,C02] [--jobs J] — single-point changes of the functions under contract, each run
through the checks that name the function; prints the changes no check reports (to be reviewed: equivalent, outside every statement, or missed)."""
import ast, os, sys, json, random, shutil, subprocess, argparse, importlib.util, copy
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SRC = "/repo/src/primate/"
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--props"); ap.add_argument("--jobs", type=int, default=2); ap.add_argument("--files"); ap.add_argument("--kinds"); a = ap.parse_args()
props = {}
for f in sorted(os.listdir(H + "/contracts")):
    if f.endswith(".py"):
        for n in ast.parse(open(f"{H}/contracts/{f}").read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].id == "FUNCTIONS" if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
                try: props[f[:-3]] = [x for x in ast.literal_eval(n.value)]
                except ValueError: pass
if a.props: props = {k: v for k, v in props.items() if k in a.props.split(",")}
INTNAMES = {"n": "m", "m": "n", "N": "n", "b": "a", "a": "b", "d": "e", "e": "d", "deg": "n", "ncv": "deg", "orth": "deg", "rtol": "atol", "atol": "rtol", "nodes": "weights", "weights": "nodes", "c": "r", "r": "c"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
def muts(fn):
    """(description, function that changes the node in place) for each single-point change"""
    out = []
    A = fn.args; ALT = {"rademacher": "normal", "normal": "rademacher", "sphere": "normal", "tolerance": "count", "confidence": "count", "gw": "fttr", "auto": "tqli", "RRR": "tqli", "t": "normal"}
    for fld in ("defaults", "kw_defaults"):
        for k, x in enumerate(getattr(A, fld)):
            if x is None: continue
            def setd(w, fld=fld, k=k): return lambda f: getattr(f.args, fld).__setitem__(k, w)
            if isinstance(x, ast.Constant):
                c = x.value
                for w in ([not c] if isinstance(c, bool) else [c + 1, c - 1] if isinstance(c, int) else [c * 2 + .001] if isinstance(c, float) else [ALT.get(c, c + "_")] if isinstance(c, str) else []): out.append((fn.lineno, f"default {fld}[{k}]", fn, setd(ast.Constant(w))))
            elif isinstance(x, ast.Name): out.append((fn.lineno, f"default {fld}[{k}]", fn, setd(ast.Attribute(ast.Name("np", ast.Load()), "float32", ast.Load()))))
    for x in ast.walk(fn):
        L = getattr(x, "lineno", 0)
        if isinstance(x, ast.Compare) and type(x.ops[0]) in CMP: out.append((L, "compare", x, lambda x: x.ops.__setitem__(0, CMP[type(x.ops[0])]())))
        if isinstance(x, (ast.BinOp, ast.AugAssign)) and type(x.op) in BIN: out.append((L, "operator", x, lambda x: setattr(x, "op", BIN[type(x.op)]())))
        if isinstance(x, ast.Constant) and type(x.value) is int: out.append((L, "const+1", x, lambda x: setattr(x, "value", x.value + 1))); out.append((L, "const-1", x, lambda x: setattr(x, "value", x.value - 1)))
        if isinstance(x, ast.Constant) and type(x.value) is float: out.append((L, "float", x, lambda x: setattr(x, "value", x.value * 1.5 + .1)))
        if isinstance(x, ast.Constant) and type(x.value) is bool: out.append((L, "bool", x, lambda x: setattr(x, "value", not x.value)))
        if isinstance(x, ast.BoolOp): out.append((L, "andor", x, lambda x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And())))
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in ("copy", "ravel", "squeeze", "flatten") and not x.args: out.append((L, "drop ." + x.func.attr, x, "recv"))
            if isinstance(x.func, ast.Name) and x.func.id in ("abs", "int", "float", "max", "min") and len(x.args) >= 1: out.append((L, "drop " + x.func.id, x, "arg"))
            if isinstance(x.func, ast.Attribute) and x.func.attr in ("sqrt", "abs", "atleast_2d", "atleast_1d", "array", "square", "flip", "ceil", "maximum", "minimum") and len(x.args) >= 1: out.append((L, "drop " + x.func.attr, x, "arg"))
            if x.keywords:
                for k in range(len(x.keywords)): out.append((L, "drop keyword " + str(x.keywords[k].arg), x, (lambda k: lambda x: x.keywords.pop(k))(k)))
            if len(x.args) == 2 and not any(isinstance(z, ast.Starred) for z in x.args): out.append((L, "swap arguments", x, lambda x: x.args.reverse()))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.USub)): out.append((L, "drop unary", x, "operand"))
        if isinstance(x, ast.If): out.append((L, "negate if", x, lambda x: setattr(x, "test", ast.UnaryOp(ast.Not(), x.test))))
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None: out.append((L, "truthiness", x, "truth"))
        if isinstance(x, ast.Slice):
            for part in ("lower", "upper", "step"):
                if getattr(x, part) is not None: out.append((x.lineno, "slice: drop " + part, x, (lambda q: lambda x: setattr(x, q, None))(part)))
            if x.upper is not None: out.append((x.lineno, "slice: upper-1", x, lambda x: setattr(x, "upper", ast.BinOp(x.upper, ast.Sub(), ast.Constant(1)))))
            if x.lower is not None: out.append((x.lineno, "slice: lower+1", x, lambda x: setattr(x, "lower", ast.BinOp(x.lower, ast.Add(), ast.Constant(1)))))
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 16 and not any(isinstance(y, ast.Expr) and y.value is x for y in ast.walk(fn)) and not any(isinstance(y, ast.JoinedStr) and any(z is x for z in ast.walk(y)) for y in ast.walk(fn)): out.append((L, "string", x, lambda x: setattr(x, "value", {"F": "C", "C": "F"}.get(x.value, x.value + "_"))))
        if isinstance(x, ast.Attribute) and x.attr in ("float64", "float32", "T"): out.append((L, "attribute " + x.attr, x, (lambda x: setattr(x, "attr", "float32" if x.attr == "float64" else "float64")) if x.attr != "T" else "recv0"))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("astype", "resize", "reshape", "append", "extend"): out.append((L, "drop ." + x.func.attr, x, "recv"))
        if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant): out.append((L, "return None", x, lambda x: setattr(x, "value", ast.Constant(None))))
        if isinstance(x, (ast.Break, ast.Continue)): out.append((L, "drop jump", x, "pass"))
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self" and False: pass
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in INTNAMES: out.append((L, "name swap", x, lambda x: setattr(x, "id", INTNAMES[x.id])))
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.BinOp, ast.Call, ast.Subscript)): out.append((L, "float32 rounding", x, lambda x: setattr(x, "value", ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "float32", ast.Load()), [x.value], []))))
        if isinstance(x, ast.IfExp): out.append((L, "swap branches", x, lambda x: (lambda b, o: (setattr(x, "body", o), setattr(x, "orelse", b)))(x.body, x.orelse)))
        for fld in ("body", "orelse"):
            b = getattr(x, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.AugAssign, ast.Assert)) or isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant) or isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name): out.append((s.lineno, "delete statement", x, (lambda f, k: lambda x: getattr(x, f).__setitem__(k, ast.Pass()))(fld, k)))
                for k in range(1 if isinstance(x, ast.FunctionDef) and ast.get_docstring(x) else 0, len(b) - 1):
                    if all(isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) for s in b[k:k + 2]): out.append((b[k].lineno, "swap statements", x, (lambda f, k: lambda x: getattr(x, f).__setitem__(slice(k, k + 2), getattr(x, f)[k:k + 2][::-1]))(fld, k)))
    return out
class Repl(ast.NodeTransformer):
    def __init__(s, t, w): s.t, s.w = t, w
    def visit(s, n):
        if n is s.t: return {"recv": lambda: n.func.value, "arg": lambda: n.args[0], "operand": lambda: n.operand, "recv0": lambda: n.value, "truth": lambda: n.left if isinstance(n.ops[0], ast.IsNot) else ast.UnaryOp(ast.Not(), n.left), "pass": lambda: ast.Pass()}[s.w]()
        return s.generic_visit(n)
funcs = {}
for p, fs in props.items():
    for f in fs:
        if not f.startswith("include"): funcs.setdefault(f, set()).add(p)
jobs = []
for f, ps in sorted(funcs.items()):
    mod = f.split(".")[0]; path = SRC + mod + ".py"
    if not os.path.exists(path) or a.files and mod not in a.files.split(","): continue
    tree = ast.parse(open(path).read())
    def find(body, names):
        return [m for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == names[0] for m in ([n] if len(names) == 1 else find(n.body, names[1:]))]
    for q, fn in enumerate(find(tree.body, f.split(".")[1:])):
        for k, (L, d, _, _) in enumerate(muts(fn)):
            if not a.kinds or any(d.startswith(z) for z in a.kinds.split(",")): jobs.append((f, q, k, L, d, sorted(ps)))
random.Random(a.seed).shuffle(jobs); jobs = jobs[:a.n]
def one(args):
    j, (f, q, k, L, d, ps) = args; r = f"/tmp/mv/r{os.getpid()}_{j}"; shutil.rmtree(r, True); os.makedirs(r + "/src"); shutil.copytree(SRC, r + "/src/primate", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    path = f"{r}/src/primate/{f.split('.')[0]}.py"; src = open(path).read(); tree = ast.parse(src)
    def find(body, names): return [m for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == names[0] for m in ([n] if len(names) == 1 else find(n.body, names[1:]))]
    fn = find(tree.body, f.split(".")[1:])[q]; L, d, x, act = muts(fn)[k]; before = ast.unparse(fn)
    if isinstance(act, str): Repl(x, act).visit(fn)
    else: act(x)
    after = ast.unparse(ast.fix_missing_locations(fn)); 
    if before == after: return None
    lines = src.split("\n"); s0 = min([fn.lineno] + [z.lineno for z in fn.decorator_list]); ind = lines[fn.lineno - 1][:len(lines[fn.lineno - 1]) - len(lines[fn.lineno - 1].lstrip())]
    lines[s0 - 1:fn.end_lineno] = [ind + z.replace("    ", "\t") for z in after.split("\n")]; open(path, "w").write("\n".join(lines))
    import difflib; diff = [z for z in difflib.unified_diff(before.split("\n"), after.split("\n"), n=0, lineterm="") if z[0] in "+-" and z[:3] not in ("+++", "---")]
    res = {}
    for p in ps:
        try: c = subprocess.run(["python3", H + "/run.py", p], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True, timeout=800)
        except subprocess.TimeoutExpired: res[p] = "TIMEOUT"; continue
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]; n = sum(1 for l in c.stdout.splitlines() if "not discharged" in l)
        res[p] = f"rc{c.returncode}" if c.returncode not in (0, 1) else ("NOINPUT" if v and "no-failing" in v[0] else "INPUT") if v else f"quiet({n} open)"
        if v: break
    shutil.rmtree(r, True); caught = any("INPUT" in z for z in res.values()); o = {"f": f, "line": L, "d": d, "diff": diff, "res": res, "caught": caught}
    with open(a.out, "a") as h: h.write(json.dumps(o) + "\n")
    if not caught: print(f, d, res, *diff, sep="\n   ", flush=True)
with ThreadPoolExecutor(a.jobs) as ex: R = list(ex.map(one, enumerate(jobs)))
