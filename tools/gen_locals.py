"""names of the locals the loop invariants were written about (contracts/locals.json): run on a tree on which every obligation is discharged"""
import sys, os, ast, json, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from engine import names, cxx
out = {}
def add(mod, text):
    for f in ast.walk(ast.parse(text)):
        if isinstance(f, ast.FunctionDef) and f"{mod}.{f.name}" in WANT: out[f"{mod}.{f.name}"] = names.bindings(f)
WANT = {"tqli.tqli", "trace.xtrace", "operators.quad", "native.orth_vector", "native.lanczos_recurrence"}
for m in ("tqli", "trace", "operators"): add(m, open(f"/repo/src/primate/{m}.py").read())
add("native", cxx.extract("/repo", True))
json.dump(out, open(names.BASE, "w"), indent=1); print({k: [x for x, _ in z] for k, z in out.items()})
