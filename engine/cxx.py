"""Mechanical extraction of the native recurrence: the instantiated functions of include/*.h, as parsed by clang, rewritten statement by
statement as Python over the Eigen runtime of cxxrt.py.   cxx.py REPO OUT.py
What is dropped: floating-point width and rounding (double read as real numbers), wrap-around of integer arithmetic (conversions to unsigned
types carry an obligation), object lifetimes and copies of const references, template genericity (the double instantiation is read; the text read from the float
instantiation has to be the same), clocks.  The binding (_lanczos.cpp, pylinop.h) is read with the pybind11 headers of the runtime and rewritten over the same runtime."""
import json, re, subprocess, sys, os, concurrent.futures as cf

class Unsup(Exception): pass
TU = '''#include <type_traits>
#include <cmath>
#include <functional>
#include <iostream>
#include "lanczos.h"
#include "eigen_operators.h"
template void lanczos_recurrence<double, DenseEigenLinearOperator<double>>(const DenseEigenLinearOperator<double>&, double*, const int, const double, const int, double*, double*, double*, const size_t);
template struct DenseEigenLinearOperator<double>;
template struct SparseEigenLinearOperator<double, false>;
template void lanczos_recurrence<float, DenseEigenLinearOperator<float>>(const DenseEigenLinearOperator<float>&, float*, const int, const float, const int, float*, float*, float*, const size_t);
template struct DenseEigenLinearOperator<float>;
template struct SparseEigenLinearOperator<float, false>;
'''
BIND = '''#include "%s/src/primate/_lanczos.cpp"
template struct PyLinearOperator<double>;
template struct PyLinearOperator<float>;
'''
PY = "/opt/venv/bin/python"
def py_includes(memo=[]):
    if not memo: memo.append(["-I" + x for x in subprocess.run([PY, "-c", "import pybind11,numpy,sysconfig;print(sysconfig.get_paths()['include'],pybind11.get_include(),numpy.get_include())"], capture_output=True, text=True).stdout.split()])
    return memo[0]
SKIP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "ParenExpr", "SubstNonTypeTemplateParmExpr", "FullExpr"}

def clang(repo, name, binding=False):
    import tempfile
    tu = BIND % os.path.abspath(repo) if binding else TU
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "tu.cpp"); open(p, "w").write(tu)
        r = subprocess.run(["clang++", "-std=c++20", "-fsyntax-only", "-w", "-I/usr/include/eigen3", "-I" + os.path.join(repo, "src/primate/include"), *(py_includes() if binding else []), "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + name, p], capture_output=True, text=True)
    if r.returncode != 0: raise Unsup("clang: " + r.stderr[-600:])
    out = []; dec = json.JSONDecoder(); i = 0; t = r.stdout
    while i < len(t):
        while i < len(t) and t[i].isspace(): i += 1
        if i >= len(t): break
        if t.startswith("Dumping", i): i = t.index("\n", i); continue
        o, i = dec.raw_decode(t, i); out.append(o)
    return out

def body_of(f): return next((c for c in f.get("inner", []) if c.get("kind") == "CompoundStmt"), None)
def dependent(n):
    k = n.get("kind", "")
    return "Dependent" in k or "Unresolved" in k or any(dependent(c) for c in n.get("inner", []) if c)
def functions(objs, name, cls=None):
    """definitions (instantiated, not dependent) of a name in the dump"""
    res = []; seen = set()
    def go(n, inside):
        k = n.get("kind")
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl") and n.get("name") == name and body_of(n) is not None and n["id"] not in seen and (cls is None or inside == cls or inside is None):
            if not dependent(body_of(n)) and "type-parameter" not in n.get("type", {}).get("qualType", ""): res.append(n); seen.add(n["id"])
        for c in n.get("inner", []) or []:
            if c and (name == "operator()" or c.get("kind", "").endswith("Decl")): go(c, n.get("name") if k in ("ClassTemplateSpecializationDecl", "CXXRecordDecl") else inside)
    for o in objs: go(o, None)
    # a template's pattern may look non-dependent; prefer definitions without template parameters in their type
    good = [f for f in res if not any(w in f["type"]["qualType"] for w in ("const F ", "F *", "< F", "<F>"))]
    return good or res
def of_type(fs, F):
    """the instantiation for F (functions that mention no floating-point type serve both)"""
    return [f for f in fs if own(f) == {F}] or [f for f in fs if not own(f)]
def own(f):
    """the floating-point types the signature and the object of a function mention"""
    import re
    ts = [f["type"]["qualType"]]
    def go(n):
        if n.get("kind") == "CXXThisExpr": ts.append(n["type"]["qualType"])
        for c in n.get("inner", []) or []:
            if c: go(c)
    go(body_of(f)); return {w for t in ts for w in re.findall(r"\b(?:float|double)\b", t)}
INTS = {"int", "long", "unsigned long", "unsigned int", "short", "unsigned short", "long long", "unsigned long long", "char", "unsigned char", "size_t", "bool"}
def ty(n):
    t = n.get("type", {}); s = t.get("desugaredQualType") or t.get("qualType", "")
    return s.replace("const ", "").strip()
def is_int(n): return ty(n).rstrip(" &") in INTS
OPERATORS = {"DenseEigenLinearOperator": "dense", "SparseEigenLinearOperator": "sparse", "PyLinearOperator": "py"}
KEYW = {"lambda", "in", "is", "not", "and", "or", "def", "from", "None", "True", "False", "pass", "with", "yield", "global", "rt"}

class Fn:
    def __init__(self, x, f, pyname, method, F="double", binding=False):
        self.F = F; self.binding = binding; self.x = x; self.f = f; self.names = {}; self.used = set(); self.out = []; self.pyname = pyname; self.method = method; self.loops = []
    def name(self, d):
        i = d["id"]
        if i not in self.names:
            b = n = d.get("name") or "_anon"
            if b in KEYW: b = n = b + "_"
            k = 1
            while n in self.used: n = f"{b}_{k}"; k += 1
            self.used.add(n); self.names[i] = n
        return self.names[i]
    def elem(self, t): return re.sub(rf"\b{self.F}\b", "F", t)
    def emit(self, s, ind): self.out.append("\t" * ind + s)
    def run(self):
        ps = [c for c in self.f.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        args = ["self"] * bool(self.method)
        for p in ps:
            q = p["type"]["qualType"]
            if q.endswith("&") and not q.startswith("const") and p["type"].get("desugaredQualType", q).rstrip(" &") in INTS | {"double", "float"}: raise Unsup("reference to a scalar parameter")
            d = [c for c in p.get("inner", []) if c and "Type" not in c["kind"]]
            args.append(self.name(p) + ("=" + self.ex(d[0]) if d else ""))
        self.emit(f"def {self.pyname}({', '.join(args)}):", 0)
        if self.binding and not self.method:
            for p in ps:          # arguments of a registered function: arrays share the caller's memory if the type asks for no conversion
                uses = [n for n in walk(body_of(self.f)) if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["id"] == p["id"]]
                if not uses: continue
                t = ty(uses[0]).rstrip(" &"); m = re.match(r"pybind11::array_t<(\w+), (\d+)>$", t)
                if m: self.emit(f"{self.name(p)} = rt.pyarg({self.name(p)}, {m.group(1) == self.F}, {m.group(2)})", 1)
                elif t not in ("int", self.F, "pybind11::object") and not (p["type"]["qualType"].startswith("const Eigen::") and p["type"]["qualType"].endswith("&") and not t.startswith("Eigen::Ref")): raise Unsup("argument of a registered function: " + t)
        b = body_of(self.f); self.assigned = assigned(b)
        n0 = len(self.out)
        for c in self.f.get("inner", []):
            if c.get("kind") == "CXXCtorInitializer":
                if "anyInit" not in c: raise Unsup("base class initialiser")
                self.emit(f"self.{c['anyInit']['name']} = {self.ex(c['inner'][0])}", 1)
        self.stmts(b.get("inner", []), 1)
        if len(self.out) == n0: self.emit("pass", 1)
        return "\n".join(self.out)
    # ---------------------------------------------------------------- statements
    def stmts(self, l, ind):
        for s in l: self.st(s, ind)
    def block(self, s, ind):
        n0 = len(self.out)
        if s.get("kind") == "CompoundStmt": self.stmts(s.get("inner", []), ind)
        else: self.st(s, ind)
        if len(self.out) == n0: self.emit("pass", ind)
    def st(self, s, ind):
        k = s.get("kind")
        if k in SKIP: return self.st(s["inner"][0], ind)
        if k == "CompoundStmt": return self.stmts(s.get("inner", []), ind)
        if k == "NullStmt": return
        if k == "DeclStmt":
            for d in s["inner"]: self.decl(d, ind)
            return
        if k == "IfStmt":
            inner = s["inner"]
            if s.get("hasInit"): self.st(inner[0], ind); inner = inner[1:]
            if s.get("hasVar"): raise Unsup("if with a declaration")
            if s.get("isConstexpr"):
                c = self.ex(inner[0])
                if c in ("True", "False"):
                    for x in (inner[1:2] if c == "True" else inner[2:3]):
                        if x: self.st(x, ind)
                    return
            self.emit(f"if {self.cond(inner[0])}:", ind); self.block(inner[1], ind + 1)
            if len(inner) > 2 and inner[2]: self.emit("else:", ind); self.block(inner[2], ind + 1)
            return
        if k == "ForStmt": return self.for_(s, ind)
        if k == "WhileStmt":
            c, b = [x for x in s["inner"] if x][-2:]
            self.loops.append([]); self.emit(f"while {self.cond(c)}:", ind); self.block(b, ind + 1); self.loops.pop(); return
        if k == "BreakStmt": return self.emit("break", ind)
        if k == "ContinueStmt":
            for e in self.loops[-1]: self.st(e, ind)
            return self.emit("continue", ind)
        if k == "ReturnStmt":
            r = s.get("inner"); return self.emit("return " + (self.ex(r[0]) if r else "None"), ind)
        if k == "CXXThrowExpr" : return self.emit("raise rt.Thrown()", ind)
        # expression statements
        if k == "BinaryOperator" and s["opcode"] == "=": return self.assign(s["inner"][0], self.ex(s["inner"][1]), ind)
        if k == "BinaryOperator" and s["opcode"] == ",":
            for c in s["inner"]: self.st(c, ind)
            return
        if k == "CompoundAssignOperator":
            a, b = s["inner"]; op = s["opcode"][:-1]; return self.assign(a, self.arith(op, self.ex(a), self.ex(b), is_int(a) and is_int(b)), ind)
        if k == "UnaryOperator" and s["opcode"] in ("++", "--"):
            a = s["inner"][0]; return self.assign(a, f"({self.ex(a)} {s['opcode'][0]} 1)", ind)
        if k == "CXXFunctionalCastExpr" or k == "CStyleCastExpr" and ty(s) == "void":       # (void) expr
            if ty(s) == "void": return self.emit(self.ex(s["inner"][0]), ind)
        if k == "CXXOperatorCallExpr" and op_name(s) == "=" and strip(args_of(s)[0])["kind"] in ("MemberExpr", "DeclRefExpr") and ty(strip(args_of(s)[0])).startswith(("std::pair<", "std::array<", "pybind11::")):
            return self.assign(args_of(s)[0], f"rt.copy({self.ex(args_of(s)[1])})", ind)
        if k == "ImplicitCastExpr" or k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr", "ConditionalOperator", "IntegerLiteral", "DeclRefExpr", "BinaryOperator", "CXXStaticCastExpr"):
            return self.emit(self.ex(s), ind)
        raise Unsup("statement " + str(k))
    def assign(self, lhs, val, ind):
        lhs = strip(lhs); k = lhs["kind"]
        if k == "DeclRefExpr":
            d = lhs["referencedDecl"]
            if d["id"] in getattr(self, "refs", {}): return self.emit(f"{self.refs[d['id']]}.put({val})", ind)
            return self.emit(f"{self.name(d)} = {val}", ind)
        if k == "ArraySubscriptExpr": return self.emit(f"rt.put({self.ex(lhs['inner'][0])}, {self.ex(lhs['inner'][1])}, {val})", ind)
        if k == "CXXOperatorCallExpr" and op_name(lhs) in ("[]", "()"): return self.emit(f"rt.put({', '.join(self.ex(a) for a in args_of(lhs)[:1])}, {', '.join(self.ex(a) for a in args_of(lhs)[1:])}, {val})", ind)
        if k == "UnaryOperator" and lhs["opcode"] == "*": return self.emit(f"rt.put({self.ex(lhs['inner'][0])}, 0, {val})", ind)
        if k == "MemberExpr": return self.emit(f"{self.ex(lhs)} = {val}", ind)
        if k == "CXXMemberCallExpr": return self.emit(f"rt.assign({self.ex(lhs)}, {val})", ind)
        raise Unsup("assignment to " + k)
    def decl(self, d, ind):
        k = d["kind"]
        if k in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "UsingShadowDecl"): return
        if k == "DecompositionDecl":
            init = next(c for c in d["inner"] if c["kind"] != "BindingDecl"); bs = [c for c in d["inner"] if c["kind"] == "BindingDecl"]
            if d["type"]["qualType"].endswith("&"): raise Unsup("structured binding by reference")
            for b in bs:
                for c in b.get("inner", []):
                    if c.get("kind") == "VarDecl": self.names[c["id"]] = self.name(b)
            self.emit(f"{', '.join(self.name(b) for b in bs)}, = rt.items({self.ex(init)})", ind); return
        if k != "VarDecl": raise Unsup("declaration " + k)
        inner = [c for c in d.get("inner", []) if c and not c["kind"].endswith("Type")]
        q = d["type"]["qualType"]; dq = d["type"].get("desugaredQualType", q)
        if not inner: self.name(d); return self.emit(f"{self.name(d)} = rt.undef()", ind)
        if q.endswith("&") and not q.startswith("const") and dq.rstrip(" &").replace("const ", "") in INTS | {"double", "float"}:
            # alias of a scalar lvalue: element of a buffer
            e = strip(inner[0])
            if e["kind"] == "ArraySubscriptExpr":
                n = self.name(d); self.emit(f"{n} = rt.ref({self.ex(e['inner'][0])}, {self.ex(e['inner'][1])})", ind); self.__dict__.setdefault("refs", {})[d["id"]] = n; return
            raise Unsup("reference to a scalar")
        v = self.ex(inner[0])
        t = dq.replace("const ", "").strip()
        if not q.endswith("&"):
            if t.startswith(("Eigen::Matrix<", "Eigen::Array<")): v = v if v.startswith("rt.matrix(") else f"rt.matrix({v})"
            elif t.startswith("Eigen::") and not t.startswith(("Eigen::Map<", "Eigen::Ref<", "Eigen::Block<")): raise Unsup("a variable that holds an unevaluated expression: " + t[:60])
            elif t.startswith(("std::array<", "std::pair<", "std::vector<")) and strip(inner[0], True)["kind"] == "DeclRefExpr" and not v.startswith("rt.copy("): v = f"rt.copy({v})"
        self.emit(f"{self.name(d)} = {v}", ind)
    def for_(self, s, ind):
        init, _, cond, inc, body = s["inner"]
        incs = []
        def flat(e):
            if not e: return
            if e["kind"] == "BinaryOperator" and e["opcode"] == ",": [flat(c) for c in e["inner"]]
            elif e["kind"] in SKIP: flat(e["inner"][0])
            else: incs.append(e)
        flat(inc); var = None
        cd = strip(cond) if cond else None
        if init and init.get("kind") == "DeclStmt" and cd and cd["kind"] == "BinaryOperator" and cd["opcode"] in ("<", "<=", "!="):
            l, r = strip(cd["inner"][0], True), strip(cd["inner"][1], True)
            if l["kind"] == "DeclRefExpr":
                did = l["referencedDecl"]["id"]; mine = [d for d in init["inner"] if d["id"] == did]; ups = [e for e in incs if target(e) == did]
                const_bound = r["kind"] == "IntegerLiteral" or r["kind"] == "DeclRefExpr" and r["referencedDecl"]["id"] not in self.assigned or r["kind"] in ("CXXMemberCallExpr", "MemberExpr")
                if r["kind"] in ("CXXMemberCallExpr", "MemberExpr"): const_bound = all(i not in self.assigned for i in refs(r)) and strip(r)["kind"] == "CXXMemberCallExpr" and r["inner"][0].get("name") in ("rows", "cols", "size")
                simple = len(ups) == 1 and (ups[0]["kind"] == "UnaryOperator" and ups[0]["opcode"] == "++" or ups[0]["kind"] == "CompoundAssignOperator" and ups[0]["opcode"] == "+=" and strip(ups[0]["inner"][1])["kind"] == "IntegerLiteral" and strip(ups[0]["inner"][1])["value"] == "1")
                if mine and simple and const_bound and cd["opcode"] != "!=" and did not in assigned(body) and is_int(l) and not (ty(l).startswith("unsigned") ^ ty(r).startswith("unsigned") and False):
                    var = mine[0]; upd = ups[0]
        if var is not None:
            for d in init["inner"]:
                if d is not var: self.decl(d, ind)
            lo = [c for c in var["inner"] if c][0]; rest = [e for e in incs if e is not upd]
            hi = self.ex(cd["inner"][1]) + (" + 1" if cd["opcode"] == "<=" else "")
            self.loops.append(rest); self.emit(f"for {self.name(var)} in range({self.ex(lo)}, {hi}):", ind); self.block(body, ind + 1)
            for e in rest: self.st(e, ind + 1)
            self.loops.pop(); return
        if init: self.st(init, ind)
        self.loops.append(incs); self.emit(f"while {self.cond(cond) if cond else 'True'}:", ind); self.block(body, ind + 1)
        for e in incs: self.st(e, ind + 1)
        self.loops.pop()
    # ---------------------------------------------------------------- expressions
    def cond(self, e): return self.ex(e)
    def arith(self, op, a, b, ints):
        if op == "/" : return f"rt.idiv({a}, {b})" if ints else f"({a} / {b})"
        if op == "%": return f"rt.imod({a}, {b})"
        if op in ("+", "-", "*", "<", ">", "<=", ">=", "==", "!="): return f"({a} {op} {b})"
        raise Unsup("operator " + op)
    def ex(self, e):
        k = e.get("kind")
        if k in ("CXXTemporaryObjectExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr") and clocky(e): return "rt.clock()"
        if "chrono" in (e.get("type", {}).get("desugaredQualType", "") + e.get("type", {}).get("qualType", "")) or k == "CallExpr" and "duration_cast" in json.dumps(e)[:1200]: return "rt.clock()"
        if k in SKIP: return self.ex([c for c in e["inner"] if c and not c["kind"].endswith("Decl")][-1])
        if k == "IntegerLiteral": return e["value"]
        if k == "FloatingLiteral": return repr(float(e["value"]))
        if k == "CXXBoolLiteralExpr": return "True" if e["value"] else "False"
        if k == "StringLiteral": return repr(json.loads(e["value"]))
        if k == "CXXThisExpr": return "self"
        if k == "CXXDefaultArgExpr": raise Unsup("default argument")
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["kind"] in ("FunctionDecl", "CXXMethodDecl"): return "FUNC:" + d["name"]
            if d["id"] in getattr(self, "refs", {}): return self.refs[d["id"]] + ".get()"
            if d["id"] not in self.names and d["kind"] == "VarDecl": raise Unsup("global variable " + d.get("name", "?"))
            return self.name(d)
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr"):
            i = [c for c in e["inner"] if c][-1]; ck = e.get("castKind")
            if ck in ("LValueToRValue", "NoOp", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay", "FloatingCast", "BitCast", "ArrayToPointerDecay"): return self.ex(i)
            if ck == "ConstructorConversion" or ck == "UserDefinedConversion": return self.ex(i)
            if ck == "IntegralCast":
                if strip(i)["kind"] == "IntegerLiteral": return self.ex(i)
                return f"rt.icast({ty(e)!r}, {ty(i)!r}, {self.ex(i)})" if ty(e).startswith("unsigned") and not ty(i).startswith("unsigned") else self.ex(i)
            if ck == "IntegralToFloating": return f"rt.real({self.ex(i)})"
            if ck == "FloatingToIntegral": return str(int(float(strip(i)["value"]))) if strip(i)["kind"] == "FloatingLiteral" else f"rt.trunc({self.ex(i)})"
            if ck in ("IntegralToBoolean", "FloatingToBoolean"): return f"({self.ex(i)} != 0)"
            raise Unsup(f"cast {ck}")
        if k == "UnaryOperator":
            a = self.ex(e["inner"][0]); op = e["opcode"]
            if op == "-": return f"(-{a})"
            if op == "+": return a
            if op == "!": return f"(not {a})"
            if op == "*": return f"rt.get({a}, 0)"
            raise Unsup("unary " + op)
        if k == "BinaryOperator":
            a, b = e["inner"]; op = e["opcode"]
            if op == "&&": return f"({self.ex(a)} and {self.ex(b)})"
            if op == "||": return f"({self.ex(a)} or {self.ex(b)})"
            if op in ("=", ","): raise Unsup("nested assignment")
            return self.arith(op, self.ex(a), self.ex(b), is_int(a) and is_int(b))
        if k == "ConditionalOperator":
            c, a, b = e["inner"]; return f"({self.ex(a)} if {self.ex(c)} else {self.ex(b)})"
        if k == "ArraySubscriptExpr": return f"rt.get({self.ex(e['inner'][0])}, {self.ex(e['inner'][1])})"
        if k == "InitListExpr":
            inner = e.get("inner", [])
            if len(inner) == 1 and inner[0]["kind"] == "InitListExpr": return self.ex(inner[0])
            return "[" + ", ".join(self.ex(c) for c in inner) + "]"
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [c for c in e.get("inner", []) if c and c["kind"] != "CXXDefaultArgExpr"]; t = ty(e)
            if t.startswith("Eigen::Map<"):
                kind = map_kind(t); return f"rt.{kind}({', '.join(self.ex(c) for c in a)})"
            if t.startswith("Eigen::Ref<"): return f"rt.view({self.ex(a[0])})"
            if t.startswith("Eigen::Matrix<") or t.startswith("Eigen::Array<"):
                if len(a) == 1 and not is_int(a[0]): return f"rt.matrix({self.ex(a[0])})"
                raise Unsup("construction of a matrix by size")
            m = re.match(r"pybind11::array_t<(?:double|float), (\d+)>", t)
            if m and len(a) == 1 and not ty(a[0]).startswith("pybind11::array_t<"): return f"rt.pycast({self.ex(a[0])}, {self.elem(t)!r})" if "pybind11" in ty(a[0]) else f"rt.pyempty({self.ex(a[0])})"
            if m and len(a) == 2: return f"rt.pyarray({self.ex(a[0])}, {self.ex(a[1])})"
            if m and len(a) > 2: raise Unsup("an array over memory of another object")
            if t.startswith("std::pair<") and not a: return "rt.pair(0, 0)"
            if t.split("<")[0] in OPERATORS and not (len(a) == 1 and ty(strip(a[0])) == t): return f"rt.object({self.x.ctor(t, self.F)}, {t.split('<')[0]!r}{''.join(', ' + self.ex(c) for c in a)})"
            if t.startswith("std::array") or t.startswith("std::pair") or t.startswith("array<"):
                if len(a) == 1: return f"rt.copy({self.ex(a[0])})"
            if len(a) == 1: return self.ex(a[0])
            raise Unsup("construction of " + t)
        if k == "MemberExpr":
            o = e["inner"][0] if e.get("inner") else None
            return f"{self.ex(o)}.{e['name']}"
        if k == "CXXMemberCallExpr":
            m = strip(e["inner"][0]); a = [c for c in e["inner"][1:] if c and c["kind"] != "CXXDefaultArgExpr"]
            o = self.ex(m["inner"][0]); nm = m["name"]
            ot = ty(strip(m["inner"][0]))
            if nm == "cast" and "pybind11" in ot: return f"rt.pycast({o}, {self.elem(ty(e))!r})"
            if o == "self" and self.method: return f"{self.x.member(self.method, nm, m, self.F, self.binding)}({', '.join(['self'] + [self.ex(c) for c in a])})"
            if ot.startswith("std::array") and nm in ("begin", "end"): return f"rt.iter({o}, {nm!r})"
            if ot.startswith("std::array") and nm in ("size",): return f"len({o})"
            return f"{o}.{nm}({', '.join(self.ex(c) for c in a)})"
        if k == "CXXOperatorCallExpr":
            op = op_name(e); a = [self.ex(c) for c in args_of(e)]
            if op == "=": return f"rt.assign({a[0]}, {a[1]})"
            if op in ("+=", "-=", "*=", "/="): return f"rt.update({op[0]!r}, {a[0]}, {a[1]})"
            if op == "()" and "pybind11" in ty(args_of(e)[0]): return f"rt.pycall({', '.join(a)})"
            if op in ("[]", "()"): return f"rt.get({a[0]}, {', '.join(a[1:])})"
            if op in ("+", "-", "*", "/", "<", ">", "==", "!="):
                if len(a) == 1: return f"(-{a[0]})"
                return f"rt.mul({a[0]}, {a[1]})" if op == "*" else f"({a[0]} {op} {a[1]})"
            raise Unsup("operator " + op)
        if k == "CallExpr":
            f = strip(e["inner"][0], True); a = [c for c in e["inner"][1:] if c and c["kind"] != "CXXDefaultArgExpr"]
            d = f.get("referencedDecl", {}); nm = d.get("name")
            if nm is None: raise Unsup("call of an expression")
            A = [self.ex(c) for c in a]
            if nm in ("sqrt", "abs", "fabs", "max", "min", "rotate", "swap", "fill", "copy_n", "fill_n", "pow", "isnan", "isfinite", "hypot"): return f"rt.{nm}({', '.join(A)})"
            if nm in ("move", "forward", "ref", "cref", "as_const") and len(A) == 1: return A[0]
            if nm in ("epsilon", "min", "max") and d["kind"] == "CXXMethodDecl" and not A: return f"rt.{nm}()"
            if nm in ("Zero", "Ones", "Constant") and d["kind"] == "CXXMethodDecl": return f"rt.{nm}({', '.join(A)})"
            if nm == "hasattr": return f"rt.pyhas({', '.join(A)})"
            if nm == "make_pair": return f"rt.pair({', '.join(A)})"
            if nm == "copy" and len(A) == 3: return f"rt.copy_range({', '.join(A)})"
            return f"{self.x.need(nm, d.get('type', {}).get('qualType', ''), self.F, self.binding)}({', '.join(A)})"
        raise Unsup("expression " + str(k))
def strip(e, casts=False):
    while e.get("kind") in SKIP or e.get("kind") == "ImplicitCastExpr" and (casts or e.get("castKind") in ("NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay")): e = [c for c in e["inner"] if c][-1]
    return e
def clocky(e):
    """a reading of the clock (its value only reaches the timing counters)"""
    t = e.get("type", {}); 
    if "chrono" in t.get("desugaredQualType", "") + t.get("qualType", ""): return True
    return e.get("kind") not in ("CompoundStmt",) and any(clocky(c) for c in e.get("inner", []) or [] if c)
def op_name(e): return strip(e["inner"][0], True)["referencedDecl"]["name"][8:]
def args_of(e): return [c for c in e["inner"][1:] if c and c["kind"] != "CXXDefaultArgExpr"]
def target(e):
    if e["kind"] in ("UnaryOperator", "CompoundAssignOperator") or e["kind"] == "BinaryOperator" and e["opcode"] == "=":
        l = strip(e["inner"][0]); return l.get("referencedDecl", {}).get("id")
def refs(e):
    r = set()
    if e.get("kind") == "DeclRefExpr": r.add(e["referencedDecl"]["id"])
    for c in e.get("inner", []) or []:
        if c: r |= refs(c)
    return r
def assigned(n):
    r = set()
    def go(n):
        if not n: return
        k = n.get("kind")
        if k == "BinaryOperator" and n["opcode"] == "=" or k == "CompoundAssignOperator" or k == "UnaryOperator" and n["opcode"] in ("++", "--", "&"):
            l = strip(n["inner"][0])
            if l["kind"] == "DeclRefExpr": r.add(l["referencedDecl"]["id"])
        if k == "VarDecl" and n["type"]["qualType"].endswith("&") and not n["type"]["qualType"].startswith("const"):
            for c in n.get("inner", []): r.update(refs(c))
        for c in n.get("inner", []) or []: go(c)
    go(n); return r
def map_kind(t):
    i = t[len("Eigen::Map<"):].replace("const ", "").strip()
    i = i.replace("<float,", "<double,")
    if i.startswith("Eigen::Matrix<double, -1, -1>") : return "map_matrix"
    if i.startswith("Eigen::Matrix<double, -1, 1>") or i.startswith("Eigen::Array<double, -1, 1>"): return "map_vector"
    raise Unsup("map " + t)

class Extract:
    def __init__(self, repo): self.repo = repo; self.cache = {}; self.done = {}; self.texts = {}
    def dump(self, name, binding=False):
        k = (name, binding)
        if k not in self.cache: self.cache[k] = clang(self.repo, name, binding)
        if isinstance(self.cache[k], Exception): raise Unsup(f"{name}: {self.cache[k]}")
        return self.cache[k]
    def write(self, f, py, cls, F, binding):
        """the same function for the two floating-point types: one text, or two that have to agree (merge)"""
        if (py, F) not in self.done:
            self.done[py, F] = None
            try: self.texts[py, F] = Fn(self, f, py, cls, F, binding).run()
            except BaseException: del self.done[py, F]; raise
        return py
    def need(self, name, qual, F="double", binding=False):
        """a function of the repository called by an extracted one is extracted too"""
        all_ = functions(self.dump(name), name)
        if not all_ and binding: all_ = functions(self.dump(name, True), name)
        fs = of_type(all_, F); here = [f for f in fs if qual and norm(f["type"]["qualType"]) == norm(qual)] or fs
        if not here: raise Unsup("no definition of " + name)
        if self.done.setdefault(("overload", name, F), norm(here[0]["type"]["qualType"])) != norm(here[0]["type"]["qualType"]): raise Unsup("overloads of " + name)
        return self.write(here[0], name, "", F, binding)
    def method(self, cls, name, py, F="double", binding=False, qual=None):
        fs = of_type(functions(self.dump(cls, binding), name), F)
        if qual: fs = [f for f in fs if qual(f)] or fs
        if not fs: raise Unsup(f"no definition of {cls}::{name}")
        return self.write(fs[-1], py, cls, F, binding)
    def ctor(self, t, F):
        c = t.split("<")[0]; return self.method(c, c, OPERATORS[c] + "_init", F, c == "PyLinearOperator", lambda f: not re.search(r"LinearOperator<[^()]*> *&", f["type"]["qualType"]))
    def member(self, cls, name, m, F, binding):
        """a member function called on the object itself"""
        i = m.get("referencedMemberDecl"); return self.method(cls, name, f"{OPERATORS[cls]}_{name}", F, binding, lambda f: f["id"] == i)
    def merge(self):
        """one text per function; the names of those whose two instantiations disagree"""
        out = {}; bad = []
        for (py, F), t in self.texts.items():
            if py in out and out[py] != t: bad.append(py)
            out.setdefault(py, t)
        return out, bad
def norm(s): return s.replace(" ", "")

def prefetch(x, repo, names):
    with cf.ThreadPoolExecutor(8) as p:
        for n, r in zip(names, p.map(lambda n: _try(lambda: clang(repo, *n)), names)): x.cache[n] = r
def wrappers(x, F):
    """the functions the module registers: one per operator class"""
    for f in of_type(functions(x.dump("_lanczos_wrapper", True), "operator()"), F):
        ts = {ty(n).split("<")[0] for n in walk(f) if n.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr")} & set(OPERATORS)
        if len(ts) != 1: raise Unsup("a registered function that constructs no operator")
        yield OPERATORS[ts.pop()], f
def walk(n):
    yield n
    for c in n.get("inner", []) or []:
        if c: yield from walk(c)
def extract(repo, binding=False):
    x = Extract(repo); errs, berrs = [], []
    prefetch(x, repo, [(n, False) for n in ("lanczos_recurrence", "orth_vector", "mod", "DenseEigenLinearOperator", "SparseEigenLinearOperator")] + [("PyLinearOperator", True), ("_lanczos_wrapper", True)] * binding)
    def run(errs, *whats):
        for what in whats:
            t, d = dict(x.texts), dict(x.done)
            try: what()
            except (Unsup, KeyError, IndexError, StopIteration, TypeError, AttributeError) as e: errs.append(f"{type(e).__name__}: {e}"[:300]); x.texts, x.done = t, d
    for F in ("double", "float"):
        run(errs, lambda: x.need("mod", "", F), lambda: x.need("orth_vector", "", F), lambda: x.need("lanczos_recurrence", "", F), lambda: x.method("DenseEigenLinearOperator", "matvec", "dense_matvec", F),
            lambda: x.method("DenseEigenLinearOperator", "shape", "dense_shape", F), lambda: x.method("SparseEigenLinearOperator", "matvec", "sparse_matvec", F), lambda: x.method("SparseEigenLinearOperator", "shape", "sparse_shape", F))
    _, bad = x.merge(); errs += [f"the instantiations of {b} for float and double differ" for b in bad]; n = len(bad)
    if binding and not errs:
        def wrap(F):
            ws = dict(wrappers(x, F))
            if set(ws) != set(OPERATORS.values()): raise Unsup(f"registered functions: {sorted(ws)}")
            for c, f in ws.items(): x.write(f, "wrap_" + c, "", F, True)
        for F in ("double", "float"):
            run(berrs, lambda: wrap(F), lambda: x.method("PyLinearOperator", "shape", "py_shape", F, True), lambda: x.method("PyLinearOperator", "matvec", "py_matvec", F, True, lambda f: norm(f["type"]["qualType"]).startswith(f"void(const{F}*,{F}*)")))
        berrs += [f"the instantiations of {b} for float and double differ" for b in x.merge()[1][n:]]
    return "import cxxrt as rt\nERRORS = " + repr(errs) + "\nBINDING_ERRORS = " + repr(berrs if binding else ["not read in this check"]) + "\n\n" + "\n\n".join(x.merge()[0].values()) + "\n"
def _try(f):
    try: return f()
    except Exception as e: return e

if __name__ == "__main__":
    b = "--binding" in sys.argv
    if b: sys.argv.remove("--binding")
    t = extract(sys.argv[1], b)
    open(sys.argv[2], "w").write(t)
    print(t if len(sys.argv) > 3 else "")
