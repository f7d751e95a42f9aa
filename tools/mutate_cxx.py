"""Mutation sweep over the native sources: mutate_cxx.py OUT.jsonl [--n N] [--seed S] [--jobs J] — single-point textual changes of the compiled code, each
run through C27..C30; prints the changes no check reports (a change that does not compile is skipped)."""
import re, os, sys, json, random, shutil, subprocess, argparse
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SRC = "/repo/src/primate/"
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--n", type=int, default=60); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=2); ap.add_argument("--files", default="include/lanczos.h,include/eigen_operators.h,include/pylinop.h,_lanczos.cpp"); a = ap.parse_args()
RULES = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" == ", " != "), (r"&&", "||"), (r"\|\|", "&&"), (r"-=", "+="), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\b2\b", "1"), (r"\b2\b", "3"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::max", "std::min"), (r"std::min", "std::max"), (r"\brows\(\)", "cols()"), (r"\bcols\(\)", "rows()"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"col\(c\)", "col(p)"), (r"col\(c\)", "col(n)"), (r"col\(p\)", "col(c)"), (r"col\(n\)", "col(c)"), (r"\bj\+1\b", "j"), (r"beta\[j\]", "beta[j+1]"), (r"squaredNorm", "norm"), (r"\.norm\(\)", ".squaredNorm()"), (r"\.adjoint\(\)", ""), (r"normalized\(\)", "eval()"), (r"std::abs\((\w+)\)", r"\1"), (r"std::sqrt\((\w+)\)", r"\1"), (r"f_style", "c_style"), (r"\bncv\b", "deg"), (r"\borth\b", "ncv"), (r"\bdeg\b", "ncv"), (r"\bstart_idx\b", "0"), (r"\brtol\b", "F(0)"), (r"mutable_data\(\), ncv", "mutable_data(), ncv - 1"), (r"^(\s+)(\S.*;)", r"\1// \2")]
jobs = []
for f in a.files.split(","):
    L = open(SRC + f).read().split("\n"); nano = False
    for i, l in enumerate(L):
        if "#ifdef USE_NANOBIND" in l: nano = True
        if l.startswith("#else"): nano = False
        code = l.split("//")[0]
        if nano or not code.strip() or code.lstrip().startswith(("#", "using", "template", "namespace", "enum", "struct", "}")) or "hr_clock" in code or "matvec_time" in code: continue
        if f == "include/eigen_operators.h" and i > 110: continue
        for r, w in RULES:
            for m in re.finditer(r, code):
                new = code[:m.start()] + m.expand(w) + code[m.end():]
                if new != code: jobs.append((f, i, l, new))
random.Random(a.seed).shuffle(jobs); jobs = jobs[:a.n]
def one(x):
    j, (f, i, old, new) = x; r = f"/tmp/mv/c{os.getpid()}_{j}"; shutil.rmtree(r, True); os.makedirs(r + "/src"); shutil.copytree(SRC, r + "/src/primate", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    for z in ("extern", "pyproject.toml", "meson.build"):
        if os.path.exists("/repo/" + z): (os.symlink)("/repo/" + z, r + "/" + z)
    p = f"{r}/src/primate/{f}"; L = open(p).read().split("\n"); L[i] = new; open(p, "w").write("\n".join(L)); res = {}
    for c in ("C27", "C28", "C29", "C30"):
        try: q = subprocess.run(["python3", H + "/run.py", c], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True, timeout=880)
        except subprocess.TimeoutExpired: res[c] = "TIMEOUT"; continue
        v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]; n = sum(1 for l in q.stdout.splitlines() if "not discharged" in l)
        res[c] = f"rc{q.returncode}" if q.returncode not in (0, 1) else ("NOINPUT" if v and "no-failing" in v[0] else "INPUT") if v else f"quiet({n} open)"
        if "error:" in q.stdout + q.stderr and "compil" in q.stdout + q.stderr: res[c] += " compile-error"
        if v: break
    shutil.rmtree(r, True); caught = any("INPUT" in z for z in res.values())
    with open(a.out, "a") as h: h.write(json.dumps({"f": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res, "caught": caught}) + "\n")
    if not caught: print(f, i + 1, res, "- " + old.strip(), "+ " + new.strip(), sep="\n   ", flush=True)
print(len(jobs), "changes")
with ThreadPoolExecutor(a.jobs) as ex: list(ex.map(one, enumerate(jobs)))
