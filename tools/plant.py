"""Planted bugs: writes seeded/<id>/ from tools/bugs.py (python3 tools/plant.py [IDS]) and confirms each: it applies, the tests still pass, the
demonstration passes on the unchanged tree and fails with the change; then runs the check of its property.  /repo is restored afterwards."""
import sys, os, json, subprocess, importlib.util
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"; P = R + "/src/primate/"
sys.path.insert(0, os.path.join(H, "tools")); import bugs
STUB = 'import sys, types\nm = types.ModuleType("primate._lanczos"); m.lanczos = None; sys.modules["primate._lanczos"] = m\n'
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
NATIVE = '''import os, subprocess, sys, sysconfig, tempfile, shutil, importlib.util, atexit, primate, pybind11
d = tempfile.mkdtemp(); atexit.register(shutil.rmtree, d, True)
src = os.path.join(os.path.dirname(primate.__file__)); so = os.path.join(d, "_lanczos" + sysconfig.get_config_var("EXT_SUFFIX"))
subprocess.run(["g++", "-std=c++20", "-O1", "-fPIC", "-shared", "-w", "-I" + sysconfig.get_path("include"), "-I" + pybind11.get_include(), "-I/usr/include/eigen3", "-I" + src + "/include", src + "/_lanczos.cpp", "-o", so], check=True)
s = importlib.util.spec_from_file_location("primate._lanczos", so); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); sys.modules["primate._lanczos"] = m; primate._lanczos = m
'''
sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
def restore(): sh(f"git -C {R} checkout -- ."); 
ids = sys.argv[1:]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for b in bugs.BUGS:
    if ids and b["id"] not in ids: continue
    d = f"{H}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True); restore()
    for f, old, new in b["edits"]:
        s = open(P + f).read(); assert s.count(old) == 1, (b["id"], f, s.count(old)); open(P + f, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout); restore()
    pre = STUB if b.get("stub") else NATIVE if b.get("native") else ""
    open(d + "/demo.py", "w").write(pre + b["demo"].strip() + "\n"); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("bash /opt/vp/build.sh"); r0 = sh(f"cd {R} && bash {d}/demo.sh")
    try:
        a = sh(f"git -C {R} apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
        t = sh("bash /opt/vp/test.sh /tmp/plant.json"); res = json.load(open("/tmp/plant.json")); ps = set(res.get("passed", res if isinstance(res, list) else []))
        bad = [x for x in base if x not in ps] if ps else str(res)[:300]
        r1 = sh(f"cd {R} && bash {d}/demo.sh"); c = sh(f"cd {H} && python3 run.py {b['property']}")
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        print(b["id"], b["property"], "| demo", r0.returncode, r1.returncode, "| tests", "ok" if not bad else bad, "| check", c.returncode, ("NOINPUT" if v and "no-failing" in v[0] else "INPUT") if v else "MISSED", flush=True)
        if r0.returncode or not r1.returncode: print((r0.stderr + r1.stderr)[-600:])
        if not v: print(c.stdout[-600:])
    finally: restore()
sh("bash /opt/vp/build.sh")
