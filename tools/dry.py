"""dry.py [IDS]: planted bugs in scratch copies (/repo untouched): what the check of each one's property reports."""
import sys, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/tools"); import bugs
def one(b):
    r = f"/tmp/mv/dry_{os.getpid()}_{b['id']}"; shutil.rmtree(r, True); os.makedirs(r + "/src"); shutil.copytree(os.environ.get("BASE", "/repo") + "/src/primate", r + "/src/primate", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    try:
        for f, old, new in b["edits"]:
            p = f"{r}/src/primate/{f}"; s = open(p).read()
            if s.count(old) != 1: return f"{b['id']} BAD EDIT {f} {s.count(old)}"
            open(p, "w").write(s.replace(old, new))
        c = subprocess.run(["python3", H + "/run.py", b["property"], "-v"], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        return f"{b['id']} {b['property']} rc={c.returncode} " + (("NOINPUT" if "no-failing" in v[0] else "INPUT") if v else "MISSED\n" + c.stdout[-900:] + c.stderr[-300:])
    finally: shutil.rmtree(r, True)
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for x in ex.map(one, [b for b in bugs.BUGS if not sys.argv[1:] or b["id"] in sys.argv[1:]]): print(x, flush=True)
