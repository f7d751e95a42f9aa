"""Proof run of one property's contracts.  symrun.py ID OUT.json --seconds S"""
import sys, os, json, time, importlib.util, argparse, resource
sys.dont_write_bytecode = True; sys.setrecursionlimit(20000)
ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("out"); ap.add_argument("--seconds", type=float, default=60); ap.add_argument("--only"); ap.add_argument("-v", action="store_true")
a = ap.parse_args()
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import vsym, ctx, ssp, load
spec = importlib.util.spec_from_file_location("contract_" + a.id, os.path.join(HERE, "contracts", a.id + ".py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
if getattr(m, "EXTRACT", False) and not os.environ.get("VERIF_NATIVE"):
    from engine import cxx
    import tempfile, atexit, shutil
    _d = tempfile.mkdtemp(); os.environ["VERIF_NATIVE"] = os.path.join(_d, "native.py"); _owner = os.getpid()
    atexit.register(lambda: os.getpid() == _owner and shutil.rmtree(_d, ignore_errors=True))
    try: open(os.environ["VERIF_NATIVE"], "w").write(cxx.extract(os.environ.get("VERIF_REPO", "/repo"), m.EXTRACT == "binding"))
    except Exception as e: open(os.environ["VERIF_NATIVE"], "w").write(f"ERRORS = [{str(e)[:300]!r}]\n")
obs = [(n, getattr(m, n)) for n in dir(m) if n.startswith("ob_")]
out = {"obligations": {}, "paths": 0, "hints": [], "divs": [], "trusted": [], "vacuous": [], "per": {}}
t0 = time.time()
def one(k):
    n, fn = obs[k]; left = a.seconds - (time.time() - t0)
    if left < 0.5: return n, None
    q0, s0, l0 = ctx.STATS.queries, ctx.STATS.time, load.LOOPSTATS["loops"]
    try: r = vsym.run_ob(n, fn, min(left, getattr(fn, "seconds", a.seconds * .9)), getattr(fn, "max_paths", 5000))
    except BaseException as e: return n, {"by": {n + "/(no exception)": ["unknown", f"{type(e).__name__}: {e}"[:300]]}, "reached": True, "paths": 0, "hints": [], "divs": [], "time": 0, "used": [], "q": 0, "s": 0, "l": 0}
    return n, {"by": {l: [s, i] for l, (s, i) in r.by.items()}, "reached": r.reached, "paths": r.paths, "hints": r.hints[:6], "divs": sorted(r.divs)[:10], "time": r.time, "used": sorted(ssp.USED), "q": ctx.STATS.queries - q0, "s": ctx.STATS.time - s0, "l": load.LOOPSTATS["loops"] - l0}
def child():
    import ctypes, signal
    ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)
sel = [k for k, (n, _) in enumerate(obs) if not a.only or a.only in n]
if len(sel) > 1 and not os.environ.get("SYMDEBUG"):
    import tempfile, pickle
    todo = list(sel); run = {}; res = {}; tmp = tempfile.mkdtemp()
    while todo or run:
        while todo and len(run) < 6:
            k = todo.pop(0); pid = os.fork()
            if pid == 0:
                try:
                    child(); r = one(k)
                    with open(f"{tmp}/{k}", "wb") as f: pickle.dump(r, f)
                finally: os._exit(0)
            run[pid] = k
        pid, _ = os.wait()
        if pid in run:
            k = run.pop(pid)
            try:
                with open(f"{tmp}/{k}", "rb") as f: res[k] = pickle.load(f)
                os.unlink(f"{tmp}/{k}")
            except OSError: res[k] = (obs[k][0], None)
    os.rmdir(tmp); results = [res[k] for k in sel]
else: results = [one(k) for k in sel]
used = set(); Q = S_ = L = 0
for n, r in results:
    if r is None: out["obligations"][n + "/(exploration)"] = ["unknown", "time budget"]; continue
    out["obligations"].update(r["by"])
    if not r["reached"] and not any(s != "proved" for s, _ in r["by"].values()): out["vacuous"].append(n); out["obligations"][n + "/(reachable)"] = ["unknown", "no path reaches the end of the contract"]
    out["paths"] += r["paths"]; out["hints"] += r["hints"]; out["divs"] += r["divs"]; out["per"][n] = [r["paths"], round(r["time"], 2)]; used |= set(r["used"]); Q += r["q"]; S_ += r["s"]; L += r["l"]
    if a.v:
        print(f"== {n}: {r['paths']} paths {r['time']:.2f}s")
        for l, (s, i) in r["by"].items(): print("  ", s, l, i if s != "proved" else "")
out["trusted"] = sorted(used); out["queries"] = Q; out["solver_s"] = round(S_, 3); out["loops"] = L; out["wall"] = round(time.time() - t0, 2)
out["divs"] = sorted(set(out["divs"]))[:20]
json.dump(out, open(a.out, "w"))
