"""Concrete run of one property's contracts on the real code (executed with the repository's own Python).
   conrun.py ID PKGDIR OUT.json --seconds S --seed N [--hints FILE] [--replay FILE]"""
import sys, os, json, time, importlib.util, zlib, argparse
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("pkg"); ap.add_argument("out"); ap.add_argument("--seconds", type=float, default=10); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--hints"); ap.add_argument("--replay"); ap.add_argument("--max", type=int, default=100000); ap.add_argument("--wide"); ap.add_argument("--consts", default="[]")
a = ap.parse_args()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, a.pkg); sys.path.insert(1, HERE)
from engine import vcon
spec = importlib.util.spec_from_file_location("contract_" + a.id, os.path.join(HERE, "contracts", a.id + ".py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
import primate
assert os.path.dirname(os.path.abspath(primate.__file__)).startswith(os.path.abspath(a.pkg)), primate.__file__
obs = [(n, getattr(m, n)) for n in dir(m) if n.startswith(("ob_", "extra_"))]
res = {"evaluations": 0, "nontrivial": 0, "skips": 0, "failures": [], "per": {}, "samples": []}
if a.replay:
    r = json.load(open(a.replay)); vcon.VCon.wide = r.get("wide"); vcon.VCon.consts = r.get("consts", ())
    st, msg, v = vcon.run_one(getattr(m, r["obligation"]), r["seed"], r.get("hints"), r.get("choices"), r.get("size", 6))
    print(st, msg); print({k: (x.tolist() if hasattr(x, "tolist") else x) for k, x in v.trace.items()})
    sys.exit(1 if st == "fail" else 0)
def trace(v): return {k: (x.tolist() if hasattr(x, "tolist") and getattr(x, "size", 1) <= 64 else (repr(x)[:200] if not isinstance(x, (int, float, str)) else x)) for k, x in v.trace.items()}
def attempt(n, fn, seed, hints=None, choices=None, size=6):
    st, msg, v = vcon.run_one(fn, seed, hints, choices, size)
    p = res["per"].setdefault(n, [0, 0, 0]); p[0] += 1
    res["evaluations"] += 1
    if st == "skip": res["skips"] += 1; p[2] += 1
    if v.nontrivial: res["nontrivial"] += 1; p[1] += 1
    if st == "ok" and len(res["samples"]) < 3 and v.trace: res["samples"].append({"obligation": n, "seed": seed, "inputs": trace(v)})
    if st == "fail":
        res["failures"].append({"obligation": n, "seed": seed, "hints": hints, "choices": choices, "size": size, "wide": vcon.VCon.wide, "consts": vcon.VCon.consts, "message": msg, "inputs": trace(v)})
        dump(); return True
    return False
def dump(): json.dump(res, open(a.out + ".part", "w")); os.replace(a.out + ".part", a.out)
t0 = time.time()
vcon.VCon.consts = json.loads(a.consts)
if a.wide: vcon.VCon.wide = json.loads(a.wide)
if a.hints:
    for h in json.load(open(a.hints)):
        ob, ints, ch = h
        for n, fn in obs:
            if n == ob:
                for k in range(12):
                    if attempt(n, fn, zlib.crc32(f"{a.seed}:{n}:h{k}".encode()), ints, ch): break
        if len(res["failures"]) >= 3 or time.time() - t0 > a.seconds: break
else:
    k = 0; dead = set()
    weight = getattr(m, "WEIGHT", {})
    spent = {n: 0.0 for n, _ in obs}
    while time.time() - t0 < a.seconds and k < a.max and len(dead) < len(obs):
        for n, fn in obs:
            if n in dead: continue
            tot = sum(spent.values())
            if k > 3 and spent[n] > 3.0 * weight.get(n, 1.0) * max(0.3, tot / len(obs)): continue   # expensive obligations do not starve the others
            if k >= getattr(fn, "max_runs", 10 ** 9): continue
            t1 = time.time()
            if attempt(n, fn, zlib.crc32(f"{a.seed}:{n}:{k}".encode()), size=3 + k % 5 if k < 40 else 3 + k % 8): dead.add(n)
            spent[n] += time.time() - t1
            if time.time() - t0 > a.seconds and k > 0: break
        k += 1
res["demoted"] = vcon.VCon.demoted[:3]
res["wall"] = time.time() - t0; res["seconds_per"] = {}
dump()
