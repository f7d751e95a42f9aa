#!/usr/bin/env python3
"""Check of one property: run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]
Proof obligations are generated from /repo's current sources and discharged (engine/symrun.py); the same contracts are evaluated on the real
code under CPython (engine/conrun.py), which also replays the verifier's counterexamples."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY, VT = "/opt/venv/bin/python", "python3-vt"
sys.path.insert(0, HERE)

def build(dst, native, probe=False):
    """scratch copy of the package with the current sources; compiled extensions are built here, never taken from the tree"""
    pkg = os.path.join(dst, "primate"); os.makedirs(pkg)
    src = os.path.join(REPO, "src", "primate")
    for f in os.listdir(src):
        if f.endswith(".py"): shutil.copy(os.path.join(src, f), pkg)
    if not native:
        with open(os.path.join(pkg, "_lanczos.py"), "w") as f: f.write("def __getattr__(n):\n\traise AttributeError('native extension not built for this check: ' + n)\n")
        return None
    inc = subprocess.run([PY, "-c", "import pybind11,numpy,sysconfig;print(sysconfig.get_paths()['include'],pybind11.get_include(),numpy.get_include(),sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True).stdout.split()
    cmd = ["g++", "-std=c++20", "-O0" if native == "fast" else "-O1", "-fPIC", "-shared", "-w"] + ["-I" + x for x in inc[:3]] + ["-I/usr/include/eigen3", "-I" + os.path.join(src, "include"), os.path.join(src, "_lanczos.cpp"), "-o", os.path.join(pkg, "_lanczos" + inc[3])]
    pr = None
    if probe:      # (it may fail to compile when the headers changed: the contracts on these functions are then only checked through the extension)
        pr = subprocess.Popen(cmd[:-3] + [os.path.join(HERE, "engine", "probe.cpp"), "-o", os.path.join(pkg, "_probe" + inc[3])], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if pr: pr.wait()
    if r.returncode != 0: return "native extension does not compile: " + r.stderr[-800:]
    return None

def WIDE(cfg):
    """sizes around the integer constants of the sources under contract (where a change may treat larger problems differently)"""
    import ast
    out = {7, 9, 12, 17, 33}
    for f in {x.split(".")[0] for x in cfg.get("FUNCTIONS", [])}:
        p = os.path.join(REPO, "src", "primate", f + ".py")
        if os.path.exists(p):
            try: out |= {n.value + d for n in ast.walk(ast.parse(open(p).read())) if isinstance(n, ast.Constant) and type(n.value) is int and 4 <= n.value <= cfg.get("WIDE_MAX", 130) for d in (-1, 0, 1)}
            except SyntaxError: pass
    return sorted(x for x in out if x <= cfg.get("WIDE_MAX", 140))

def CONSTS(cfg):
    """the numbers written in the sources under contract, and their neighbours"""
    import ast
    out = set()
    for f in {x.split(".")[0] for x in cfg.get("FUNCTIONS", [])}:
        p = os.path.join(REPO, "src", "primate", f + ".py")
        try: t = ast.parse(open(p).read())
        except (OSError, SyntaxError): continue
        for n in ast.walk(t):
            x = n.value if isinstance(n, ast.Constant) else None
            if isinstance(n, ast.BinOp) and all(isinstance(y, ast.Constant) and type(y.value) is int and 0 <= y.value <= 4096 for y in (n.left, n.right)):
                a, b = n.left.value, n.right.value; x = a ** b if isinstance(n.op, ast.Pow) and b <= 12 else a << b if isinstance(n.op, ast.LShift) and b <= 12 else a * b if isinstance(n.op, ast.Mult) else None
            if type(x) in (int, float) and 8 <= x <= 5000 and x == int(x): out |= {int(x) - 1, int(x), int(x) + 1}
    return sorted(out)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); ap.add_argument("--replay"); ap.add_argument("-v", action="store_true"); ap.add_argument("--escalate", action="store_true")
    a = ap.parse_args(); pid = a.id; t0 = time.time()
    if a.replay: a.replay = os.path.abspath(a.replay)
    cf = os.path.join(HERE, "contracts", pid + ".py")
    text = open(cf).read()
    cfg = {}
    import ast
    for n in ast.parse(text).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try: cfg.update({t.id: ast.literal_eval(n.value) for t in n.targets})
            except ValueError: pass
    native = cfg.get("NATIVE"); consts = json.dumps(CONSTS(cfg))
    thorough = a.tier == "thorough"
    con_s = cfg.get("CON_SECONDS", 8) * (8 if thorough else 1); sym_s = cfg.get("SYM_SECONDS", 60) * (4 if thorough else 1)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO)
    env.pop("PYTHONPATH", None)
    tmp = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        so, co = os.path.join(tmp, "sym.json"), os.path.join(tmp, "con.json")
        if cfg.get("EXTRACT"):
            nat = os.path.join(tmp, "native.py"); env["VERIF_NATIVE"] = nat
            r = subprocess.run([VT, os.path.join(HERE, "engine", "cxx.py"), REPO, nat] + ["--binding"] * (cfg["EXTRACT"] == "binding"), capture_output=True, text=True, env=env)
            if not os.path.exists(nat): open(nat, "w").write(f"ERRORS = [{(r.stderr or 'extraction failed')[-300:]!r}]\n")
        has_sym = "def ob_" in text and not cfg.get("CONCRETE_ONLY")
        sp = subprocess.Popen([VT, os.path.join(HERE, "engine", "symrun.py"), pid, so, "--seconds", str(sym_s)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=tmp) if has_sym and not a.replay else None
        pkg = os.path.join(tmp, "pkg"); os.makedirs(pkg)
        berr = build(pkg, native, cfg.get("PROBE"))
        def con(out, *extra, seconds=con_s):
            r = subprocess.run([PY, os.path.join(HERE, "engine", "conrun.py"), pid, pkg, out, "--seed", str(a.seed), "--seconds", str(seconds), "--consts", consts, *extra], env=env, capture_output=True, text=True, cwd=tmp, timeout=seconds * 3 + (100 if "--hints" in extra else 240))
            return json.load(open(out)) if os.path.exists(out) else {"error": (r.stderr or r.stdout)[-1500:], "rc": r.returncode}
        if a.replay:
            r = subprocess.run([PY, os.path.join(HERE, "engine", "conrun.py"), pid, pkg, co, "--replay", a.replay], env=env, cwd=tmp)
            print("replayed on the current tree: " + ("fails" if r.returncode else "holds")); return 1 if r.returncode else 0
        cres = {"error": berr} if berr else None
        if cres is None:
            try: cres = con(co)
            except subprocess.TimeoutExpired: cres = {"error": "concrete run timed out"}
        sym = None; serr = ""
        if sp is not None:
            try:
                o, e = sp.communicate(timeout=max(5, sym_s * 2 + 60 - (time.time() - t0)))
                if os.path.exists(so): sym = json.load(open(so))
                else: serr = (e or o)[-800:]
            except subprocess.TimeoutExpired:
                sp.kill(); sp.communicate(); serr = "proof run timed out"
        obs = dict(sym["obligations"]) if sym else {}
        if has_sym and sym is None: obs["(proof run)"] = ["unknown", serr]
        if cres.get("demoted"): obs = {k: ["unsupported", cres["demoted"][0]] for k in obs}
        fails = list(cres.get("failures", []))
        if "error" in cres: fails.append({"obligation": "(concrete run)", "message": "the package cannot be loaded and run: " + str(cres["error"]), "crash": True})
        refuted = {k: i for k, (s, i) in obs.items() if s == "refuted"}
        undis = {k: (s, i) for k, (s, i) in obs.items() if s not in ("proved",)}
        hinted = None
        if undis and sym and sym["hints"] and not fails and not berr:
            hp = os.path.join(tmp, "hints.json"); json.dump(sym["hints"][:40], open(hp, "w"))
            try: hinted = con(os.path.join(tmp, "hin.json"), "--hints", hp, seconds=20)
            except subprocess.TimeoutExpired: hinted = json.load(open(os.path.join(tmp, "hin.json"))) if os.path.exists(os.path.join(tmp, "hin.json")) else {}
            fails += hinted.get("failures", [])
        deep = 0
        if (undis or a.escalate) and not fails and not berr and has_sym:      # not everything was proved: search further for a failing input (other seeds, other sizes)
            ps = []
            for k, wide in enumerate([None, None, WIDE(cfg), WIDE(cfg), WIDE(cfg)] if cfg.get("WIDE", True) else [None] * 4):
                o = os.path.join(tmp, f"more{k}.json"); sec = min(40, con_s * 3) if refuted else min(25, con_s * 2)
                ps.append((o, subprocess.Popen([PY, os.path.join(HERE, "engine", "conrun.py"), pid, pkg, o, "--seed", str(a.seed + 7919 * (k + 1)), "--seconds", str(sec), "--consts", consts] + (["--wide", json.dumps(wide)] if wide else []), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp)))
            end = time.time() + 3 * sec + 30
            for o, p in ps:
                try: p.wait(timeout=max(1, end - time.time()))
                except subprocess.TimeoutExpired: p.kill(); p.wait()
                if os.path.exists(o): r = json.load(open(o)); fails += r.get("failures", []); deep += r.get("evaluations", 0)
        known = load_known(pid)
        shown = []; real = []
        for f in fails:
            k = [x for x in known if x in f["message"]]
            (shown if k else real).append(f)
        for f in shown: print(f"KNOWN-FINDING: property={pid} {f['obligation']}: {f['message'][:200]}")
        ndis = sum(1 for s, _ in obs.values() if s == "proved"); nob = len(obs)
        violation = bool(real) or bool(refuted and not shown)
        bounded = sorted(k for k in cres.get("per", {}) if k.startswith("extra_"))
        assumptions = list(cfg.get("ASSUMPTIONS", [])) + ["floating-point arithmetic is treated as real arithmetic in the proofs; the concrete runs use float64 with tolerance 1e-7"]
        if sym and sym["divs"]: assumptions.append("quotients are only evaluated where these denominators are nonzero: " + "; ".join(sym["divs"])[:1500])
        ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": cfg.get("LEVEL", "proof"), "wall_s": round(time.time() - t0, 2), "violations": len(real) + (1 if refuted and not real else 0), "assumptions": assumptions,
              "coverage": {"obligations": nob, "discharged": ndis, "checker_cmd": f"python3-vt engine/symrun.py {pid} OUT.json --seconds {sym_s}",
                           "trusted_base": ["contract engine of /verif/engine (symbolic execution of the parsed sources, normal-form equality prover)", "z3 5.3.2", "CPython semantics of the executed subset"] + (["assumed contract: " + t for t in sym["trusted"]] if sym else []),
                           "functions_under_contract": cfg.get("FUNCTIONS", []), "undischarged": {k: list(v) for k, v in list(undis.items())[:20]},
                           "paths": sym["paths"] if sym else 0, "loops_summarised": sym["loops"] if sym else 0, "solver_queries": sym["queries"] if sym else 0, "solver_s": sym["solver_s"] if sym else 0, "proof_wall_s": sym["wall"] if sym else 0,
                           "obligation_names": sorted(obs)[:150],
                           "evaluations": cres.get("evaluations", 0) + deep, "distinct_nontrivial": cres.get("nontrivial", 0), "rule": "random dimensions, data and discrete choices per contract; non-trivial when at least one value obligation was compared on the real code",
                           "samples": cres.get("samples", [])[:3], "bounded_stand_ins": {k: {"runs": cres["per"][k][0], "bound": cfg.get("BOUNDS", {}).get(k, "sizes as sampled by the contract")} for k in bounded},
                           "per_contract_runs": cres.get("per", {})}}
        s = json.dumps(ev, indent=1)
        if len(s) > 60000: ev["coverage"]["samples"] = []; ev["coverage"]["undischarged"] = {k: [x[0], x[1][:120]] for k, x in ev["coverage"]["undischarged"].items()}; s = json.dumps(ev, indent=1)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: f.write(s)
        print(f"{pid}: obligations {ndis}/{nob} discharged, {cres.get('evaluations', 0) + deep} concrete evaluations, {time.time() - t0:.1f}s")
        for k, (st, i) in undis.items(): print(f"  not discharged [{st}] {k}: {i[:300 if a.v else 160]}")
        if violation:
            rp = os.path.join(HERE, "replay"); os.makedirs(rp, exist_ok=True); path = os.path.join(rp, f"{pid}.json")
            if real:
                f = next((x for x in real if not x.get("crash")), real[0])
                json.dump({"property": pid, **f, "failed_obligations": undis, "how": f"python3 run.py {pid} --replay {path}"}, open(path, "w"), indent=1, default=str)
                print(f"  failing input: {f['obligation']}: {f['message'][:400]}")
                print(f"VIOLATION property={pid} replay={path}")
            else:
                json.dump({"property": pid, "failed_obligations": refuted, "verifier_output": undis, "hints": sym["hints"][:10]}, open(path, "w"), indent=1, default=str)
                print(f"  failed obligation: {next(iter(refuted.items()))}"[:600])
                print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            return 1
        return 0
    finally: shutil.rmtree(tmp, ignore_errors=True)

def load_known(pid):
    """recorded, unrepaired findings: lines 'known: property=<id> match=<text of the failure>' (fixed: lines suppress nothing)"""
    p = os.path.join(HERE, "known_findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"known: property={pid} match="): out.append(l.split("match=", 1)[1].strip())
    return out

if __name__ == "__main__": sys.exit(main())
