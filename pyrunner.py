"""Driver of the checks of the Python package: one worker process per unit explores the real code by symbolic execution
(pysym/), replays counterexamples on floats with the real libraries and compares both on concrete inputs."""
import concurrent.futures as cf, json, os, shutil, subprocess, time
import check
PY = "/opt/vp/venv/bin/python"

def run(pid, tier, seed, spec):
    repo = check.REPO; V = check.V; only = os.environ.get("SX_UNIT")
    units = [u for u in spec["units"] if tier in u and (not only or u["name"] == only)]
    work = os.path.join(check.BUILD, "run-%s-%d" % (pid, os.getpid())); os.makedirs(work, exist_ok=True)
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    findings = check.load_findings(pid); t0 = time.time(); total = 700 if tier == "quick" else 3200
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=work, MPLCONFIGDIR=work); env.pop("PYTHONPATH", None)
    def one(u):
        b = min(u[tier].get("budget", 300 if tier == "quick" else 1500), max(20, total - (time.time() - t0)))
        jf, of = os.path.join(work, u["name"] + ".job"), os.path.join(work, u["name"] + ".out")
        json.dump({"h": u["h"], "D": u[tier].get("D", {}), "repo": repo, "budget": b, "validate": u[tier].get("validate", 4), "seed": seed}, open(jf, "w"))
        try: p = subprocess.run([PY, "-B", os.path.join(V, "pysym", "worker.py"), jf, of], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=b + 150, env=env, cwd=work)
        except subprocess.TimeoutExpired: return {"crash": "worker exceeded its time"}
        if not os.path.exists(of): return {"crash": "worker failed: " + p.stderr[-700:]}
        return json.load(open(of))
    with cf.ThreadPoolExecutor(8) as ex: results = list(ex.map(one, units))
    tot = dict(paths=0, forks=0, queries=0, unsat=0, sat=0, unknown=0, asserts=0, discharged=0, by_simplifier=0, insts=0, assumed_nonzero=0); solver = 0.0
    funcs = set(); lines = {}; samples = []; uinfo = []; problems = []; violations = []; known = {}; validated = 0
    for u, r in zip(units, results):
        n = u["name"]
        if "crash" in r: problems.append("%s: %s" % (n, r["crash"])); continue
        st = r["stats"]
        for k in tot: tot[k] += st.get(k, 0)
        solver += st.get("solver_s", 0); funcs |= set(r["funcs"]); validated += r["validated"]
        for f, ls in r["lines"].items(): lines.setdefault(f, set()).update(ls)
        for s in r["samples"][:1]:
            if len(samples) < 6: samples.append({"unit": n, "inputs": {k: str(v) for k, v in s}})
        for p in r["problems"]: problems.append("%s: inconclusive: %s" % (n, p[:500]))
        confirmed = {}
        for f in r["fails"]:
            if not f["confirmed"]: continue
            confirmed.setdefault(f["concrete_msg"].split(" (")[0] if not f["concrete_msg"].startswith("raises") else f["concrete_msg"], f)
        for f in r["fails"]:
            if not f["confirmed"] and not confirmed: problems.append("%s: counterexample not reproduced on the real code: %s (%s) inputs=%s" % (n, f["msg"][:300], f["concrete_msg"][:200], str(f["inputs"])[:600]))
        for msg, f in confirmed.items():
            label = "%s/assert: %s" % (n, f["concrete_msg"]); hit = next((k for k in findings if k in label), None)
            if hit: known[hit] = label; continue
            rp = os.path.join(rdir, "%s-%s-%d.json" % (pid, n, len(violations)))
            json.dump({"property": pid, "unit": n, "message": f["concrete_msg"], "symbolic_message": f["msg"], "inputs": f["concrete_inputs"], "settings": u[tier].get("D", {}), "rerun": "pysym/worker.py replays these inputs on floats with numpy/scipy/pandas and harness pysym/%s.py" % u["h"]}, open(rp, "w"), indent=1)
            violations.append((label, rp, "inputs " + ", ".join("%s=%g" % (k, v) for k, v in f["concrete_inputs"][:16])))
        if "end" not in r["reached"] and not r["fails"] and not r["problems"]: problems.append("%s: vacuous: no path reaches the end" % n)
        if r["bad"] and not r["fails"]: problems.append("%s: comparison with the real libraries: %s" % (n, r["bad"][:500]))
        uinfo.append({"unit": n, "harness": "pysym/" + u["h"] + ".py", "mode": "exact reals", "bounds": u.get("bounds", ""), "defines": u[tier].get("D", {}), "paths": st.get("paths", 0), "queries": st.get("queries", 0), "asserts": st.get("asserts", 0), "discharged": st.get("discharged", 0), "solver_s": round(st.get("solver_s", 0), 2), "wall_s": round(r["wall"], 2), "reached": r["reached"], "traces_validated": r["validated"]})
        print("[%s] %-18s paths=%d queries=%d (unknown %d) asserts=%d discharged=%d fails=%d problems=%d solver=%.1fs wall=%.1fs validated=%d" % (pid, n, st.get("paths", 0), st.get("queries", 0), st.get("unknown", 0), st.get("asserts", 0), st.get("discharged", 0), len(r["fails"]), len(r["problems"]), st.get("solver_s", 0), r["wall"], r["validated"]), flush=True)
    tot["insts"] = tot["forks"] + tot["asserts"]
    if not os.environ.get("SX_KEEP"): shutil.rmtree(work, ignore_errors=True)
    check.write_evidence(pid, tier, seed, spec, tot, solver, funcs, {f: len(s) for f, s in lines.items()}, samples, uinfo, validated, violations, known, problems, 0.0, "states = symbolic paths of the Python code completed, transitions = decisions and assertions sent to the solver or decided by exact normalization; repo_lines = distinct lines executed")
    return check.finish(pid, violations, known, problems)
