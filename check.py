#!/usr/bin/env python3
"""Runs the solver-based check of one property: check.py ID [quick|thorough].

Each check is one or more units.  A unit = a harness + the real StochasticTree sources, compiled from /repo's current
tree to LLVM bitcode and executed symbolically by build/symx (engine/), which sends path feasibility and every assertion
to Z3.  Counterexamples are replayed against a native (ASan/UBSan) build of the same harness and sources before they are
reported.  The engine itself is compared with the native build on concrete inputs in every run (translator validation).
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("SX_REPO", "/repo"); BUILD = os.path.join(V, "build")
LLVMBIN = "/usr/lib/llvm-18/bin"
sys.path.insert(0, V)
INC = ["-I" + V + "/stubs", "-I" + REPO + "/include", "-I" + REPO, "-I/usr/include/eigen3", "-I" + V + "/harness"]
COMMON = ["-std=c++17", "-w", "-ffp-contract=off", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-DEIGEN_MAX_ALIGN_BYTES=0"]
BCF = ["-O1", "-emit-llvm", "-c", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
NATF = ["-O1", "-c", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-DSX_NATIVE"]
T0 = time.time()

class CheckError(Exception): pass

def sh(cmd, timeout=600, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)

_hdr = None
def hdrhash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for d in (REPO + "/include/stochtree", REPO + "/src", V + "/harness", V + "/stubs", V + "/stubs/fmt"):
            for f in sorted(os.listdir(d)):
                if f.endswith((".h", ".hpp", ".cpp")) and not (d.endswith("/harness") and f.endswith(".cpp")): h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
        _hdr = h.hexdigest()
    return _hdr

def compile_one(job):
    src, flags, ext = job
    key = hashlib.sha256((hdrhash() + "|".join(flags) + src + REPO).encode() + open(src, "rb").read()).hexdigest()[:24]
    out = os.path.join(BUILD, "obj", os.path.basename(src).replace(".", "_") + "-" + key + ext)
    if os.path.exists(out): return out
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(["clang++"] + flags + INC + [src, "-o", tmp], 800)
    if r.returncode: raise CheckError("compiling %s failed:\n%s" % (src, r.stderr[-3000:]))
    os.rename(tmp, out); return out

def build_engine():
    import fcntl
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        r = sh(["bash", V + "/engine/build.sh", BUILD], 800)
        if r.returncode: raise CheckError("engine build failed: " + r.stderr[-2000:])

def dflags(defs): return ["-DSXD_%s=%s" % kv for kv in sorted(defs.items())]

def plan(unit, defs):
    srcs = [REPO + "/src/" + s + ".cpp" for s in unit["srcs"]]
    h = V + "/harness/" + unit["h"]; df = dflags(defs)
    bc = [(h, COMMON + BCF + df, ".bc"), (V + "/harness/support.cpp", COMMON + BCF, ".bc")] + [(s, COMMON + BCF, ".bc") for s in srcs]
    nat = [(h, COMMON + NATF + df, ".o"), (V + "/harness/native.cpp", COMMON + NATF, ".o")] + [(s, COMMON + NATF, ".o") for s in srcs]
    return bc, nat

def parse_inputs(path_or_list):
    return "".join("%s %s\n" % (i["n"], i["v"]) for i in path_or_list)

def run_native(binp, inp, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=2000:alloc_fill_byte=190:max_malloc_fill_size=1000000", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98")
    try: r = sh([binp] + inp, timeout, env=env)
    except subprocess.TimeoutExpired: return -1, "", "timeout"
    return r.returncode, r.stdout, r.stderr

def main():
    import checks
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); only = os.environ.get("SX_UNIT")
    spec = checks.CHECKS[pid]
    if spec.get("runner"):  # python-layer checks have their own driver
        import importlib; sys.exit(importlib.import_module(spec["runner"]).run(pid, tier, seed, spec))
    units = [u for u in spec["units"] if tier in u and (not only or u["name"] == only)]
    build_engine()
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid())); os.makedirs(work, exist_ok=True)
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    verbose = os.environ.get("SX_V")
    findings = load_findings(pid)
    tot = dict(paths=0, forks=0, queries=0, unsat=0, sat=0, unknown=0, asserts=0, discharged=0, by_simplifier=0, insts=0, assumed_nonzero=0); solver_s = 0.0
    funcs = set(); lines = {}; samples = []; uinfo = []; problems = []; violations = []; known = {}; validated = 0; engine_wall = 0.0
    with cf.ThreadPoolExecutor(8) as ex:
        plans = [(u, dict(u[tier].get("D", {}))) for u in units]
        jobs = {}
        for u, d in plans:
            b, n = plan(u, d)
            for j in b + n: jobs.setdefault((j[0], tuple(j[1]), j[2]), None)
        order = sorted(jobs, key=lambda k: 0 if "/harness/" in k[0] else 1)
        futs = {k: ex.submit(compile_one, (k[0], list(k[1]), k[2])) for k in order}
        outs = {k: f.result() for k, f in futs.items()}
    t_compile = time.time() - T0
    total_budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    for ui, (u, d) in enumerate(plans):
        b, n = plan(u, d)
        bcs = [outs[(j[0], tuple(j[1]), j[2])] for j in b]; objs = [outs[(j[0], tuple(j[1]), j[2])] for j in n]
        allbc = os.path.join(work, u["name"] + ".bc"); binp = os.path.join(work, u["name"] + ".bin")
        r = sh([LLVMBIN + "/llvm-link"] + bcs + ["-o", allbc])
        if r.returncode: raise CheckError("llvm-link: " + r.stderr[-2000:])
        r = sh(["clang++", "-fsanitize=address,undefined"] + objs + ["-o", binp])
        if r.returncode: raise CheckError("native link: " + r.stderr[-2000:])
        mode = ["--real"] if u.get("mode", "real") == "real" else []
        budget = max(20, min(u[tier].get("budget", 300), total_budget - (time.time() - T0)))
        outf = os.path.join(work, u["name"] + ".jsonl")
        cmd = [BUILD + "/symx"] + mode + ["--out", outf, "--budget", str(budget), "--procs", str(u.get("procs", 8)), "--repo", REPO] + (["-v"] if verbose else []) + [allbc]
        t1 = time.time(); timed_out = False
        try: p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=None if verbose else subprocess.DEVNULL, timeout=budget + 60)
        except subprocess.TimeoutExpired: timed_out = True; problems.append("%s: engine exceeded its budget" % u["name"])
        wall = time.time() - t1; engine_wall += wall
        recs = []
        for line in open(outf):
            try: recs.append(json.loads(line))
            except ValueError: problems.append("%s: garbled engine output" % u["name"])
        summ = next((x for x in recs if x["t"] == "summary"), None)
        if summ is None: problems.append("%s: engine produced no summary" % u["name"]); summ = {}
        for k in tot: tot[k] += summ.get(k, 0)
        solver_s += summ.get("solver_s", 0)
        funcs |= set(summ.get("functions", []))
        for k, v in summ.get("lines", {}).items():
            if k.startswith(REPO + "/") and "/nlohmann/" not in k: lines[k[len(REPO) + 1:]] = max(lines.get(k[len(REPO) + 1:], 0), v)
        inc = [x for x in recs if x["t"] == "inconclusive"]
        for x in inc[:5]: problems.append("%s: inconclusive: %s [%s]" % (u["name"], x["msg"][:300], x.get("where", "")[:300]))
        if summ.get("inconclusive", 0) and not inc: problems.append("%s: inconclusive paths" % u["name"])
        reached = {x["label"] for x in recs if x["t"] == "reach"}
        fails = [x for x in recs if x["t"] == "fail"]
        for need in u.get("reach", ["end"]):
            if need not in reached and not fails: problems.append("%s: vacuous: nothing satisfiable reaches '%s'" % (u["name"], need))
        for x in recs:
            if x["t"] == "sample" and len(samples) < 6: samples.append({"unit": u["name"], "inputs": {i["n"] + "#%d" % k: i["v"] for k, i in enumerate(x["inputs"])}})
        # ---- replay of counterexamples on the real code
        bymsg = {}
        for x in fails: bymsg.setdefault((x["kind"], x["msg"]), []).append(x)
        for (kind, msg), xs in bymsg.items():
            confirmed = None; note = ""
            for x in xs[:4]:
                f = os.path.join(work, "cex.inputs"); open(f, "w").write(parse_inputs(x["inputs"]))
                rc, so, se = run_native(binp, [f])
                if rc not in (0, 77, -1): confirmed = (x, rc, se); break
                note = "native run ended with %s" % rc
            label = "%s/%s: %s" % (u["name"], kind, msg)
            if confirmed is None: problems.append("%s: counterexample not reproduced by the real code (%s): %s @ %s inputs=%s" % (u["name"], note, msg, xs[0]["where"][:400], parse_inputs(xs[0]["inputs"]).replace("\n", "; ")[:900])); continue
            x, rc, se = confirmed
            se = [l for l in se.splitlines() if "SX_" in l or "ERROR" in l or "runtime error" in l or "Assertion" in l or "terminate" in l]
            hit = next((k for k in findings if k in label), None)
            if hit: known[hit] = label; continue
            rp = os.path.join(rdir, "%s-%s-%d.json" % (pid, u["name"], len(violations)))
            json.dump({"property": pid, "unit": u["name"], "kind": kind, "message": msg, "where": x["where"], "inputs": x["inputs"], "native_exit": rc, "native_stderr": se[:6], "rerun": "check.py compiles harness/%s with %s natively; feed the inputs as 'name value' lines" % (u["h"], dflags(d))}, open(rp, "w"), indent=1)
            violations.append((label, rp, "; ".join(se[:2])))
        # ---- translator validation: native run and engine run on the same concrete inputs must observe the same values
        nval = u[tier].get("validate", 6)
        ok = 0; bad = None
        def one(k):
            lg = os.path.join(work, "v-%s-%d" % (u["name"], k)); rc, so, se = run_native(binp, ["--random", str(seed * 1000 + k), lg])
            if rc == 77: return "skip"
            if rc == -1: return "skip"
            eo = lg + ".jsonl"
            try: subprocess.run([BUILD + "/symx"] + mode + ["--concrete", lg, "--out", eo, "--budget", "60", "--repo", REPO, allbc], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
            except subprocess.TimeoutExpired: return "skip"
            er = [json.loads(l) for l in open(eo)]
            eobs = [(x["n"], x["v"]) for x in er if x["t"] == "obs"]; nobs = [tuple(l.split()[1:3]) for l in so.splitlines() if l.startswith("OBS ")]
            efail = [x for x in er if x["t"] == "fail"]; einc = [x for x in er if x["t"] == "inconclusive"]
            if rc != 0: return "ok" if efail else "engine passes inputs %s on which the native run fails (%s %s)" % (lg, rc, se[-300:])
            if efail: return "engine fails (%s) on inputs %s that pass natively" % (efail[0]["msg"], open(lg).read().replace("\n", "; ")[:600])
            if einc: return "skip"
            if len(eobs) != len(nobs): return "different trace lengths %d/%d" % (len(eobs), len(nobs))
            for a, c in zip(eobs, nobs):
                if a[0] != c[0]: return "trace order %s/%s" % (a, c)
                x, y = float(a[1]), float(c[1])
                if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))): return "observed %s engine, %s native" % (a, c)
            return "ok" if eobs else "skip"
        if not timed_out:
            with cf.ThreadPoolExecutor(8) as ex:
                for res in ex.map(one, range(nval)):
                    if res == "ok": ok += 1
                    elif res != "skip": bad = res
        validated += ok
        if bad and not fails: problems.append("%s: translator validation: %s" % (u["name"], bad))
        uinfo.append({"unit": u["name"], "harness": u["h"], "mode": "exact reals" if mode else "IEEE bit patterns", "bounds": u[tier].get("bounds", u.get("bounds", "")), "defines": d, "paths": summ.get("paths", 0), "queries": summ.get("queries", 0), "asserts": summ.get("asserts", 0), "discharged": summ.get("discharged", 0), "solver_s": round(summ.get("solver_s", 0), 2), "wall_s": round(wall, 2), "reached": sorted(reached), "traces_validated": ok})
        print("[%s] %-18s paths=%d queries=%d (unknown %d) asserts=%d discharged=%d fails=%d inconclusive=%d solver=%.1fs wall=%.1fs validated=%d" % (pid, u["name"], summ.get("paths", 0), summ.get("queries", 0), summ.get("unknown", 0), summ.get("asserts", 0), summ.get("discharged", 0), len(fails), summ.get("inconclusive", 0), summ.get("solver_s", 0), wall, ok), flush=True)
    None if os.environ.get("SX_KEEP") else shutil.rmtree(work, ignore_errors=True)
    write_evidence(pid, tier, seed, spec, tot, solver_s, funcs, lines, samples, uinfo, validated, violations, known, problems, t_compile)
    return finish(pid, violations, known, problems)

def finish(pid, violations, known, problems):
    for k, label in known.items(): print("KNOWN-FINDING: property=%s %s" % (pid, label))
    if violations:
        for label, rp, se in violations:
            print("  %s  [%s]" % (label, se[:300])); print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if problems:
        for p in problems[:12]: print("INCONCLUSIVE property=%s %s" % (pid, p))
        return 2
    print("OK property=%s" % pid); return 0

def load_findings(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match="([^"]+)"', l)
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

def write_evidence(pid, tier, seed, spec, tot, solver_s, funcs, lines, samples, uinfo, validated, violations, known, problems, t_compile, note="states = symbolic paths completed, transitions = LLVM instructions executed symbolically"):
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": len(violations),
          "assumptions": spec.get("assumptions", []),
          "coverage": {"states": tot["paths"], "transitions": tot["insts"], "traces_validated_against_impl": validated, "samples": samples or [{"note": "no symbolic sample recorded"}],
            "paths_forked": tot["forks"], "queries_discharged": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"], "assertions_decided": tot["asserts"], "assertions_proved": tot["discharged"], "assertions_proved_by_term_simplification": tot["by_simplifier"], "divisors_assumed_nonzero": tot["assumed_nonzero"], "solver_seconds": round(solver_s, 2), "compile_seconds": round(t_compile, 1),
            "functions_encoded": sorted(funcs), "repo_lines_executed_symbolically": lines, "units": uinfo, "known_findings": sorted(known.values()), "inconclusive": problems[:10],
            "note": note}}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

if __name__ == "__main__":
    try: rc = main()
    except CheckError as e: print("INCONCLUSIVE", e); rc = 2
    sys.exit(rc)
