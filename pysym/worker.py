"""worker.py JOB.json: runs one unit (explore / replay / validate) and writes a JSON result."""
import json, os, random, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
import sym, shim

def main():
    job = json.load(open(sys.argv[1])); repo = job["repo"]; res = {}
    shim.load(repo); shim.monitor(repo)
    h = __import__(job["h"]); fn = lambda ex: h.run(ex, job["D"])
    t = time.time()
    st, fails, problems, samples, reached = sym.explore(fn, job["budget"])
    res.update(stats=st, problems=problems, samples=[[(n, v) for n, v in s] for s in samples], reached=sorted(reached), wall=time.time() - t)
    # counterexamples are replayed on floats with the real libraries
    out = []; seen = {}
    for msg, inputs, guess in fails:
        k = msg.split(" (")[0]
        if seen.get(k, 0) >= 3: continue
        ok = None; cands = [inputs]
        if guess: # the solver gave up: look for a concrete input near the path
            ch = [(n, v) for n, v in inputs if isinstance(v, int)]
            cands = [inputs] + [None] * 30
        for ci, c in enumerate(cands):
            r = random.Random(ci)
            s, m, ex = sym.concrete(fn, dict(c) if c is not None else dict(ch), r)
            if s == "fail": ok = (m, ex.inputs); break
        seen[k] = seen.get(k, 0) + 1
        out.append({"msg": msg, "inputs": [[n, float(v)] for n, v in inputs], "confirmed": ok is not None, "concrete_msg": ok[0] if ok else "%s %s" % (s, m), "concrete_inputs": [[n, float(v)] for n, _, v in ok[1]] if ok else [], "guess": guess})
    res["fails"] = out
    # the proxies against the real libraries on the same concrete inputs
    okv = 0; bad = None
    for k in range(job["validate"] * 3):
        if okv >= job["validate"]: break
        s, m, ex = sym.concrete(fn, None, random.Random(job["seed"] * 1000 + k))
        if s == "skip": continue
        inp = {n: v for n, _, v in ex.inputs}
        s2, m2, ex2 = sym.pinned(fn, inp)
        if s2 in ("unsupported", "skip"): continue
        if s != s2: bad = "proxies say %s (%s), real libraries %s (%s) on %s" % (s2, m2, s, m, dict(list(inp.items())[:12])); continue
        if s == "fail": okv += 1; continue
        if len(ex.obs) != len(ex2.obs): bad = "different traces"; continue
        d = [(a, b) for a, b in zip(ex.obs, ex2.obs) if a[0] != b[0] or not abs(a[1] - b[1]) <= 1e-6 * (1e-3 + abs(a[1]))]
        if d: bad = "observed %s / %s" % d[0]
        elif ex.obs: okv += 1
    res["validated"] = okv; res["bad"] = bad
    res["lines"] = {k: sorted(v) for k, v in shim.LINES.items()}; res["funcs"] = sorted(shim.FUNCS)
    json.dump(res, open(sys.argv[2], "w"))
main()
