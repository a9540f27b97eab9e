"""BARTModel: the wrapper around the sampler keeps the model consistent with the data it was given."""
import numpy as np
import sym
from common import *

def run(ex, D):
    import stochtree
    ex.log = []
    n, nt = D.get("N", 4), D.get("NTEST", 2); T = 2
    # ---- inputs
    Xv = [[0.5, 1.0], [1.5, 0.0], [-2.0, 1.0], [3.0, 0.25], [0.25, -1.0], [1.0, 2.0]]; p = D.get("P", 1)
    if D.get("SYMX"):
        X = [[ex.real("x%d" % i)] for i in range(n)]; p = 1
        for i in range(n):
            for j in range(i): d = X[i][0] - X[j][0]; ex.assume(d * d >= 0.25)
        Xt = [[ex.real("xt%d" % i)] for i in range(nt)]
        for i in range(nt):
            for j in range(n): d = Xt[i][0] - X[j][0]; ex.assume(d * d >= 0.25)
    else: X = [r[:p] for r in Xv[:n]]; Xt = [[v + 0.125 for v in r[:p]] for r in Xv[:nt]]
    y = [ex.real("y%d" % i) for i in range(n)]
    nb = D.get("BASIS", 0)
    B = [[ex.real("b%d_%d" % (i, j), -2, 2) for j in range(nb)] for i in range(n)]; Bt = [[ex.real("bt%d_%d" % (i, j), -2, 2) for j in range(nb)] for i in range(nt)]
    v = var(ex, y); ex.assume(v >= 0.0625)
    opts = D.get("OPTS", "")
    g = ex.choice("num_gfr", D.get("GFR", 1) + 1); b = ex.choice("num_burnin", D.get("BURN", 1) + 1); m = ex.choice("num_mcmc", D.get("MCMC", 2) + 1)
    kg = bool(ex.choice("keep_gfr", 2)); kb = bool(ex.choice("keep_burnin", 2))
    sg = bool(ex.choice("sample_sigma_global", 2)) if "v" in opts else True
    sl = (bool(ex.choice("sample_sigma_leaf", 2)) if "v" in opts else True)
    test = bool(ex.choice("has_test", 2)) if "t" in opts else nt > 0
    if g + b + m == 0: raise sym.PathEnd()
    kw = dict(num_trees=T, num_gfr=g, num_burnin=b, num_mcmc=m, keep_gfr=kg, keep_burnin=kb, sample_sigma_global=sg, sample_sigma_leaf=sl, random_seed=7, cutpoint_grid_size=17, min_samples_leaf=1, alpha=0.75, beta=1.5)
    given = {}
    if "p" in opts:
        for name in ("sigma2", "lamb", "sigma_leaf", "b_leaf"):
            if ex.choice("give_" + name, 2): given[name] = ex.real(name, 0.0625, 4)
        kw.update(nu=5, q=0.75, a_leaf=2.5)
    kw.update(given); nu = kw.get("nu", 3); q = kw.get("q", 0.9); a_leaf = kw.get("a_leaf", 3)
    Xa, Xta = arr(ex, X), arr(ex, Xt); types = [0] * p
    if D.get("FRAME"): # numeric, unordered (one-hot: collinear with the intercept) and ordered column
        import pandas as pd
        def frame(num_, u, o): return pd.DataFrame({"num": num_, "cat": pd.Categorical([["r", "s"][v] for v in u], categories=["r", "s"]), "ord": pd.Categorical([["lo", "mid", "hi"][v] for v in o], categories=["lo", "mid", "hi"], ordered=True)})
        def enc(num_, u, o): return [[a, 1.0 - b, float(b), float(c)] for a, b, c in zip(num_, u, o)]
        u = [0, 1, 1, 0, 1, 0]; o = [2, 0, 1, 1, 2, 0]; tr = ([r[0] for r in Xv[:n]], u[:n], o[:n]); te = ([v[0] + 0.125 for v in Xv[:nt]], [1, 0, 0][:nt], [0, 2, 1][:nt])
        Xa, Xta, X, Xt = frame(*tr), frame(*te), enc(*tr), enc(*te); p = 4; types = [0, 1, 1, 1]
    shp1 = p == 1 and "1" in opts
    model = stochtree.BARTModel()
    if nb:
        kw["basis_train"] = arr(ex, [r[0] for r in B]) if nb == 1 and shp1 else arr(ex, B)
        if test: kw["basis_test"] = arr(ex, Bt)
    if test: kw["X_test"] = Xta
    model.sample(X_train=Xa[:, 0] if shp1 else Xa, y_train=arr(ex, y) if not shp1 else arr(ex, [[e] for e in y]), **kw)
    check(ex, model, dict(n=n, p=p, y=y, X=X, Xt=Xt if test else [], B=B, Bt=Bt, nb=nb, T=T, g=g, b=b, m=m, kg=kg, kb=kb, sg=sg, sl=sl and nb <= 1, nu=nu, q=q, a_leaf=a_leaf, given=given, types=types))
    # ---- predict() on the training covariates agrees with what was stored
    pr = model.predict(Xa, arr(ex, B) if nb else None)
    same(ex, pr, model.y_hat_train, "predict() on the training data differs from the stored training predictions")
    if test:
        pr = model.predict(Xta, arr(ex, Bt) if nb else None)
        same(ex, pr, model.y_hat_test, "predict() on the test data differs from the stored test predictions")
    ex.reach("end")

def check(ex, model, c, log=None):
    from scipy.stats import gamma
    log = ex.log if log is None else log; n, y = c["n"], c["y"]
    mu = mean(ex, y); s = sq(ex, var(ex, y)); z = [(v - mu) / s for v in y]; T = c["T"]
    ex.eq(model.y_bar, mu, "y_bar is not the mean of the outcome"); ex.eq(model.y_std, s, "y_std is not the standard deviation of the outcome")
    given = c["given"]
    if "sigma2" in given: sigma2 = given["sigma2"]
    else: sigma2 = rss(ex, c["X"], z) / n
    if "lamb" in given: lamb = given["lamb"]
    else: lamb = rss(ex, c["X"], z) / n * gamma.ppf(1 - c["q"], c["nu"]) / c["nu"]
    b_leaf = given.get("b_leaf", num(ex, 1) / T); leaf = given.get("sigma_leaf", num(ex, 1) / T)
    total = c["g"] + c["b"] + c["m"]; ev = [e for e in log if e[0] in ("forest", "gvar", "lvar")]
    nf = 0; container = None; have_g = have_l = True; draws_g, draws_l = [], []; pred = None
    for e in ev:
        if e[0] == "forest":
            f = e[1]; ex.must(have_g and have_l, "a forest is sampled before the variances of the previous iteration")
            if container is None: container = f["container"]; ex.must(container.trees == T and container.dim == max(1, c["nb"]) and container.const == (c["nb"] == 0), "forest container has the wrong shape")
            ex.must(f["container"] is container and f["index"] == nf, "forests are not stored one after another in the model's container")
            ex.must(f["gfr"] == (nf < c["g"]), "iteration %d of %d+%d+%d does not use the right algorithm" % (nf, c["g"], c["b"], c["m"]))
            ex.must(f["model"] == min(c["nb"], 2), "leaf model does not match the basis"); ex.must(f["grid"] == 17, "cutpoint_grid_size is not passed on")
            ds = f["dataset"]
            for i in range(n):
                for j in range(c["p"]): ex.eq(ds.X[i, j], c["X"][i][j], "the sampler is given other covariates")
                for j in range(c["nb"]): ex.eq(f["basis"][i, j], c["B"][i][j], "the sampler is given another basis")
            ex.must(ds.X.shape[1] == c["p"] and f["types"] == c["types"] and f["sampler"].types == c["types"], "covariates or feature types differ from the encoded table")
            for w in f["weights"]: ex.eq(w, num(ex, 1) / c["p"], "variable weights are not uniform")
            for i in range(n):
                want = z[i] - (pred[i] if pred else 0)
                ex.eq(f["residual"][i], want, "the sampler starts from a residual other than standardized outcome minus current fit")
            ex.eq(f["sigma2"], sigma2, "the forest is sampled with an error variance other than the current one")
            for i in range(max(1, c["nb"])):
                for j in range(max(1, c["nb"])):
                    ex.eq(f["scale"][i][j], leaf if i == j else 0, "the forest is sampled with a leaf scale other than the current one")
            if nf == 0: sm = f["sampler"]; ex.must(sm.trees == T and sm.n == n and sm.min_leaf == 1, "sampler settings differ from those given"); ex.eq(sm.alpha, 0.75, "alpha is not passed on"); ex.eq(sm.beta, 1.5, "beta is not passed on")
            pred = [container.value(ds, nf, i) for i in range(n)]; nf += 1; have_g, have_l = not c["sg"], not c["sl"]
        elif e[0] == "gvar":
            ex.must(c["sg"] and not have_g, "an error variance draw that was not asked for"); have_g = True
            for i in range(n): ex.eq(e[1][i], z[i] - pred[i], "the error variance is drawn from a residual other than outcome minus fit")
            ex.eq(e[2], c["nu"], "nu is not passed on"); ex.eq(e[3], lamb, "the scale of the error variance prior is not the documented one"); sigma2 = e[4]; draws_g.append(e[4])
        else:
            ex.must(c["sl"] and not have_l, "a leaf scale draw that was not asked for"); have_l = True
            ex.must(e[1] is container and e[4] == nf - 1, "the leaf scale is drawn from another forest than the current one")
            ex.eq(e[2], c["a_leaf"], "a_leaf is not passed on"); ex.eq(e[3], b_leaf, "the scale of the leaf variance prior is not the documented one"); leaf = e[5]; draws_l.append(e[5])
    ex.must(have_g and have_l and nf == total, "%d forests are sampled instead of %d" % (nf, total))
    if c["sg"]: same(ex, model.global_var_samples, np.array([d * s * s for d in draws_g] + [None])[:-1], "stored error variances are not the draws on the outcome scale")
    if c["sl"]: same(ex, model.leaf_scale_samples, np.array(draws_l + [None])[:-1], "stored leaf scales are not the draws")
    # ---- retained samples
    keep = retained(c); got = [int(k) for k in model.keep_indices]
    if c["kg"] and c["kb"] and c["g"] == 0 and got == retained(dict(c, kg=False)): keep = got # nothing says which flag wins when there is no warm start
    ex.must(got == keep, "retained samples %s instead of %s" % (list(model.keep_indices), keep))
    def yhat(ds): return np.array([[mu + s * container.value(ds, k, i) for k in keep] + [None] for i in range(ds.NumRows())], dtype=object)[:, :-1]
    class Rows: pass
    for name, X, B in (("y_hat_train", c["X"], c["B"]), ("y_hat_test", c["Xt"], c["Bt"])):
        if not len(X): continue
        d = Rows(); d.X = np.array(arr(ex, X)); d.B = np.array(arr(ex, B)) if c["nb"] else None; d.NumRows = lambda: len(X)
        same(ex, getattr(model, name), yhat(d), name + " is not mean plus standard deviation times the forest's prediction")
    for d in draws_g + draws_l: ex.observe("draw", d)
    for v in floats(model.y_hat_train): ex.observe("yhat", v)
    ex.observe("std", floats(model.y_std)[0])

def retained(c):
    g, b, m = c["g"], c["b"], c["m"]
    if m > 0:
        k = list(range(g + b, g + b + m))
        if c["kg"]: return list(range(g)) + k
        return (list(range(g, g + b)) if c["kb"] else []) + k
    return list(range(g)) if g > 0 else list(range(b))
