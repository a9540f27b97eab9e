"""BCFModel: prognostic and treatment forests, coding parameters, propensities and predictions stay consistent."""
import numpy as np
import sym
from common import *

def table(D, rows, names=("a", "b", "c")):
    import pandas as pd
    return pd.DataFrame({names[j]: [float(r[j]) for r in rows] for j in range(len(rows[0]))})

def pick(ex, D, name, p, frame):
    """one of the documented ways to say which covariates a forest may split on; returns (keyword arguments, kept original columns)"""
    which = D.get("SUBSET", [0])[ex.choice(name + "_subset", len(D.get("SUBSET", [0])))]
    cols = ["a", "b", "c"][:p]
    if which == 0: return {}, list(range(p))
    if which == 1: return {"keep_vars_" + name: [1]}, [1]
    if which == 2: return {"drop_vars_" + name: [1]}, [j for j in range(p) if j != 1]
    if which == 3: return {"keep_vars_" + name: np.array([1])}, [1]
    if which == 4: return {"drop_vars_" + name: np.array([1])}, [j for j in range(p) if j != 1]
    if which == 5: return {"keep_vars_" + name: [cols[1]]}, [1]
    if which == 6: return {"drop_vars_" + name: [cols[1]]}, [j for j in range(p) if j != 1]
    if which == 7: return {"keep_vars_" + name: np.array([cols[1]])}, [1]
    if which == 8: return {"drop_vars_" + name: np.array([cols[1]])}, [j for j in range(p) if j != 1]
    return {"keep_vars_" + name: [0], "drop_vars_" + name: [0]}, [0] # drop is ignored when keep is given

def run(ex, D):
    import stochtree
    ex.log = []
    n, nt, p = D.get("N", 4), D.get("NTEST", 2), D.get("P", 2); Tm, Tt = 2, 4
    Xv = [[0.5, 1.0, 2.0], [1.5, 0.0, -1.0], [-2.0, 3.0, 0.5], [3.0, 0.25, 1.0]]; X = [r[:p] for r in Xv[:n]]; Xt = [[v + 0.125 for v in r[:p]] for r in Xv[:nt]]
    y = [ex.real("y%d" % i) for i in range(n)]; ex.assume(var(ex, y) >= 0.0625)
    kind = D.get("Z", "bin"); frame = D.get("FRAME", 0)
    if kind == "bin": Z = [[float(v)] for v in (0, 1, 1, 0)[:n]]; Zt = [[1.0], [0.0]][:nt]
    elif kind == "cont": # distinct treatment values
        Z = [[ex.real("z%d" % i, 4 * i - 8, 4 * i - 5)] for i in range(n)]; Zt = [[ex.real("zt%d" % i)] for i in range(nt)]
    else: Z = [[ex.real("z%d_%d" % (i, j), 8 * i + 4 * j - 8, 8 * i + 4 * j - 5) for j in range(2)] for i in range(n)]; Zt = [[ex.real("zt%d_%d" % (i, j)) for j in range(2)] for i in range(nt)]
    k = len(Z[0]); prop = D.get("PROP", ["mu"]); prop = prop[ex.choice("propensity_covariate", len(prop))]
    own = bool(ex.choice("own_propensity", 2)) if D.get("OWN", 2) == 2 else bool(D["OWN"])
    if prop == "none": own = False
    adaptive = bool(ex.choice("adaptive_coding", 2)) if D.get("ADAPT", 2) == 2 else bool(D["ADAPT"])
    code = adaptive and kind == "bin"
    g = ex.choice("num_gfr", D.get("GFR", 1) + 1); b = ex.choice("num_burnin", D.get("BURN", 0) + 1); m = ex.choice("num_mcmc", D.get("MCMC", 2) + 1)
    if g + b + m == 0: raise sym.PathEnd()
    kg = kb = False
    if D.get("KEEP"): kg = bool(ex.choice("keep_gfr", 2)); kb = bool(ex.choice("keep_burnin", 2))
    sg = sm = st = True
    if D.get("VARS"): sg = bool(ex.choice("sample_sigma_global", 2)); sm = bool(ex.choice("sample_sigma_leaf_mu", 2)); st = bool(ex.choice("sample_sigma_leaf_tau", 2))
    test = bool(ex.choice("has_test", 2)) if D.get("TEST", 1) == 2 else bool(D.get("TEST", 1))
    if nt == 0: test = False
    pi = [[ex.real("pi%d" % i, 0, 1)] for i in range(n)]; pit = [[ex.real("pit%d" % i, 0, 1)] for i in range(nt)]
    kw = dict(num_trees_mu=Tm, num_trees_tau=Tt, num_gfr=g, num_burnin=b, num_mcmc=m, keep_gfr=kg, keep_burnin=kb, sample_sigma_global=sg, sample_sigma_leaf_mu=sm, sample_sigma_leaf_tau=st, propensity_covariate=prop, adaptive_coding=adaptive, random_seed=7, cutpoint_grid_size=17,
              min_samples_leaf_mu=1, min_samples_leaf_tau=2, alpha_mu=0.75, beta_mu=1.5, alpha_tau=0.5, beta_tau=2.5, nu=5, q=0.75, a_leaf_mu=2.5, a_leaf_tau=3.5)
    given = {}
    if D.get("PRIORS"):
        for name, v in (("sigma2", 0.5), ("lamb", 0.25), ("sigma_leaf_mu", 0.75), ("sigma_leaf_tau", 0.375), ("b_leaf_mu", 1.25), ("b_leaf_tau", 1.75)):
            if ex.choice("give_" + name, 2): given[name] = v
    kw.update(given); b0, b1 = -0.5, 0.5
    if D.get("B01"): b0, b1 = 0.25, 1.5; kw.update(b_0=b0, b_1=b1)
    kwm, cm = pick(ex, D, "mu", p, frame); kwt, ct = pick(ex, D, "tau", p, frame); kw.update(kwm); kw.update(kwt)
    vw = [1.0 / p] * p
    if D.get("VW"): vw = [0.5, 0.25, 0.125][:p]; kw["variable_weights"] = np.array(vw)
    Xa, Xta = (table(D, X), table(D, Xt) if nt else None) if frame else (arr(ex, X), arr(ex, Xt) if nt else None)
    Za, Zta = arr(ex, Z), arr(ex, Zt) if nt else None
    if own: kw["pi_train"] = arr(ex, pi)
    if test:
        kw.update(X_test=Xta, Z_test=Zta)
        if own: kw["pi_test"] = arr(ex, pit)
    model = stochtree.BCFModel()
    shp1 = D.get("ONED") and k == 1
    model.sample(X_train=Xa, Z_train=Za[:, 0] if shp1 else Za, y_train=arr(ex, y), **kw)
    c = dict(n=n, p=p, k=k, y=y, X=X, Xt=Xt if test else [], Z=Z, Zt=Zt, g=g, b=b, m=m, kg=kg, kb=kb, sg=sg, sm=sm, st=st and k == 1, prop=prop, own=own, pi=pi, pit=pit, code=code, given=given, b0=b0, b1=b1, cm=cm, ct=ct, vw=vw, Tm=Tm, Tt=Tt)
    muh, tauh, yh = check(ex, model, c)
    # ---- predict() on the same data agrees with what was stored
    for X_, Z_, P_, w in ((Xa, Za, pi, "train"), (Xta, Zta, pit, "test")):
        if w == "test" and not test: continue
        r = model.predict(X_, Z_[:, 0] if shp1 else Z_, arr(ex, P_) if own else None)
        ex.must(isinstance(r, tuple) and len(r) == 3, "predict() does not return (tau, mu, yhat)")
        same(ex, r[1], muh[w], "predict(): prognostic effect on the %sing data differs from the fit" % w)
        same(ex, tau_shape(r[0], c), tauh[w], "predict(): treatment effect on the %sing data differs from the fit" % w)
        same(ex, r[2], yh[w], "predict(): outcome on the %sing data differs from the fit" % w)
        t = model.predict_tau(X_, Z_, arr(ex, P_) if own else None)
        same(ex, tau_shape(t, c), tauh[w], "predict_tau() on the %sing data differs from the fit" % w)
    ex.reach("end")

def tau_shape(t, c):
    """treatment effects as rows x samples x treatments, whichever of the two shapes is used for one treatment"""
    t = np.asarray(t)
    return t.reshape(t.shape + (1,)) if c["k"] == 1 and t.ndim == 2 else t

def check(ex, model, c):
    from scipy.stats import gamma
    from h_bart import retained
    n, p, k, y, Z = c["n"], c["p"], c["k"], c["y"], c["Z"]; given = c["given"]
    mu = mean(ex, y); s = sq(ex, var(ex, y)); z = [(v - mu) / s for v in y]
    ex.eq(model.y_bar, mu, "y_bar is not the mean of the outcome"); ex.eq(model.y_std, s, "y_std is not the standard deviation of the outcome")
    base = rss(ex, c["X"], z) / n
    sigma2 = given.get("sigma2", base); lamb = given.get("lamb", base * gamma.ppf(1 - 0.75, 5) / 5)
    one = num(ex, 1); leafm = given.get("sigma_leaf_mu", one / c["Tm"]); leaft = given.get("sigma_leaf_tau", one / (2 * c["Tt"])); bm = given.get("b_leaf_mu", one / c["Tm"]); bt = given.get("b_leaf_tau", one / (2 * c["Tt"]))
    # ---- covariates and split weights
    def weights(keep, use):
        w = [c["vw"][j] if j in keep else 0 for j in range(p)] + ([1.0 / p if use else 0] if c["prop"] != "none" else [])
        return [num(ex, v) / num(ex, sum(w)) for v in w]
    wm, wt = weights(c["cm"], c["prop"] in ("mu", "both")), weights(c["ct"], c["prop"] in ("tau", "both"))
    P = Pt = None
    if c["prop"] == "none": pass
    elif c["own"]: P, Pt = [r[0] for r in c["pi"]], [r[0] for r in c["pit"]]
    else:
        bp = model.bart_propensity_model; h = np.asarray(bp.y_hat_train); P = [mean(ex, list(h[i])) for i in range(n)]
        if len(c["Xt"]): h = np.asarray(bp.y_hat_test); Pt = [mean(ex, list(h[i])) for i in range(len(c["Xt"]))]
        # the propensity model is fitted to the treatment
        zs = [r[0] for r in Z]; zm = mean(ex, zs); zd = sq(ex, var(ex, zs)); pc = bp.forest_container.forest_container_cpp
        first = next(e[1] for e in ex.log if e[0] == "forest" and e[1]["container"] is pc)
        for i in range(n):
            ex.eq(first["residual"][i], (zs[i] - zm) / zd, "the propensity model is fitted to something other than the treatment")
            for j in range(p): ex.eq(first["dataset"].X[i, j], c["X"][i][j], "the propensity model is given other covariates")
    cm_, ct_ = model.forest_container_mu.forest_container_cpp, model.forest_container_tau.forest_container_cpp
    ex.must(cm_.trees == c["Tm"] and cm_.const and cm_.dim == 1 and ct_.trees == c["Tt"] and ct_.dim == k and not ct_.const, "forest containers have the wrong shape")
    b0, b1 = num(ex, c["b0"]), num(ex, c["b1"])
    def basis(i): return [(1 - Z[i][0]) * b0 + Z[i][0] * b1] if c["code"] else Z[i]
    total = c["g"] + c["b"] + c["m"]; ev = [e for e in ex.log if (e[0] == "forest" and e[1]["container"] in (cm_, ct_)) or e[0] in ("gvar", "lvar", "normal")]
    skip = 0 if c["own"] or c["prop"] == "none" else 1; order = ex.log if not skip else ex.log
    # events of the propensity model come first and are not part of this history
    start = next(i for i, e in enumerate(order) if e[0] == "forest" and e[1]["container"] in (cm_, ct_)); ev = [e for e in order[start:] if e[0] in ("forest", "gvar", "lvar", "normal")]
    nm = nt = 0; dg, dm, dt, d0, d1 = [], [], [], [], []; due_g = due_l = due_b = False; F = [num(ex, 0)] * n; G = [[num(ex, 0)] * k for _ in range(n)]; turn = "mu"; last = None; pend = []
    if cm_.root is not None: F = [cm_.trees * cm_.root[0]] * n
    if ct_.root is not None: G = [[ct_.trees * v for v in ct_.root] for _ in range(n)]
    def fit(i): return F[i] + sum((u * v for u, v in zip(basis(i), G[i])), num(ex, 0))
    for e in ev:
        if e[0] == "forest":
            f = e[1]; ex.must(not due_g and not due_l and not due_b, "a forest is sampled before the parameters of the previous step")
            which = "mu" if f["container"] is cm_ else "tau" if f["container"] is ct_ else "?"
            ex.must(which == turn, "the %s forest is sampled where the %s forest is due" % (which, turn)); it = nm if which == "mu" else nt
            ex.must(f["index"] == it and it < total, "forests are not stored one after another in the model's containers")
            ex.must(f["gfr"] == (it < c["g"]), "the %s forest of iteration %d does not use the right algorithm" % (which, it))
            ex.must(f["model"] == (0 if which == "mu" else 1 if k == 1 else 2), "the %s forest is sampled with the wrong leaf model" % which); ex.must(f["grid"] == 17, "cutpoint_grid_size is not passed on")
            ds = f["dataset"]; ex.must(ds.X.shape[1] == p + (c["prop"] != "none"), "wrong number of covariates")
            for i in range(n):
                for j in range(p): ex.eq(ds.X[i, j], c["X"][i][j], "the sampler is given other covariates")
                if P is not None: ex.eq(ds.X[i, p], P[i], "the propensity covariate is not the propensity score")
                if which == "tau":
                    for j in range(k): ex.eq(f["basis"][i, j], basis(i)[j], "the treatment forest's basis is not the current coding of the treatment")
            ex.must(f["types"] == [0] * ds.X.shape[1] and f["sampler"].types == f["types"], "feature types of the covariates")
            for w, want in zip(f["weights"], wm if which == "mu" else wt): ex.eq(w, want, "the %s forest is sampled with the wrong variable weights" % which)
            for i in range(n): ex.eq(f["residual"][i], z[i] - fit(i), "the %s forest is sampled from a residual other than standardized outcome minus current fit" % which)
            ex.eq(f["sigma2"], sigma2, "the %s forest is sampled with an error variance other than the current one" % which)
            L = leafm if which == "mu" else leaft
            for i in range(len(f["scale"])):
                for j in range(len(f["scale"])): ex.eq(f["scale"][i][j], L if i == j else 0, "the %s forest is sampled with a leaf scale other than the current one" % which)
            if it == 0:
                sm = f["sampler"]; ex.must(sm.trees == (c["Tm"] if which == "mu" else c["Tt"]) and sm.n == n and sm.min_leaf == (1 if which == "mu" else 2), "settings of the %s sampler differ from those given" % which)
                ex.eq(sm.alpha, 0.75 if which == "mu" else 0.5, "alpha of the %s forest" % which); ex.eq(sm.beta, 1.5 if which == "mu" else 2.5, "beta of the %s forest" % which)
            if which == "mu": nm += 1; F = [cm_.value(ds, it, i) for i in range(n)]; turn = "tau"
            else: nt += 1; G = [ct_.F(it, ds.X[i]) for i in range(n)]; turn = "mu"; due_b = c["code"]
            due_g = c["sg"]; due_l = c["sm"] if which == "mu" else c["st"]; last = which
        elif e[0] == "gvar":
            ex.must(due_g, "an error variance draw that was not asked for"); due_g = False
            for i in range(n): ex.eq(e[1][i], z[i] - fit(i), "the error variance is drawn from a residual other than outcome minus fit")
            ex.eq(e[2], 5, "nu is not passed on"); ex.eq(e[3], lamb, "the scale of the error variance prior is not the documented one"); sigma2 = e[4]
            if last == "tau": dg.append(e[4])
        elif e[0] == "lvar":
            ex.must(due_l, "a leaf scale draw that was not asked for"); due_l = False
            ex.must(e[1] is (cm_ if last == "mu" else ct_) and e[4] == (nm if last == "mu" else nt) - 1, "the leaf scale is drawn from another forest than the current one")
            ex.eq(e[2], 2.5 if last == "mu" else 3.5, "the shape of the leaf scale prior"); ex.eq(e[3], bm if last == "mu" else bt, "the scale of the leaf variance prior is not the documented one")
            if last == "mu": leafm = e[5]; dm.append(e[5])
            else: leaft = e[5]; dt.append(e[5])
        else:
            ex.must(due_b and last == "tau", "coding parameters are drawn where they should not be"); pend.append(e)
            if len(pend) == 2:
                out = []
                for a in (0, 1):
                    tt = sum((G[i][0] * G[i][0] for i in range(n) if Z[i][0] == a), num(ex, 0)); ty = sum((G[i][0] * (z[i] - F[i]) for i in range(n) if Z[i][0] == a), num(ex, 0)); d = tt + 2 * sigma2
                    ex.eq(pend[a][1], ty / d, "b_%d is not drawn from its conditional posterior (mean)" % a); ex.eq(pend[a][2] * pend[a][2], sigma2 / d, "b_%d is not drawn from its conditional posterior (variance)" % a); out.append(pend[a][3])
                b0, b1 = out; d0.append(b0); d1.append(b1); pend = []; due_b = False
    ex.must(nm == total and nt == total and not (due_g or due_l or due_b), "%d/%d forests are sampled instead of %d" % (nm, nt, total))
    A = lambda l: np.array(list(l) + [None], dtype=object)[:-1]
    if c["sg"]: same(ex, model.global_var_samples, A(d * s * s for d in dg), "stored error variances are not the draws on the outcome scale")
    if c["sm"]: same(ex, model.leaf_scale_mu_samples, A(dm), "stored prognostic leaf scales are not the draws")
    if c["st"]: same(ex, model.leaf_scale_tau_samples, A(dt), "stored treatment leaf scales are not the draws")
    if c["code"]: same(ex, model.b0_samples, A(d0), "stored b_0 are not the draws"); same(ex, model.b1_samples, A(d1), "stored b_1 are not the draws")
    # ---- retained samples and predictions: mean + std * (mu(x) + basis(z) tau(x)), split into prognostic and treatment part
    keep = retained(c); got = [int(v) for v in model.keep_indices]
    if c["kg"] and c["kb"] and c["g"] == 0 and got == retained(dict(c, kg=False)): keep = got
    ex.must(got == keep, "retained samples %s instead of %s" % (got, keep)); S = len(keep)
    muh, tauh, yh = {}, {}, {}
    for w, X, ZZ, PP in (("train", c["X"], Z, P), ("test", c["Xt"], c["Zt"], Pt)):
        if not len(X): continue
        r = len(X); M = np.empty((r, S), dtype=object); Tn = np.empty((r, S, k), dtype=object); Y = np.empty((r, S), dtype=object)
        for i in range(r):
            x = [num(ex, v) for v in X[i]] + ([PP[i]] if PP is not None else [])
            for q_, it in enumerate(keep):
                f = cm_.F(it, x)[0]; t = ct_.F(it, x)
                if c["code"]: M[i, q_] = mu + s * (f + d0[it] * t[0]); Tn[i, q_, 0] = s * (d1[it] - d0[it]) * t[0]
                else:
                    M[i, q_] = mu + s * f
                    for j in range(k): Tn[i, q_, j] = s * t[j]
                Y[i, q_] = M[i, q_] + sum((ZZ[i][j] * Tn[i, q_, j] for j in range(k)), num(ex, 0))
        muh[w], tauh[w], yh[w] = M, Tn, Y
        same(ex, getattr(model, "y_hat_" + w), Y, "y_hat_%s is not mean plus standard deviation times the fit of the sampler" % w)
        same(ex, getattr(model, "mu_hat_" + w), M, "mu_hat_%s is not the fit without treatment" % w)
        same(ex, tau_shape(getattr(model, "tau_hat_" + w), c), Tn, "tau_hat_%s is not the effect of the treatment on the fit" % w)
    for v in floats(model.y_hat_train): ex.observe("yhat", v)
    for v in floats(model.mu_hat_train): ex.observe("mu", v)
    return muh, tauh, yh
