"""Model of the compiled extension stochtree_cpp: what the C++ layer does when it is correct (that is the subject of the
other properties).  Every forest is an uninterpreted function of the covariates it may split on; every call is recorded."""
import numpy as np
import sym
from sym import Sym, lift, sym_key

def S(): return sym.CUR.concrete is None
def scalar(x, what):
    if isinstance(x, np.ndarray):
        if x.size != 1: raise TypeError("%s: an array of %d elements where a number is needed" % (what, x.size))
        x = x.reshape(-1)[0]
    if isinstance(x, np.ndarray): return scalar(x, what)
    if isinstance(x, (list, tuple, str, dict)) or x is None: raise TypeError("%s: not a number: %r" % (what, x))
    return lift(x) if S() else float(x)
def integer(x, what):
    if isinstance(x, (bool, np.bool_, int, np.integer)): return int(x)
    raise TypeError("%s: not an integer: %r" % (what, x))
def memory(a, what):
    """the elements of a as they lie in memory, which is what the binding reads"""
    a = np.asarray(a)
    if a.flags.c_contiguous: return a.reshape(-1)
    if a.flags.f_contiguous: return a.T.reshape(-1)
    raise TypeError("%s: a non-contiguous array is read as if it were contiguous" % what)
def matrix(a, n, p, row_major, what):
    m = memory(a, what); n = integer(n, what); p = integer(p, what)
    if len(m) < n * p: sym.CUR.fail("%s: the binding reads %d elements of an array of %d" % (what, n * p, len(m)))
    out = np.empty((n, p), dtype=object)
    for i in range(n):
        for j in range(p): out[i, j] = lift(m[i * p + j if row_major else j * n + i]) if S() else float(m[i * p + j if row_major else j * n + i])
    return out

class ForestDatasetCpp:
    def __init__(self): self.X = self.B = self.W = None; sym.CUR.log.append(("dataset", self))
    def AddCovariates(self, a, n, p, rm): self.X = matrix(a, n, p, rm, "AddCovariates")
    def AddBasis(self, a, n, p, rm): self.B = matrix(a, n, p, rm, "AddBasis")
    def UpdateBasis(self, a, n, p, rm):
        B = matrix(a, n, p, rm, "UpdateBasis")
        if self.B is None or B.shape[0] != self.B.shape[0]: raise RuntimeError("basis update with a different number of rows")
        self.B = B; sym.CUR.log.append(("basis", self, B))
    def AddVarianceWeights(self, a, n): self.W = matrix(a, n, 1, True, "AddVarianceWeights")
    def NumRows(self): return self.X.shape[0]

class ResidualCpp:
    def __init__(self, a, n): self.r = list(matrix(a, n, 1, True, "Residual")[:, 0]); sym.CUR.log.append(("residual", self, list(self.r)))

class RngCpp:
    def __init__(self, seed): self.seed = integer(seed, "seed")

class ForestContainerCpp:
    def __init__(self, trees, dim, const):
        self.trees = integer(trees, "num_trees"); self.dim = integer(dim, "output dimension"); self.const = bool(const); self.samples = 0; self.root = None; self.weights = []; self.id = len([e for e in sym.CUR.log if e[0] == "container"]); sym.CUR.log.append(("container", self)); self.memo = {}; self.rows = {}
    def _init(self, v):
        if self.root is not None or self.samples: raise RuntimeError("InitializeRoot on a container that already holds forests")
        self.root = v
    def SetRootValue(self, num, v):
        v = scalar(v, "leaf value")
        if self.dim != 1: raise RuntimeError("SetRootValue on a container of vector leaves")
        self._init([v])
    def SetRootVector(self, num, v, size):
        v = np.asarray(v).reshape(-1)
        if size != self.dim or len(v) < size: raise RuntimeError("SetRootVector with %d values for a container of dimension %d" % (size, self.dim))
        self._init([scalar(x, "leaf value") for x in v[:size]])
    def F(self, s, x):
        """value of stored forest s at covariate row x: one number per output dimension"""
        if s == -1: return [self.trees * v for v in self.root]
        if not 0 <= s < self.samples: sym.CUR.fail("forest %d of %d is asked for" % (s, self.samples))
        w = self.weights[s]
        if any(w[len(x):]): sym.CUR.fail("prediction from %d covariates where the forest may split on covariate %d" % (len(x), len(w)))
        key = tuple(sym_key(x[j]) if ok else None for j, ok in enumerate(w)); rid = self.rows.setdefault((s, key), len([k for k in self.rows if k[0] == s]))
        if (s, rid) not in self.memo: self.memo[(s, rid)] = [sym.CUR.real("F%d_%d_row%d_%d" % (self.id, s, rid, d), -4, 4) for d in range(self.dim)]
        return self.memo[(s, rid)]
    def value(self, ds, s, i, basis=None):
        f = self.F(s, ds.X[i])
        if self.const if basis is None else not basis: return f[0] if self.dim == 1 else 0
        if ds.B is None: raise RuntimeError("prediction from a leaf regression without a basis")
        if ds.B.shape[1] != self.dim: sym.CUR.fail("basis of dimension %d for leaves of dimension %d" % (ds.B.shape[1], self.dim))
        return sum(ds.B[i, d] * f[d] for d in range(self.dim))
    def NumSamples(self): return self.samples
    def OutputDimension(self): return self.dim
    def Predict(self, ds):
        n = ds.NumRows(); out = np.empty((n, self.samples), dtype=object if S() else float)
        for i in range(n):
            for s in range(self.samples): out[i, s] = self.value(ds, s, i)
        return out
    def PredictRaw(self, ds):
        n = ds.NumRows(); out = np.empty((n, self.samples, self.dim), dtype=object if S() else float)
        for i in range(n):
            for s in range(self.samples):
                for d in range(self.dim): out[i, s, d] = self.F(s, ds.X[i])[d]
        return out
    def PredictRawSingleForest(self, ds, s):
        s = integer(s, "forest"); n = ds.NumRows(); out = np.empty((n, self.dim), dtype=object if S() else float)
        for i in range(n):
            for d in range(self.dim): out[i, d] = self.F(s, ds.X[i])[d]
        return out
    def UpdateResidual(self, ds, resid, sampler, requires_basis, forest_num, add):
        k = integer(forest_num, "forest_num"); cur = self.samples - 1 if self.samples else -1
        if k != max(cur, 0): sym.CUR.fail("residual update from forest %d while forest %d is current" % (k, max(cur, 0)))
        for i in range(ds.NumRows()):
            v = self.value(ds, cur, i, bool(requires_basis)); sampler.pred[i] = v; resid.r[i] = resid.r[i] + v if add else resid.r[i] - v
        sym.CUR.log.append(("update_residual", self, bool(add)))

class ForestSamplerCpp:
    def __init__(self, ds, feature_types, trees, n, alpha, beta, min_leaf):
        self.types = [integer(t, "feature type") for t in np.asarray(feature_types).reshape(-1)]; self.trees = integer(trees, "num_trees"); self.n = integer(n, "num_obs"); self.alpha = scalar(alpha, "alpha"); self.beta = scalar(beta, "beta"); self.min_leaf = integer(min_leaf, "min_samples_leaf"); self.ds = ds; self.pred = [0] * self.n; sym.CUR.log.append(("sampler", self))
    def SampleOneIteration(self, c, ds, resid, rng, feature_types, grid, scale, weights, sigma2, model, gfr=True, pre=False):
        ex = sym.CUR; ft = [integer(t, "feature type") for t in np.asarray(feature_types).reshape(-1)]; scale = np.asarray(scale); model = integer(model, "leaf model"); sigma2 = scalar(sigma2, "global_variance")
        if scale.ndim != 2: raise IndexError("leaf_model_scale_input must have two dimensions")
        sc = [[scalar(scale[i, j], "leaf scale") for j in range(scale.shape[1])] for i in range(scale.shape[0])]
        w = [scalar(v, "variable weight") for v in np.asarray(weights).reshape(-1)]; p = ds.X.shape[1]
        if len(w) != p or len(ft) != p or len(self.types) != p: ex.fail("%d weights and %d/%d feature types for %d covariates" % (len(w), len(ft), len(self.types), p))
        if c.trees != self.trees: ex.fail("sampler of %d trees on a container of %d" % (self.trees, c.trees))
        if (model == 0) != c.const or (model == 1 and c.dim != 1): ex.fail("leaf model %d on a container of dimension %d (constant leaves: %s)" % (model, c.dim, c.const))
        if model == 2 and (len(sc) != c.dim or len(sc[0]) != c.dim): ex.fail("leaf scale of %dx%d for %d coefficients" % (len(sc), len(sc[0]), c.dim))
        if c.root is None and c.samples == 0: ex.fail("the first forest is sampled from a container that was not initialised") if pre else c._init([0] * c.dim)
        ex.log.append(("forest", dict(sampler=self, container=c, dataset=ds, residual=list(resid.r), basis=None if ds.B is None else ds.B.copy(), index=c.samples, types=ft, grid=integer(grid, "cutpoint_grid_size"), scale=sc, weights=w, sigma2=sigma2, model=model, gfr=bool(gfr))))
        c.weights.append([bool(v != 0) for v in w]); c.samples += 1
        for i in range(ds.NumRows()):
            v = c.value(ds, c.samples - 1, i); resid.r[i] = resid.r[i] + self.pred[i] - v; self.pred[i] = v

class GlobalVarianceModelCpp:
    def SampleOneIteration(self, resid, rng, nu, lamb):
        ex = sym.CUR; nu = scalar(nu, "nu"); lamb = scalar(lamb, "lamb"); v = ex.real("sigma2", 0.0625, 8); ex.log.append(("gvar", list(resid.r), nu, lamb, v)); return v
class LeafVarianceModelCpp:
    def SampleOneIteration(self, c, rng, a, b, k):
        ex = sym.CUR; a = scalar(a, "a"); b = scalar(b, "b"); k = integer(k, "sample_num")
        if not 0 <= k < max(c.samples, 1): ex.fail("leaf variance from forest %d of %d" % (k, c.samples))
        v = ex.real("leafvar", 0.0625, 8); ex.log.append(("lvar", c, a, b, k, v)); return v

class JsonCpp:
    pass
