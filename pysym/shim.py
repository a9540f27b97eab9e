"""Loads the Python package of /repo with proxies in place of numpy's array constructors, isinstance, lstsq, the random
generator and the compiled extension.  With concrete inputs every proxy passes through to the real library."""
import os, sys, types, builtins
import numpy as np
from fractions import Fraction
import sym
from sym import Sym, SymBool, lift, pconst

def symbolic(): return sym.CUR is not None and sym.CUR.concrete is None

class OA(np.ndarray):
    """object array standing for a float64 array"""
    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.size == 1 and self.dtype == object: v = v.reshape(-1)[0] if np.ndim(self[k]) == 0 else v
        np.ndarray.__setitem__(self, k, v)
    def astype(self, t, *a, **k):
        if self.dtype == object and t in (float, np.float64, "float", "float64", "double", object): return self.copy()
        return np.ndarray.astype(self, t, *a, **k)

def oa(x):
    """float arrays become arrays of exact rationals"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return np.asarray(x) if x.dtype == object or x.dtype.kind != "f" else np.array(lift(x), dtype=object)
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape): r[i] = lift(x[i]) if np.isfinite(x[i]) else x[i]
        if x.flags.f_contiguous and not x.flags.c_contiguous: r = np.asfortranarray(r)
        return r.view(OA)
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, OA): return x.view(OA)
    return x

def has_sym(x):
    if isinstance(x, Sym): return True
    if isinstance(x, np.ndarray): return x.dtype == object and any(isinstance(e, Sym) for e in x.reshape(-1))
    if isinstance(x, (list, tuple)): return any(has_sym(e) for e in x)
    return False

def wrap(f):
    def g(*a, **k):
        if not symbolic(): return f(*a, **k)
        if "dtype" in k and k["dtype"] in (float, np.float64, np.float32, "float", "float64", "double"):
            k = dict(k); k.pop("dtype")
            if f in (np.array, np.asarray, np.ascontiguousarray, np.asfortranarray) and not has_sym(a[0]): return oa(f(np.asarray(a[0], dtype=float)))
        if len(a) > 1 and f in (np.asarray, np.array, np.ascontiguousarray) and a[1] in (float, np.float64): a = a[:1]
        if f is np.squeeze and isinstance(a[0], Sym): return a[0]
        return oa(f(*a, **k))
    g.__name__ = getattr(f, "__name__", "f"); return g

def elementwise(f, g):
    def h(x, *a, **k):
        if not symbolic() or not has_sym(x): return f(x, *a, **k)
        if isinstance(x, Sym): return g(x)
        r = np.empty(np.shape(x), dtype=object); x = np.asarray(x)
        for i in np.ndindex(x.shape): r[i] = g(lift(x[i]))
        return r if r.dtype != object or any(isinstance(e, Sym) for e in r.reshape(-1)) else np.array(r.tolist())
    return h

class MockGenerator:
    def __init__(self, seed=None): pass
    def normal(self, loc=0.0, scale=1.0, size=None):
        ex = sym.CUR; r = []
        def one(l, s): v = ex.real("normal", -3, 3); ex.log.append(("normal", l, s, v)); return v
        def sc(x): return x.reshape(-1)[0] if isinstance(x, np.ndarray) and x.size == 1 else x
        if size is None:
            if np.ndim(loc) or np.ndim(scale): size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
            else: return one(loc, scale)
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        out = np.empty(shape, dtype=object if symbolic() else float); L = np.broadcast_to(np.asarray(loc, dtype=out.dtype), shape); S = np.broadcast_to(np.asarray(scale, dtype=out.dtype), shape)
        for i in np.ndindex(shape): out[i] = one(L[i], S[i])
        return oa(out) if symbolic() else out
    def standard_normal(self, size=None): return self.normal(0.0, 1.0, size)

def exact_solve(A, b):
    """least squares by exact elimination on the normal equations; returns (coef, rank)"""
    m, p = A.shape; N = [[sum((lift(A[k, i]) * lift(A[k, j]) for k in range(m)), lift(0)) for j in range(p)] + [sum((lift(A[k, i]) * lift(b[k]) for k in range(m)), lift(0))] for i in range(p)]
    piv = []; r = 0
    for c in range(p):
        k = next((i for i in range(r, p) if bool(N[i][c] != 0)), None)
        if k is None: continue
        N[r], N[k] = N[k], N[r]; q = N[r][c]; N[r] = [x / q for x in N[r]]
        for i in range(p):
            if i != r and N[i][c].n: f = N[i][c]; N[i] = [x - f * y for x, y in zip(N[i], N[r])]
        piv.append(c); r += 1
    coef = [lift(0)] * p
    for i, c in enumerate(piv): coef[c] = N[i][p]
    return coef, r

def lstsq(a, b, *args, **k):
    import scipy.linalg
    if not symbolic(): return REAL_LSTSQ(a, b, *args, **k)
    A = np.asarray(a); B = np.asarray(b); m, p = A.shape
    if B.ndim == 0: raise ValueError("incompatible dimensions")
    cols = [B] if B.ndim == 1 else [B[:, j] for j in range(B.shape[1])]; sol = []; rss = []
    for c in cols:
        coef, rank = exact_solve(A, c); sol.append(coef)
        res = [lift(c[i]) - sum((lift(A[i, j]) * coef[j] for j in range(p)), lift(0)) for i in range(m)]; rss.append(sum((e * e for e in res), lift(0)))
    X = np.empty((p, len(cols)), dtype=object)
    for j, coef in enumerate(sol):
        for i in range(p): X[i, j] = coef[i]
    full = m > p and rank == p
    if B.ndim == 1: return X[:, 0].view(OA), (rss[0] if full else np.array([]).view(np.ndarray)), rank, None
    r = np.empty(len(cols) if full else 0, dtype=object)
    for i in range(len(r)): r[i] = rss[i]
    return X.view(OA), r.view(OA), rank, None

class LinalgProxy(types.ModuleType):
    def __getattr__(self, n):
        if n == "lstsq": return lambda a, b, rcond=None: lstsq(a, b) if symbolic() else np.linalg.lstsq(a, b, rcond=rcond)
        return getattr(np.linalg, n)
class RandomProxy(types.ModuleType):
    def __getattr__(self, n):
        if n in ("default_rng", "Generator", "RandomState"): return MockGenerator
        return getattr(np.random, n)

CREATE = "array asarray zeros ones empty full zeros_like ones_like empty_like full_like repeat diag diagflat eye identity tile linspace ascontiguousarray asfortranarray atleast_1d atleast_2d atleast_3d expand_dims append concatenate hstack vstack column_stack stack copy squeeze ravel reshape outer".split()
class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy"); self.__path__ = np.__path__; self.__version__ = np.__version__
        self.linalg = LinalgProxy("numpy.linalg"); self.random = RandomProxy("numpy.random")
        for n in CREATE: setattr(self, n, wrap(getattr(np, n)))
        self.isnan = elementwise(np.isnan, lambda s: False); self.isfinite = elementwise(np.isfinite, lambda s: True); self.isinf = elementwise(np.isinf, lambda s: False)
        self.abs = elementwise(np.abs, abs); self.square = elementwise(np.square, lambda s: s * s); self.power = lambda x, p, *a, **k: x ** p if symbolic() else np.power(x, p, *a, **k)
    def __getattr__(self, n): return getattr(np, n)

def my_isinstance(x, t):
    if builtins.isinstance(x, Sym):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        return any(c in (float, np.floating, np.float64, object, Sym) or getattr(c, "__name__", "") in ("Number", "Real") for c in ts)
    return builtins.isinstance(x, t)

REAL_LSTSQ = None
def load(repo):
    """imports stochtree from repo with the proxies in place"""
    global REAL_LSTSQ
    import scipy.linalg, scipy.stats, pandas, sklearn.preprocessing, sklearn.utils.validation, sklearn.utils, warnings
    warnings.simplefilter("ignore")
    REAL_LSTSQ = scipy.linalg.lstsq
    import mock_cpp
    for n in [m for m in sys.modules if m == "stochtree" or m.startswith("stochtree.")]: del sys.modules[n]
    proxy = NumpyProxy(); saved = sys.modules["numpy"]; sys.path.insert(0, repo); sys.modules["stochtree_cpp"] = mock_cpp; sys.dont_write_bytecode = True
    try:
        sys.modules["numpy"] = proxy; scipy.linalg.lstsq = lstsq
        import stochtree
    finally: sys.modules["numpy"] = saved; scipy.linalg.lstsq = REAL_LSTSQ
    if not os.path.realpath(stochtree.__file__).startswith(os.path.realpath(repo)): raise RuntimeError("stochtree imported from " + stochtree.__file__)
    for n, m in list(sys.modules.items()):
        if n == "stochtree" or n.startswith("stochtree."): m.__dict__["isinstance"] = my_isinstance
    return stochtree

# ---- line coverage of the package under test
LINES = {}; FUNCS = set()
def monitor(repo):
    mon = sys.monitoring; mon.use_tool_id(2, "pysym"); base = os.path.realpath(repo) + "/stochtree/"
    def line(code, ln):
        if code.co_filename.startswith(base): LINES.setdefault(code.co_filename[len(base) - 10:], set()).add(ln); FUNCS.add(code.co_filename[len(base):-3] + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(2, mon.events.LINE, line); mon.set_events(2, mon.events.LINE)
