import numpy as np
import sym, shim
from sym import Sym, lift

def arr(ex, rows):
    a = np.array([[0.0 for _ in r] if isinstance(r, (list, tuple)) else 0.0 for r in rows], dtype=object if ex.concrete is None else float)
    for i in np.ndindex(a.shape):
        v = rows
        for k in i: v = v[k]
        a[i] = lift(v) if ex.concrete is None else float(v)
    return a.view(shim.OA) if ex.concrete is None else a
def sq(ex, x): return x.sqrt() if isinstance(x, Sym) else float(x) ** 0.5
def num(ex, x): return lift(x) if ex.concrete is None else float(x)
def mean(ex, xs): return sum(xs, num(ex, 0)) / len(xs)
def var(ex, xs):
    m = mean(ex, xs); return sum(((x - m) * (x - m) for x in xs), num(ex, 0)) / len(xs)
def rss(ex, X, y):
    """residual sum of squares of the least-squares fit of y on [1, X]"""
    n = len(y); A = np.empty((n, len(X[0]) + 1), dtype=object)
    for i in range(n):
        A[i, 0] = num(ex, 1)
        for j, v in enumerate(X[i]): A[i, j + 1] = num(ex, v)
    if ex.concrete is not None:
        A = A.astype(float); y = np.array(y, dtype=float); b = np.linalg.lstsq(A, y, rcond=None)[0]; e = y - A @ b; return float(e @ e)
    coef, rank = shim.exact_solve(A, y); e = [lift(y[i]) - sum((A[i, j] * coef[j] for j in range(A.shape[1])), lift(0)) for i in range(n)]
    return sum((v * v for v in e), lift(0))
def same(ex, a, b, msg):
    """two arrays agree in shape and element by element"""
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape: ex.must(False, "%s: shape %s instead of %s" % (msg, a.shape, b.shape)); return
    for i in np.ndindex(a.shape): ex.eq(a[i], b[i], msg)
def floats(a): return np.asarray(a).reshape(-1)
