"""CovariateTransformer: what reaches the forests is the documented encoding of each column."""
import numpy as np
import sym
from common import *
from symframe import column

LEVELS = {"ord": ["lo", "mid", "hi"], "cat": ["r", "g", "b"], "cat2": ["u", "v"], "string": ["p", "q"]}
def make(ex, D, kinds, n, tag):
    """a table with the given kinds of columns, and the encoding the documentation asks for"""
    import pandas as pd
    cols = {}; enc = []; types = []; orig = []
    for j, kd in enumerate(kinds):
        nm = "c%d" % j
        if kd == "float": v = [ex.real("%s%d_%d" % (tag, j, i)) for i in range(n)]; cols[nm] = column(ex, v); e = [v]; t = [0]
        elif kd == "int": v = [[3, -1, 7, 7, 0][(i + j) % 5] for i in range(n)]; cols[nm] = np.array(v, dtype="int64"); e = [v]; t = [0]
        elif kd == "Int": v = [[5, 2, 2, -4, 1][(i + j) % 5] for i in range(n)]; cols[nm] = pd.array(v, dtype="Int64"); e = [v]; t = [0]
        elif kd == "bool": v = [ex.choice("%s%d_%d" % (tag, j, i), 2) for i in range(n)]; cols[nm] = np.array(v, dtype=bool); e = [v]; t = [1]
        elif kd in ("ord", "cat", "cat2"):
            L = LEVELS[kd]; v = [ex.choice("%s%d_%d" % (tag, j, i), len(L)) if i < D.get("FREE", 2) else i % len(L) for i in range(n)]
            cols[nm] = pd.Categorical([L[k] for k in v], categories=L, ordered=kd == "ord")
            if kd == "ord": e = [v]; t = [1]
            else: e = [[1 if v[i] == k else 0 for i in range(n)] for k in range(len(L))]; t = [1] * len(L)
        elif kd == "string": # the levels are those of the training table
            L = LEVELS[kd]; v = [1, 0] + [ex.choice("%s%d_%d" % (tag, j, i), 2) for i in range(2, n)]; cols[nm] = pd.array([L[k] for k in v], dtype="string"); e = [[1 if v[i] == k else 0 for i in range(n)] for k in range(2)]; t = [1, 1]
        elif kd == "object": cols[nm] = np.array(["s%d" % i for i in range(n)], dtype=object); e = []; t = []
        elif kd == "date": cols[nm] = pd.to_datetime(["2020-01-0%d" % (i + 1) for i in range(n)]); e = []; t = []
        enc += e; types += t; orig += [j] * len(e)
    return pd.DataFrame(cols), [[e[i] for e in enc] for i in range(n)], types, orig

def verify(ex, tr, out, enc, types, orig, what):
    out = np.asarray(out); ex.must(out.ndim == 2 and out.shape == (len(enc), len(types)), "%s: the encoded table has shape %s instead of %s" % (what, out.shape, (len(enc), len(types))))
    for i in range(len(enc)):
        for j in range(len(types)): ex.eq(out[i, j], enc[i][j], "%s: a covariate is not encoded as documented" % what); ex.observe("enc", out[i, j])
    ex.must([int(t) for t in tr._processed_feature_types] == types, "%s: feature types %s instead of %s" % (what, list(tr._processed_feature_types), types))
    ex.must([int(t) for t in tr.fetch_original_feature_indices()] == orig, "%s: columns are attributed to other original columns" % what)

def run(ex, D):
    import stochtree.preprocessing as sp
    ex.log = []; n = D.get("N", 3); tr = sp.CovariateTransformer()
    if D.get("NUMPY"):
        p = D.get("P", 1); X = [[ex.real("x%d_%d" % (i, j)) for j in range(p)] for i in range(n)]; A = arr(ex, X)
        one = p == 1 and bool(ex.choice("one_dimensional", 2)); how = ex.choice("fit_transform", 2)
        if how: out = tr.fit_transform(A[:, 0] if one else A)
        else: tr.fit(A[:, 0] if one else A); out = tr.transform(A[:, 0] if one else A)
        ty = []
        for j in range(p): # a column with exactly two distinct values is binary
            d = []
            for i in range(n):
                if not any(bool(X[i][j] == v) for v in d): d.append(X[i][j])
            ty.append(1 if len(d) == 2 else 0)
        verify(ex, tr, out, X, ty, list(range(p)), "training array")
        Y = [[ex.real("t%d_%d" % (i, j)) for j in range(p)] for i in range(2)]; verify(ex, tr, tr.transform(arr(ex, Y)), Y, ty, list(range(p)), "new array")
        bad = arr(ex, [[1.0] * (p + 1)] * 2)
    else:
        kinds = D["KINDS"].split(",") if not D.get("PICK") else [D["KINDS"].split(",")[ex.choice("kind%d" % j, len(D["KINDS"].split(",")))] for j in range(D["PICK"])]
        df, enc, types, orig = make(ex, D, kinds, n, "x")
        if not types: raise sym.PathEnd()
        if D.get("REFIT"):
            df2, _, _, _ = make(ex, D, ["float"] + kinds[1:], n, "w"); tr.fit(df2) # an earlier fit leaves no trace
        if ex.choice("fit_transform", 2): out = tr.fit_transform(df)
        else: tr.fit(df); out = tr.transform(df)
        verify(ex, tr, out, enc, types, orig, "training table")
        # new rows are encoded by the levels of the training table
        dt, et, _, _ = make(ex, dict(D, FREE=1), kinds, D.get("NEW", 2), "t"); verify(ex, tr, tr.transform(dt), et, types, orig, "new table")
        import pandas as pd
        bad = pd.DataFrame({"q%d" % j: [1.0, 2.0] for j in range(len(kinds) + 1)})
    try: tr.transform(bad); ok = False
    except ValueError: ok = True
    ex.must(ok, "a table with another number of columns is accepted")
    ex.reach("end")
