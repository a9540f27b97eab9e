"""pandas columns whose float values are symbolic."""
import numpy as np, pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype
import sym
from sym import Sym, lift

class SymDtype(ExtensionDtype):
    name = "Float64"; type = float; kind = "f"; _is_numeric = True; na_value = np.nan
    @classmethod
    def construct_array_type(cls): return SymColumn
    @classmethod
    def construct_from_string(cls, s): raise TypeError(s)
    def __eq__(self, o): return isinstance(o, SymDtype)
    def __hash__(self): return 7
class SymColumn(ExtensionArray):
    def __init__(self, v): self.v = np.empty(len(v), dtype=object); self.v[:] = list(v); self._dtype = SymDtype()
    @classmethod
    def _from_sequence(cls, s, *, dtype=None, copy=False): return cls(list(s))
    @classmethod
    def _from_factorized(cls, v, o): return cls(v)
    def __getitem__(self, k):
        r = self.v[k]; return SymColumn(r) if isinstance(r, np.ndarray) else r
    def __setitem__(self, k, x): self.v[k] = x
    def __len__(self): return len(self.v)
    @property
    def dtype(self): return self._dtype
    @property
    def nbytes(self): return 8 * len(self.v)
    def isna(self): return np.zeros(len(self.v), dtype=bool)
    def take(self, idx, *, allow_fill=False, fill_value=None): return SymColumn(self.v[np.asarray(idx)])
    def copy(self): return SymColumn(self.v.copy())
    def to_numpy(self, dtype=None, copy=False, na_value=None): return self.v.copy()
    def __array__(self, dtype=None, copy=None): return self.v.copy()
    def astype(self, dtype, copy=True): return self.v.copy() if dtype in (float, np.float64, "float", "float64", object) else ExtensionArray.astype(self, dtype, copy)
    @classmethod
    def _concat_same_type(cls, xs): return cls(np.concatenate([x.v for x in xs]))
    def _op(self, o, f): return SymColumn([f(a, b) for a, b in zip(self.v, o.v if isinstance(o, SymColumn) else [o] * len(self.v))])
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    __radd__ = __add__

def column(ex, vals): return SymColumn([lift(v) for v in vals]) if ex.concrete is None else np.array([float(v) for v in vals])
