"""Symbolic execution of Python code by proxy values.

A harness is run again and again; every value it gets from real() is a rational function over Z3 real variables (kept in
polynomial normal form), every truth value of a comparison is decided by Z3 and forks the run when both outcomes are
feasible, and every assertion is a Z3 query under the path condition.  In concrete mode the same harness runs on floats.
"""
import sys, time
from fractions import Fraction
import numpy as np
import z3

class PathEnd(BaseException): pass          # infeasible / assumption violated
class Failed(BaseException):                # an assertion does not hold
    def __init__(self, msg, guess=False): self.msg = msg; self.guess = guess
class Unsupported(BaseException): pass      # outside the encoding

# ---------------------------------------------------------------- polynomials: {monomial: Fraction}, monomial = ((atom, power), ...)
ONE = ()
def pconst(c): return {ONE: Fraction(c)} if c else {}
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, p in n: d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = mmul(m, n); v = r.get(q, 0) + c * d
            if v: r[q] = v
            else: r.pop(q, None)
    return reduce_roots(r)
def reduce_roots(p):
    ex = CUR
    if not ex.roots: return p
    while True:
        hit = None
        for m in p:
            for a, k in m:
                if k > 1 and a in ex.roots: hit = (m, a, k); break
            if hit: break
        if not hit: return p
        m, a, k = hit; c = p[m]; rest = tuple((b, j) for b, j in m if b != a)
        q = dict(p); del q[m]
        t = {rest if k % 2 == 0 else mmul(rest, ((a, 1),)): c}
        for _ in range(k // 2):
            u = {}
            for x, cx in t.items():
                for y, cy in ex.roots[a].items():
                    z = mmul(x, y); v = u.get(z, 0) + cx * cy
                    if v: u[z] = v
                    else: u.pop(z, None)
            t = u
        p = padd(q, t)
def pkey(p): return tuple(sorted(p.items()))

class Executor:
    def __init__(self, concrete=None, seed=None, pins=None):
        self.pins = pins; self.aval = {}; self.concrete = concrete; self.stats = dict(paths=0, queries=0, unsat=0, sat=0, unknown=0, asserts=0, discharged=0, by_simplifier=0, forks=0, solver_s=0.0)
        self.seed = seed; self.reached = set(); self.obs = []
    def start(self, prefix):
        self.prefix = list(prefix); self.names = {}; self.span = {}; self.trace = []; self.pos = 0; self.inputs = []; self.vars = []; self.roots = {}; self.rootkey = {}; self.zc = {}; self.atomkey = {}; self.obs = []; self.obsrc = None
        self.solver = z3.SolverFor("QF_NRA"); self.solver.set("timeout", 10000); self.pc = []; self.den = set(); self.ineq = {}
    # -- atoms
    def atom(self, name, lo=None, hi=None):
        v = z3.Real("%s!%d" % (name, len(self.vars))); self.vars.append(v); k = len(self.vars) - 1
        if lo is not None: self.add(v >= z3.Q(Fraction(lo).numerator, Fraction(lo).denominator))
        if hi is not None: self.add(v <= z3.Q(Fraction(hi).numerator, Fraction(hi).denominator))
        return k
    def add(self, f): self.pc.append(f); self.solver.add(f)
    def z(self, p):
        k = pkey(p)
        if k in self.zc: return self.zc[k]
        ts = []
        for m, c in k:
            t = z3.Q(c.numerator, c.denominator)
            for a, e in m:
                for _ in range(e): t = t * self.vars[a]
            ts.append(t)
        r = z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.Q(0, 1)
        self.zc[k] = r; return r
    def check(self, *fs):
        t = time.time(); r = self.solver.check(*fs); self.stats["solver_s"] += time.time() - t; self.stats["queries"] += 1
        if r == z3.unknown and fs: # a second attempt with a fresh general solver
            s = z3.Solver(); s.set("timeout", 10000); s.add(self.pc); s.add(*fs); t = time.time(); r = s.check(); self.stats["solver_s"] += time.time() - t
            if r == z3.sat: self.last = s.model()
        elif r == z3.sat: self.last = self.solver.model()
        self.stats["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        return r
    # -- forks
    def fork(self, f):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1; self.trace.append((d, False)); self.add(f if d else z3.Not(f)); return bool(d)
        a = self.check(f); b = self.check(z3.Not(f)) if a != z3.unsat else z3.sat
        if a == z3.unsat and b == z3.unsat: raise PathEnd()
        d = 1 if a != z3.unsat else 0; both = a != z3.unsat and b != z3.unsat
        self.stats["forks"] += both; self.pos += 1; self.trace.append((d, both)); self.add(f if d else z3.Not(f)); return bool(d)
    def fresh(self, name):
        k = self.names.get(name, 0); self.names[name] = k + 1
        return name if not k else "%s~%d" % (name, k)
    def choice(self, name, n):
        """a symbolic index; the alternatives are explored as separate runs"""
        name = self.fresh(name)
        if self.concrete is not None or self.pins is not None: return int(self.take(name, lambda r: r.randrange(n)))
        if self.pos < len(self.prefix): d = self.prefix[self.pos]
        else: d = 0
        self.trace.append((d, ("choice", n))); self.pos += 1; self.inputs.append((name, "int", d)); return d
    def take(self, name, gen):
        src = self.pins if self.pins is not None else self.concrete
        if name in src: v = src[name]
        else: v = gen(self.seed if self.seed is not None else __import__("random").Random(name))
        self.inputs.append((name, "val", v)); return v
    def real(self, name, lo=-8, hi=8, why="in"):
        name = self.fresh(name); gen = lambda r: float(lo + (hi - lo) * Fraction(r.randrange(1, 1024), 1024))
        if self.concrete is not None: return np.float64(self.take(name, gen))
        if self.pins is not None: return Sym(pconst(Fraction(float(self.take(name, gen)))))
        a = self.atom("v", lo, hi); self.span[a] = (lo, hi); s = Sym({((a, 1),): Fraction(1)}); self.inputs.append((name, "real", a)); return s
    def model(self):
        m = self.last; out = []
        def val(a):
            v = m.eval(self.vars[a], model_completion=True)
            if z3.is_algebraic_value(v): v = v.approx(30)
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        for n, k, v in self.inputs: out.append((n, val(v) if k == "real" else v))
        return out
    def guess(self):
        """random values for the inputs of this path: candidates for the replay when the solver gives up"""
        import random
        r = random.Random(len(self.inputs)); out = []
        for n, k, v in self.inputs: out.append((n, float(self.span[v][0] + (self.span[v][1] - self.span[v][0]) * r.randrange(1, 256) / 256.0) if k == "real" else v))
        return out
    # -- assertions
    def assume(self, c):
        if isinstance(c, SymBool):
            self.add(c.f)
        elif not c: raise PathEnd()
    def fail(self, msg):
        if self.concrete is None:
            r = self.check()
            if r == z3.unsat: raise PathEnd()
            if r == z3.unknown: raise Failed(msg, guess=True)
        raise Failed(msg)
    def must(self, c, msg):
        self.stats["asserts"] += 1
        if isinstance(c, SymBool):
            r = self.check(z3.Not(c.f))
            if r == z3.unsat: self.stats["discharged"] += 1; self.add(c.f); return
            if r == z3.unknown: raise Failed(msg, guess=True)
            raise Failed(msg)
        if bool(c): self.stats["discharged"] += 1; self.stats["by_simplifier"] += 1; return
        self.fail(msg)
    def eq(self, a, b, msg):
        if self.concrete is not None:
            a = float(a); b = float(b); self.stats["asserts"] += 1
            if not (abs(a - b) <= 1e-6 * (1e-3 + abs(a) + abs(b))): raise Failed("%s (%.12g instead of %.12g)" % (msg, a, b))
            return
        a = lift(a); b = lift(b)
        if a is None or b is None: self.stats["asserts"] += 1; self.fail(msg + " (not a number)")
        d = a - b; d = lift(d); self.stats["asserts"] += 1
        if not d.n: self.stats["discharged"] += 1; self.stats["by_simplifier"] += 1; return
        zn = self.z(d.n); D = self.denz(d); big = zn * zn > D * D * z3.Q(1, 100)  # a clearly visible difference first, so that the replay shows it
        r = self.check(big)
        if r == z3.sat: raise Failed(msg)
        r = self.check(zn * zn > D * D * z3.Q(1, 10 ** 18))
        if r == z3.unsat: self.stats["discharged"] += 1; return
        if r == z3.unknown: raise Failed(msg, guess=True)
        raise Failed(msg)
    def denz(self, s):
        D = z3.Q(1, 1)
        for k, e in s.d.items():
            for _ in range(e): D = D * self.z(dict(k))
        return D
    def reach(self, l):
        if l in self.reached: return
        if self.concrete is not None or self.check() == z3.sat: self.reached.add(l)
    def observe(self, n, v):
        if self.concrete is not None: self.obs.append((n, float(v)))
        elif self.pins is not None: self.obs.append((n, self.evalf(lift(v))))
    def evalf(self, s):
        def ev(p): return sum(float(c) * np.prod([self.aval[a] ** e for a, e in m]) if m else float(c) for m, c in p.items())
        d = 1.0
        for k, e in s.d.items(): d *= ev(dict(k)) ** e
        return float(ev(s.n) / d)

CUR = None

def lift(x):
    if isinstance(x, Sym): return x
    if isinstance(x, np.ndarray) and x.size == 1: return lift(x.reshape(-1)[0])
    if isinstance(x, (bool, np.bool_)): return Sym(pconst(int(x)))
    if isinstance(x, (int, np.integer)): return Sym(pconst(int(x)))
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float("inf"), float("-inf")): return None
        return Sym(pconst(Fraction(float(x))))
    if isinstance(x, Fraction): return Sym(pconst(x))
    return None

class SymBool:
    __slots__ = ("f", "d")
    def __init__(self, f): self.f = f; self.d = None
    def __bool__(self):
        if self.d is None: self.d = CUR.fork(self.f)
        return self.d
    def __and__(self, o): return bool(self) and bool(o)
    __rand__ = __and__
    def __or__(self, o): return bool(self) or bool(o)
    __ror__ = __or__
    def __invert__(self): return not bool(self)
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))

class Sym:
    """num / prod(den^k) over the atoms of the current run"""
    __slots__ = ("n", "d")
    def __init__(self, n, d=None): self.n = n; self.d = d or {}
    def _bin(self, o, f, rev=False):
        if isinstance(o, np.ndarray) and o.ndim > 0: return NotImplemented
        if isinstance(o, SymBool): o = int(bool(o))
        o = lift(o)
        if o is None: return NotImplemented
        return f(o, self) if rev else f(self, o)
    @staticmethod
    def add(a, b, k=1):
        if a.d == b.d: return norm(padd(a.n, b.n, k), a.d)
        d = dict(a.d)
        for x, e in b.d.items(): d[x] = max(d.get(x, 0), e)
        def up(s):
            p = s.n
            for x, e in d.items():
                for _ in range(e - s.d.get(x, 0)): p = pmul(p, dict(x))
            return p
        return norm(padd(up(a), up(b), k), d)
    @staticmethod
    def mul(a, b):
        d = dict(a.d)
        for x, e in b.d.items(): d[x] = d.get(x, 0) + e
        return norm(pmul(a.n, b.n), d)
    @staticmethod
    def div(a, b):
        if not b.n: raise ZeroDivisionError("division by zero")
        if len(b.n) == 1 and ONE in b.n: inv = Sym(pconst(1 / b.n[ONE]))
        else:
            lead = sorted(b.n.items())[0][1]; p = {m: c / lead for m, c in b.n.items()}; k = pkey(p)
            if k not in CUR.den: # division by zero is outside the claim
                CUR.den.add(k); CUR.add(CUR.z(p) != 0)
            n = pconst(1 / lead); inv = Sym(n, {k: 1})
        for x, e in b.d.items():
            for _ in range(e): inv = Sym(pmul(inv.n, dict(x)), inv.d)
        return Sym.mul(a, inv)
    def __add__(self, o): return self._bin(o, Sym.add)
    def __radd__(self, o): return self._bin(o, Sym.add, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: Sym.add(a, b, -1))
    def __rsub__(self, o): return self._bin(o, lambda a, b: Sym.add(a, b, -1), True)
    def __mul__(self, o): return self._bin(o, Sym.mul)
    def __rmul__(self, o): return self._bin(o, Sym.mul, True)
    def __truediv__(self, o): return self._bin(o, Sym.div)
    def __rtruediv__(self, o): return self._bin(o, Sym.div, True)
    def __neg__(self): return Sym({m: -c for m, c in self.n.items()}, self.d)
    def __pos__(self): return self
    def __abs__(self): return -self if self < 0 else self
    def __pow__(self, e):
        if isinstance(e, np.ndarray) and e.ndim > 0: return NotImplemented
        e = lift(e)
        if e is None or e.d or any(e.n.keys() - {ONE}): raise Unsupported("power with a symbolic exponent")
        e = e.n.get(ONE, Fraction(0))
        if e == Fraction(1, 2): return self.sqrt()
        if e.denominator != 1: raise Unsupported("fractional power")
        r = lift(1)
        for _ in range(abs(int(e))): r = r * self
        return r if e >= 0 else lift(1) / r
    def conjugate(self): return self
    @property
    def real(self): return self
    def item(self): return self
    def sqrt(self):
        if not self.n: return lift(0)
        if not self.d and list(self.n) == [ONE]:
            c = self.n[ONE]; import math
            if c >= 0:
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator: return lift(Fraction(a, b))
        # sqrt(num/den) = sqrt(num*den)/den keeps the radicand a polynomial
        rad = self.n; den = lift(1); d2 = {}
        for k, e in self.d.items():
            if e % 2: rad = pmul(rad, dict(k)); d2[k] = (e + 1) // 2
            else: d2[k] = e // 2
        key = pkey(rad)
        if key not in CUR.rootkey:
            CUR.must(SymBool(CUR.z(rad) >= 0), "square root of a negative number")
            a = CUR.atom("sqrt", 0); CUR.add(CUR.vars[a] * CUR.vars[a] == CUR.z(rad)); CUR.rootkey[key] = a; CUR.roots[a] = rad
            if CUR.pins is not None: CUR.aval[a] = max(0.0, CUR.evalf(Sym(rad))) ** 0.5
        a = CUR.rootkey[key]; s = Sym({((a, 1),): Fraction(1)})
        for k, e in d2.items():
            if e and CUR.check(CUR.z(dict(k)) < 0) == z3.unsat: continue
            if e % 2: s = -s if bool(SymBool(CUR.z(dict(k)) < 0)) else s
        return norm(s.n, d2)
    def exp(self): raise Unsupported("exponential of a symbolic value")
    log = exp
    def __float__(self): raise Unsupported("a symbolic value is converted to a C double")
    def __int__(self): raise Unsupported("a symbolic value is converted to an int")
    def cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim > 0: return NotImplemented
        x = o; o = lift(o)
        if o is None:
            if isinstance(x, (float, np.floating)): return {"eq": False, "ne": True, "lt": x > 0, "le": x > 0, "gt": x < 0, "ge": x < 0}[op] if x == x else op == "ne"
            return NotImplemented
        d = self - o
        if not d.n or (list(d.n) == [ONE] and not d.d):
            c = d.n.get(ONE, 0); return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
        t = CUR.z(d.n)
        if op not in ("eq", "ne"):
            for k, e in d.d.items():
                if e % 2: t = t * CUR.z(dict(k))
        return SymBool({"eq": lambda: t == 0, "ne": lambda: t != 0, "lt": lambda: t < 0, "le": lambda: t <= 0, "gt": lambda: t > 0, "ge": lambda: t >= 0}[op]())
    def __eq__(self, o): return self.cmp(o, "eq")
    def __ne__(self, o): return self.cmp(o, "ne")
    def __lt__(self, o): return self.cmp(o, "lt")
    def __le__(self, o): return self.cmp(o, "le")
    def __gt__(self, o): return self.cmp(o, "gt")
    def __ge__(self, o): return self.cmp(o, "ge")
    def __bool__(self): return bool(self != 0)
    def key(self): return (pkey(self.n), tuple(sorted(self.d.items())))
    def __hash__(self): return hash(self.key())
    def __repr__(self): return "Sym(%s)" % (CUR.z(self.n),)

def norm(n, d):
    if not n: return Sym({})
    if d: # cancel a denominator that divides the numerator as a monomial or equals it up to a constant
        d = {k: e for k, e in d.items() if e}
        for k in list(d):
            while d.get(k, 0) and len(k) == 1: # single monomial denominators: cancel common atoms
                (m, c), = k
                if all(all(dict(q).get(a, 0) >= e for a, e in m) for q in n): n = {tuple((a, e - dict(m).get(a, 0)) for a, e in q if e - dict(m).get(a, 0)): v / c for q, v in n.items()}; d[k] -= 1
                else: break
            if d.get(k, 0) and len(k) > 1 and len(n) == len(k):
                p = dict(k); r = None
                if set(p) == set(n):
                    r = {n[m] / p[m] for m in p}
                    if len(r) == 1: n = pconst(r.pop()); d[k] -= 1
        d = {k: e for k, e in d.items() if e}
    return Sym(n, d)

def sym_key(x):
    s = lift(x)
    return s.key() if s is not None else repr(x)

# ---------------------------------------------------------------- exploration
def guarded(fn, ex):
    """an exception that the code under test raises and the harness does not expect is a failure"""
    try: fn(ex)
    except Exception as e:
        import traceback
        tb = [f for f in traceback.extract_tb(e.__traceback__) if "/stochtree/" in f.filename]
        if not tb and "Model' object has no attribute" not in str(e): raise Unsupported("harness: " + traceback.format_exc()[-700:])
        ex.fail("raises %s: %s%s" % (type(e).__name__, str(e)[:160], " (%s line %d)" % (tb[-1].filename.split("/")[-1], tb[-1].lineno) if tb else ""))

def explore(fn, budget, prefixes=([],), maxfails=48):
    """depth-first over decision prefixes"""
    global CUR
    ex = Executor(); CUR = ex; t0 = time.time(); fails = []; problems = []; samples = []; todo = list(prefixes)
    while todo:
        pre = todo.pop()
        if time.time() - t0 > budget: problems.append("exploration exceeded its budget"); break
        ex.start(pre); CUR = ex
        try:
            guarded(fn, ex); ex.stats["paths"] += 1
            if len(samples) < 2 and ex.check() == z3.sat: samples.append(ex.model())
        except PathEnd: pass
        except Failed as e: ex.stats["paths"] += 1; fails.append((e.msg, ex.guess() if e.guess else ex.model(), e.guess))
        except Unsupported as e:
            if len(problems) < 5: problems.append("unsupported: %s" % e)
        for i in range(len(ex.trace) - 1, len(pre) - 1, -1):
            d, both = ex.trace[i]; head = [x[0] for x in ex.trace[:i]]
            if both is True: todo.append(head + [1 - d])
            elif isinstance(both, tuple):
                for k in range(d + 1, both[1]): todo.append(head + [k])
        if len(fails) >= maxfails: break
    return ex.stats, fails, problems, samples, ex.reached

def concrete(fn, inputs=None, rnd=None):
    """one run on floats"""
    global CUR
    ex = Executor(concrete=dict(inputs or {}), seed=rnd); CUR = ex; ex.start([])
    try: guarded(fn, ex); return "ok", "", ex
    except PathEnd: return "skip", "", ex
    except Failed as e: return "fail", e.msg, ex
    except Unsupported as e: return "unsupported", str(e), ex

def pinned(fn, inputs):
    """one run of the proxies with every input fixed"""
    global CUR
    ex = Executor(pins=dict(inputs)); CUR = ex; ex.start([])
    try: guarded(fn, ex); return "ok", "", ex
    except PathEnd: return "skip", "", ex
    except Failed as e: return "fail", e.msg, ex
    except Unsupported as e: return "unsupported", str(e), ex
