"""stand-ins for the modules rigeo imports"""
import math as _m, types
from fractions import Fraction
from . import alg, logic, arr, np_shim, cp_shim
from .alg import S, Unsupported, is_num, is_const
from .logic import B, Special, WORLD, to_num, tob
from .arr import Arr
from .np_shim import NP, A_

class Math:
    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(_m, n): raise AttributeError(n)
        raise Unsupported(f"math.{n}")
    pi = property(lambda s: alg.pi())
    inf = logic.INF; nan = logic.UNDEF
    def sqrt(self, x):
        x = to_num(x)
        if is_const(x) and x < 0: raise ValueError("math domain error")
        return logic.sqrt(x)
    def isqrt(self, e):
        if is_const(e):
            if Fraction(e).denominator != 1: raise TypeError("'float' object cannot be interpreted as an integer")
            return _m.isqrt(int(e))
        if alg.sort_of(e) != "I": raise TypeError("'float' object cannot be interpreted as an integer")
        if not bool(tob(e >= 0)): raise ValueError("isqrt() argument must be nonnegative")
        r = alg.poly_sqrt(e)
        if r is not None: return logic.absval(r)
        def facts(A):
            r = alg.of_atom(A)
            return [r >= 0, r * r <= e, logic.mkcmp("lt", e - (r + 1) * (r + 1))]
        a = alg.atom("var", ("isqrt",) + e.key(), f"isqrt{e!r}", sort="I", sign="nneg", facts=facts)
        return alg.of_atom(a)
    def floor(self, x): return logic.floor(to_num(x))
    def ceil(self, x): return logic.ceil(to_num(x))
    def comb(self, n, k): return _m.comb(_ci(n), _ci(k))
    def factorial(self, n): return _m.factorial(_ci(n))
    def prod(self, xs, start=1):
        for x in xs: start = start * x
        return start
    def fabs(self, x): return abs(to_num(x))
    def hypot(self, *xs):
        t = 0
        for x in xs: t = t + to_num(x) * to_num(x)
        return logic.sqrt(t)
    def isclose(self, a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
        return tob(abs(a - b) <= logic.smax(rel_tol * logic.smax(abs(a), abs(b)), abs_tol))
    def isfinite(self, x): return not isinstance(x, Special)
    def isinf(self, x): return isinstance(x, Special) and x.kind != "undef"
    def isnan(self, x): return isinstance(x, Special) and x.kind == "undef"
    def pow(self, a, b): return arr.pow_(a, b)
    def fsum(self, xs):
        t = 0
        for x in xs: t = t + x
        return t
    def copysign(self, a, b): raise Unsupported("copysign")
    def gcd(self, *a): return _m.gcd(*[_ci(x) for x in a])
def _ci(n):
    if isinstance(n, S): return logic.concretize_int(n)
    return int(n)

class _NumMeta(type):
    def __instancecheck__(cls, x): return cls.chk(x)
class Integral(metaclass=_NumMeta):
    @staticmethod
    def chk(x): return isinstance(x, int) or (isinstance(x, S) and arr.kind_of(x) == "i")
class Real(metaclass=_NumMeta):
    @staticmethod
    def chk(x): return isinstance(x, (int, Fraction, S, Special, float))
class Number(Real): pass
class Rational(Integral): pass
numbers = types.SimpleNamespace(Integral=Integral, Real=Real, Number=Number, Rational=Rational, Complex=Real)

# ------------------------------------------------------------------------------------------------ scipy.linalg
class ScipyLinalg:
    """orth/null_space: assumed contract.  The contract under check registers orthonormal bases as ghost state:
    w.bases = list of (test, Q, k) where `test(M)` says that the columns of M span the first k columns of Q."""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n in ("norm", "inv", "det", "solve", "eigh"): return getattr(NP.linalg, n)
        raise Unsupported(f"scipy.linalg.{n}")
    def orth(self, M, rcond=None):
        M = A_(M)
        for b in WORLD().__dict__.get("bases", []):
            r = b.orth(M)
            if r is not None: return r
        raise Unsupported("orth without a ghost basis")
    def null_space(self, M, rcond=None, **k):
        M = A_(M)
        for b in WORLD().__dict__.get("bases", []):
            r = b.null(M)
            if r is not None: return r
        raise Unsupported("null_space without a ghost basis")
    def block_diag(self, *xs):
        xs = [A_(x) for x in xs]
        n = sum(x.a.shape[0] for x in xs); m = sum(x.a.shape[1] for x in xs)
        r = np_shim.zeros((n, m)); i = j = 0
        for x in xs:
            r.a[i:i + x.a.shape[0], j:j + x.a.shape[1]] = x.a; i += x.a.shape[0]; j += x.a.shape[1]
        return r

# ------------------------------------------------------------------------------------------------ cdd
class RepType:
    INEQUALITY = 1; GENERATOR = 2; UNSPECIFIED = 0
class LinSet:
    """the rows of a matrix of symbolic length that are equalities / lines"""
    def __init__(self, L): self.L = L
    def rgv_contains(self, i):
        if not isinstance(i, (int, S)): return False
        return logic.tob(to_num(self.L[i]) >= 1)
    def rgv_seq(self):
        A = self.L.ax[0]
        return arr.filter_seq(A, self.L >= 1, A.tok.idx)
    @property
    def rgv_len(self):
        import numpy as np
        A, _ = self.rgv_seq()
        return A.length
    def __contains__(self, i): return bool(self.rgv_contains(i))
    def __iter__(self): raise Unsupported("iteration over a symbolic lin_set")
    def __len__(self): raise Unsupported("len of a symbolic lin_set")
    def __bool__(self): return bool(tob(self.rgv_len > 0))
class CddMatrix:
    """cdd.Matrix: rows [b -A] or [t v]; `L` marks (with 1) the rows that are equalities / lines"""
    def __init__(self, rows, linear=False, number_type=None):
        self.rows = A_(rows).copy(); self.rep_type = RepType.UNSPECIFIED
        if self.rows.ndim != 2 and not (self.rows.ndim == 1 and self.rows.a.shape[0] == 0): raise ValueError("rows of a cdd matrix")
        self.L = self._mark(self.rows, linear)
    @staticmethod
    def _mark(rows, linear):
        if rows.ndim < 2: return Arr(rows.a.copy(), None, "i")
        r = rows[:, 0].copy(); r.dt = "i"
        r.a[...] = 1 if linear else 0
        return r
    @property
    def lin_set(self):
        if all(is_const(x) for x in self.L.a.flat):
            if not any(self.L.a.flat): return frozenset()
            if self.L.ax[0] is None: return frozenset(i for i, x in enumerate(self.L.a) if x)
        return LinSet(self.L)
    @lin_set.setter
    def lin_set(self, v):
        if isinstance(v, LinSet): self.L = v.L; return
        v = list(v)
        if not v: self.L = self._mark(self.rows, False); return
        if self.rows.ax[0] is not None: raise Unsupported("lin_set of a symbolic matrix")
        self.L = self._mark(self.rows, False)
        for i in v: self.L.a[i] = 1
    @property
    def row_size(self): return self.rows.shape[0]
    @property
    def col_size(self): return self.rows.shape[1] if self.rows.ndim == 2 else 0
    def __len__(self): return len(self.rows)
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of a cdd matrix")
        r = self.rows[i]
        return r
    def rgv_seq(self):
        if self.rows.ax[0] is None: return None
        return self.rows.ax[0], Arr(self.rows.a[0], self.rows.ax[1:], self.rows.dt)
    def extend(self, rows, linear=False):
        R = CddMatrix(rows, linear)
        self.rows = arr.concatenate([self.rows, R.rows], 0); self.L = arr.concatenate([self.L, R.L], 0)
    def canonicalize(self):
        h = WORLD().__dict__.get("cdd_hook")
        if h is None: raise Unsupported("cdd canonicalize without an assumed contract")
        return h("canonicalize", self)
    def copy(self):
        m = CddMatrix(self.rows); m.L = self.L.copy(); m.rep_type = self.rep_type; return m
class Polyhedron:
    def __init__(self, mat):
        self.mat = mat; self.rep_type = mat.rep_type
        if mat.rep_type == RepType.UNSPECIFIED: raise ValueError("rep_type unspecified")
    def get_inequalities(self):
        h = WORLD().__dict__.get("cdd_hook")
        if h is None: raise Unsupported("cdd get_inequalities without an assumed contract")
        return h("inequalities", self.mat)
    def get_generators(self):
        h = WORLD().__dict__.get("cdd_hook")
        if h is None: raise Unsupported("cdd get_generators without an assumed contract")
        return h("generators", self.mat)
cdd = types.SimpleNamespace(RepType=RepType, Matrix=CddMatrix, Polyhedron=Polyhedron)

_sl = ScipyLinalg()
MODULES = {"numpy": NP, "numpy.linalg": NP.linalg, "numpy.random": NP.random, "cvxpy": cp_shim.CPM, "math": Math(), "numbers": numbers,
           "scipy": types.SimpleNamespace(linalg=_sl), "scipy.linalg": _sl, "cdd": cdd}
