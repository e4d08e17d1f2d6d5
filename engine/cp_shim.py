"""cvxpy on exact symbolic values: an expression is the exact value it has for symbolic variable entries; a constraint is the
formula it stands for.  `Problem.solve` is an assumed contract (status/values chosen by the hook of the contract under check)."""
from fractions import Fraction
import numpy as np
from . import alg, logic, arr, np_shim
from .alg import S, Unsupported, is_num, is_const
from .logic import B, Special, And, Or, Not, WORLD, Family, tob, to_num
from .arr import Arr, SymSeq, array, coerce, elementwise
from .np_shim import A_, lam_min, TABLE as NPT

def val(x):
    """exact value of an expression, array or scalar as Arr"""
    if isinstance(x, Expr): return x.v
    r = coerce(x)
    if r is NotImplemented: raise Unsupported(f"cvxpy expression of {type(x).__name__}")
    return r

def wrap(r):
    if isinstance(r, Arr): return Expr(r)
    return Expr(coerce(r))

class Expr:
    __array_priority__ = 10000
    __array_ufunc__ = None
    def __init__(self, v): self.v = v
    @property
    def shape(self): return self.v.shape
    @property
    def ndim(self): return self.v.ndim
    @property
    def size(self): return self.v.size
    @property
    def T(self): return Expr(self.v.T) if self.v.ndim >= 2 else self
    @property
    def value(self):
        w = WORLD()
        if not w.__dict__.get("cp_solved"): return None
        return self.v.copy() if self.v.ndim else self.v.a[()]
    def is_scalar(self): return self.v.a.size == 1 and not self.v.sym()
    def is_vector(self): return self.v.ndim <= 1
    def is_matrix(self): return self.v.ndim >= 2
    def __len__(self): return len(self.v)
    def __iter__(self):
        if self.v.ndim == 0: raise TypeError("iteration over a 0-d expression")
        if self.v.ax[0] is not None: raise Unsupported("iteration over a symbolic-length expression")
        return (self[i] for i in range(self.v.a.shape[0]))
    def rgv_seq(self):
        if self.v.ndim and self.v.ax[0] is not None:
            from .loader import arr_item
            return self.v.ax[0], wrap(arr_item(self.v))
        return None
    def __getitem__(self, i): return wrap(self.v[i])
    def __add__(self, o): return _bin(self, o, lambda a, b: a + b)
    def __radd__(self, o): return _bin(o, self, lambda a, b: a + b)
    def __sub__(self, o): return _bin(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return _bin(o, self, lambda a, b: a - b)
    def __neg__(self): return wrap(-self.v if self.v.ndim else -self.v.a[()])
    def __mul__(self, o): return _mul(self, o)
    def __rmul__(self, o): return _mul(o, self)
    def __truediv__(self, o): return _bin(self, o, lambda a, b: a / b if isinstance(a, Arr) or isinstance(b, Arr) else arr.div_(a, b))
    def __rtruediv__(self, o): raise Unsupported("division by an expression")
    def __matmul__(self, o): return wrap(arr.matmul(self.v, val(o)))
    def __rmatmul__(self, o): return wrap(arr.matmul(val(o), self.v))
    def __pow__(self, k): return wrap(elementwise(lambda x: arr.pow_(x, k), self.v))
    def __eq__(self, o): return con("eq", self, o)
    def __le__(self, o): return con("le", self, o)
    def __ge__(self, o): return con("le", o, self)
    def __lt__(self, o): raise NotImplementedError("Strict inequalities are not allowed.")
    __gt__ = __lt__
    def __rshift__(self, o): return psdcon(self, o)
    def __rrshift__(self, o): return psdcon(o, self)
    def __lshift__(self, o): return psdcon(o, self)
    def __rlshift__(self, o): return psdcon(self, o)
    def __hash__(self): return id(self)
    def __bool__(self): raise Exception("Cannot evaluate the truth value of a constraint or chain constraints")
    def flatten(self, order="C"): return Expr(self.v.flatten())
    def trace(self): return trace(self)
    def sum(self, axis=None, **k): return wrap(self.v.sum(axis=axis))
    def __repr__(self): return f"Expr{self.v!r}"
    def __deepcopy__(self, m): return Expr(self.v.copy())
arr.CVX.append(Expr)
Expression = Expr

def sc(x): return x.a[()] if isinstance(x, Arr) and x.ndim == 0 else x
def _bin(a, b, f):
    try: a, b = val(a), val(b)
    except Unsupported:
        return NotImplemented
    return wrap(f(a if a.ndim else a, b))
def _mul(a, b):
    a, b = val(a), val(b)
    one = lambda x: x.a.size == 1 and not x.sym()
    if a.ndim == 0 or b.ndim == 0 or one(a) or one(b):
        # scalar promotion: a size-one factor scales the other
        if one(a) and a.ndim and b.ndim and not (one(b) and b.ndim >= a.ndim): a = coerce(a.a.flat[0])
        elif one(b) and b.ndim and a.ndim and not one(a): b = coerce(b.a.flat[0])
        return wrap(a * b)
    return wrap(arr.matmul(a, b))

def _shape(shape):
    if isinstance(shape, (int, S)) or is_num(shape): shape = (shape,)
    return np_shim.norm_shape(shape)

class Variable(Expr):
    def __init__(self, shape=(), name=None, PSD=False, NSD=False, nonneg=False, pos=False, symmetric=False, diag=False, nonpos=False, neg=False, **kw):
        w = WORLD()
        shape = _shape(shape)
        vs = w.__dict__.setdefault("cvars", [])
        k = len(vs)
        attrs = dict(PSD=PSD, NSD=NSD, nonneg=nonneg or pos, symmetric=symmetric or PSD or NSD or diag, diag=diag, nonpos=nonpos or neg)
        if any(v for v in kw.values()): raise Unsupported(f"cvxpy variable attributes {sorted(kw)}")
        fac = w.__dict__.get("var_factory")
        v = fac(k, shape, attrs) if fac else None
        if v is None:
            ax, cs = np_shim.axes_for(shape)
            toks = [t for A in w.loops for t in A.toks] + [A.tok for A in ax if A is not None]   # one per iteration of the enclosing loops
            o = np.empty(cs, dtype=object)
            nm = w.fresh(name or f"x{k}")
            for i in np.ndindex(*cs):
                j = i
                if attrs["symmetric"] and len(i) == 2 and i[0] > i[1]:
                    o[i] = o[i[::-1]]; continue
                if attrs["diag"] and len(i) == 2 and i[0] != i[1]:
                    o[i] = Fraction(0); continue
                sign = "nneg" if attrs["nonneg"] else None
                if attrs["PSD"] and len(i) == 2 and i[0] == i[1]: sign = "nneg"
                o[i] = Family(f"{nm}{list(i) if i else ''}", sign=sign).at(toks)
            v = Arr(o, ax, "f")
        super().__init__(v)
        self.attrs = attrs; self.idx = k; self.name_ = name; self.loops = tuple(w.loops)
        vs.append(self)
    def __hash__(self): return id(self)
    def attr_formula(self, v=None):
        v = self.v if v is None else v
        fs = []
        if self.attrs["PSD"]: fs.append(psd(v))
        if self.attrs["NSD"]: fs.append(psd(-v))
        if self.attrs["nonneg"]: fs.append(all_of(elementwise(lambda x: tob(logic.cmp("le", 0, x)) if isinstance(x, S) else x >= 0, v)))
        if self.attrs["nonpos"]: fs.append(all_of(elementwise(lambda x: tob(logic.cmp("le", x, 0)) if isinstance(x, S) else x <= 0, v)))
        if self.attrs["symmetric"] and v.ndim == 2: fs.append(all_of(v == v.T))
        r = And(*fs)
        for A in reversed(self.loops):
            for t in A.toks: r = arr.forall_axis(t, A, r)
        return r
    def name(self): return self.name_

class Parameter(Variable): pass

def Constant(x): return wrap(val(x).copy())

def psd(M):
    """symmetric part of M is positive semidefinite"""
    M = val(M)
    if M.ndim != 2 or M.sym() or M.a.shape[0] != M.a.shape[1]: raise ValueError("Non-square matrix in positive definite constraint.")
    X = (M + M.T) / 2
    l = lam_min(X)
    if isinstance(l, Special): raise Unsupported("PSD of a non-finite matrix")
    return tob(logic.cmp("le", 0, l) if isinstance(l, S) else l >= 0)

def all_of(x):
    if isinstance(x, Arr): return arr.reduce_(x, "all")
    return tob(x)

class Constraint:
    def __init__(self, kind, formula, psdmat=None, args=None):
        self.kind = kind; self.f = formula; self.psd = psdmat; self.args = args
    @property
    def formula(self): return self.f() if callable(self.f) else self.f
    def __bool__(self):
        raise Exception("Cannot evaluate the truth value of a constraint or chain constraints")
    def rgv_subst(self): pass
    def __repr__(self): return f"Con[{self.kind}]"
    def value(self): raise Unsupported("constraint value")
    def violation(self): raise Unsupported("constraint violation")

def con(kind, a, b):
    a, b = val(a), val(b)
    d = (a == b) if kind == "eq" else (a <= b)
    return Constraint(kind, all_of(d), args=(a, b))

def psdcon(a, b):
    M = val(a) - val(b)
    if not isinstance(M, Arr): M = coerce(M)
    if M.ndim == 0: M = Arr(M.a.reshape(1, 1), None, M.dt)
    if M.ndim != 2 or M.a.shape[0] != M.a.shape[1]: raise ValueError("Non-square matrix in positive definite constraint.")
    return Constraint("psd", psd(M), psdmat=(M + M.T) / 2)

def cons_formula(cs):
    """conjunction of a list of constraints (generic items become universal)"""
    from .loader import Gen
    out = []
    if isinstance(cs, SymSeq): cs = cs.items()
    for c in (list.__iter__(cs) if isinstance(cs, list) else cs):
        out.append(con_formula(c))
    return And(*out)
def con_formula(c):
    from .loader import Gen
    if isinstance(c, Gen):
        r = con_formula(c.item)
        for t in c.axis.toks: r = arr.forall_axis(t, c.axis, r)
        return r
    if isinstance(c, Constraint): return c.formula
    if isinstance(c, (bool, B)): return c
    if isinstance(c, Arr) and c.dt == "b": return all_of(c)
    if isinstance(c, (list, tuple, SymSeq)): return cons_formula(c)
    raise Unsupported(f"constraint {type(c).__name__}")

# ------------------------------------------------------------------------------------------------ atoms
def reshape(x, shape, order="F"):
    v = val(x)
    if v.sym():
        if order == "C" or v.ndim <= 1: return wrap(arr.reshape(v, shape if isinstance(shape, tuple) else (shape,)))
        raise Unsupported("reshape")
    shape = (shape,) if not isinstance(shape, (tuple, list)) else tuple(shape)
    shape = tuple(int(s) for s in shape)
    return Expr(Arr(v.a.reshape(shape, order=order), None, v.dt))
def vec(x, order="F"): v = val(x); return reshape(x, (v.a.size,), order)
def bmat(b):
    rows = []
    for r in b:
        items = [val(x) for x in r]
        items = [Arr(x.a.reshape(1, 1), None, x.dt) if x.ndim == 0 else (Arr(x.a.reshape(-1, 1), None, x.dt) if x.ndim == 1 else x) for x in items]
        h = [x.a.shape[0] for x in items]
        if len(set(h)) > 1: raise ValueError("All the input dimensions except for axis 1 must match exactly.")
        rows.append(arr.concatenate(items, 1))
    if len({r.a.shape[1] for r in rows}) > 1: raise ValueError("All the input dimensions except for axis 0 must match exactly.")
    return wrap(arr.concatenate(rows, 0))
def hstack(xs):
    vs = [val(x) for x in xs]
    vs = [Arr(x.a.reshape(1), None, x.dt) if x.ndim == 0 else x for x in vs]
    return wrap(arr.concatenate(vs, 0 if vs[0].ndim == 1 else 1))
def vstack(xs):
    vs = [val(x) for x in xs]
    vs = [Arr(x.a.reshape(1, 1), None, x.dt) if x.ndim == 0 else (Arr(x.a[None, :], (None,) + x.ax, x.dt) if x.ndim == 1 else x) for x in vs]
    return wrap(arr.concatenate(vs, 0))
def sum_(x, axis=None, keepdims=False):
    from . import loader
    s = loader._rt_seq(x)
    if s is not None and not isinstance(x, (Expr, Arr)): return seq_sum(s)
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        r = 0
        for e in x: r = r + e
        return r
    return wrap(arr.reduce_(val(x), "sum", axis, keepdims))
def seq_sum(s):
    A, e = s
    arr.all_rows(A)
    e = val(e)
    return wrap(Arr(arr.map_core(e.a, lambda v: logic.bigsum(A, to_num(v))), e.ax, e.dt) if e.ndim else logic.bigsum(A, e.a[()]))
def trace(x):
    v = val(x)
    if v.ndim != 2 or v.a.shape[0] != v.a.shape[1]: raise ValueError("Argument to trace must be a square matrix.")
    return wrap(v.trace())
def diag(x, k=0):
    v = val(x)
    return wrap(np_shim.diag(v, k))
def upper_tri(x):
    v = val(x); n = v.a.shape[0]
    if v.ndim != 2 or v.a.shape[0] != v.a.shape[1]: raise ValueError("Argument to upper_tri must be a square matrix.")
    return wrap(array([v.a[i, j] for i in range(n) for j in range(i + 1, n)]))
def norm2(x, axis=None): return wrap(np_shim.NP.linalg.norm(val(x), axis=axis))
def norm(x, p=2, axis=None):
    v = val(x)
    if p in (2, "fro") and (v.ndim <= 1 or p == "fro" or axis is not None): return wrap(np_shim.NP.linalg.norm(v, axis=axis))
    if p == 1 and v.ndim <= 1: return wrap(arr.reduce_(abs(v), "sum"))
    if isinstance(p, Special) or p == "inf": return wrap(arr.reduce_(abs(v), "max"))
    raise Unsupported("cp.norm")
def sum_squares(x): v = val(x); return wrap(arr.reduce_(v * v, "sum"))
def square(x): v = val(x); return wrap(v * v)
def multiply(a, b): return wrap(val(a) * val(b))
def outer(a, b): return wrap(np_shim.TABLE["outer"](val(a), val(b)))
def quad_form(x, P): v = val(x); return wrap(arr.matmul(arr.matmul(v, val(P)), v))
def matmul(a, b): return wrap(arr.matmul(val(a), val(b)))
def abs_(x): return wrap(abs(val(x)))
def max_(x, axis=None): return wrap(arr.reduce_(val(x), "max", axis))
def min_(x, axis=None): return wrap(arr.reduce_(val(x), "min", axis))
def maximum(*xs):
    r = val(xs[0])
    for y in xs[1:]: r = elementwise(lambda a, b: logic.smax(a, b), r, val(y))
    return wrap(r)
def sqrt(x): return wrap(NPT["sqrt"](val(x)))
def log_det(x):
    """opaque concave function; only the objective uses it"""
    v = val(x)
    return wrap(logic.ufun("log_det", *[to_num(e) for e in v.a.flat]))
def lambda_min(x): v = val(x); return wrap(lam_min((v + v.T) / 2))
def transpose(x): return Expr(val(x).T)
def promote(x, shape): return wrap(val(x) + np_shim.zeros(shape))

class Minimize:
    sign = 1
    def __init__(self, e):
        self.expr = wrap(val(e)) if not isinstance(e, Expr) else e
        if self.expr.v.a.size != 1: raise ValueError("The 'minimize' objective must resolve to a scalar.")
    @property
    def value(self):
        return self.expr.v.a.flat[0] if WORLD().__dict__.get("cp_solved") else None
    args = property(lambda s: [s.expr])
class Maximize(Minimize): sign = -1

class Problem:
    def __init__(self, objective, constraints=()):
        self.objective = objective
        self.constraints = constraints.items() if isinstance(constraints, SymSeq) else constraints if isinstance(constraints, list) else list(constraints or [])
        self.status = None
        self.cvars = list(WORLD().__dict__.get("cvars", []))
    def solve(self, *a, **k):
        w = WORLD()
        hook = w.__dict__.get("solve_hook")
        if hook is None: raise Unsupported("cvxpy solve without an assumed contract")
        r = hook(self)
        w.cp_solved = True
        return r
    @property
    def value(self): return self.objective.value
    def formula(self):
        return And(cons_formula(self.constraints), *[v.attr_formula() for v in self.cvars])
    def variables(self): return list(self.cvars)

class error:
    class SolverError(Exception): pass
    class DCPError(Exception): pass
SolverError = error.SolverError

class CP:
    def __getattr__(self, n):
        g = {"sum": sum_, "abs": abs_, "max": max_, "min": min_, "Expression": Expr, "Inf": logic.INF}
        if n in g: return g[n]
        ok = {"Variable", "Parameter", "Constant", "Problem", "Minimize", "Maximize", "reshape", "bmat", "hstack", "vstack", "trace", "diag",
              "upper_tri", "norm2", "norm", "sum_squares", "square", "multiply", "outer", "quad_form", "log_det", "lambda_min", "transpose",
              "maximum", "sqrt", "vec", "matmul", "SolverError", "error", "promote"}
        if n in ok: return globals()[n]
        if n in ("OPTIMAL", "INFEASIBLE", "UNBOUNDED", "OPTIMAL_INACCURATE"): return n.lower()
        if n in ("CLARABEL", "SCS", "MOSEK", "ECOS", "OSQP"): return n
        if n.startswith("__"): raise AttributeError(n)
        import importlib
        raise Unsupported(f"cvxpy.{n}")
CPM = CP()
