"""numpy on exact symbolic arrays.

Functions whose meaning matters are defined here; purely structural functions fall back to the real numpy working on the
object cores when no dimension is symbolic.  A numpy attribute that is not covered raises `Unsupported`.
"""
from fractions import Fraction
import itertools, math
import numpy as np
from . import alg, logic, arr
from .alg import S, Unsupported, is_num, is_const, demote
from .logic import B, Special, And, Or, Not, Iff, WORLD, INF, NINF, UNDEF, Family, to_num, tob
from .arr import (Arr, coerce, elementwise, reduce_, array, asarray, SymSeq, axis_for, new_axis, is_scalar, map_core, cast, dt_of,
                  kind_join, kind_of, Axis, Tok)

def A_(x):
    r = coerce(x)
    if r is NotImplemented: raise Unsupported(f"array operation on {type(x).__name__}")
    return r

def unwrap0(r):
    """0-d Arr -> scalar"""
    return r.a[()] if isinstance(r, Arr) and r.ndim == 0 else r

class NPMod:
    """stand-in for the numpy module"""
    def __init__(self): pass
    def __getattr__(self, name):
        f = TABLE.get(name)
        if f is not None: return f
        if name in TABLE: return None
        if name == "pi": return alg.pi()
        if name == "e": raise Unsupported("np.e")
        if name.startswith("__"): raise AttributeError(name)
        if not hasattr(np, name): raise AttributeError(f"module 'numpy' has no attribute '{name}'")
        real = getattr(np, name)
        if isinstance(real, type) and issubclass(real, Exception): return real
        if callable(real): return structural(name, real)
        raise Unsupported(f"np.{name}")

TABLE = {}
def reg(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d

STRUCTURAL = set("""flip fliplr flipud roll tile repeat moveaxis swapaxes broadcast_to kron rot90 split array_split hsplit vsplit
dsplit trace diagonal einsum tensordot inner vdot cross delete insert ix_ atleast_3d dstack column_stack row_stack stack
broadcast_arrays rollaxis unravel_index ravel_multi_index fill_diagonal take take_along_axis choose compress triu tril tri
vander convolve diff ediff1d polyval indices ndindex identity diag_indices diag_indices_from triu_indices_from
tril_indices_from size ndim shape result_type multi_dot mgrid resize put place copyto""".split())

def structural(name, real):
    def f(*args, **kw):
        if name not in STRUCTURAL: raise Unsupported(f"np.{name}")
        flag = []
        def conv(x):
            if isinstance(x, SymSeq): x = array(x)
            if isinstance(x, Arr):
                if x.sym(): raise Unsupported(f"np.{name} on symbolic-length array")
                flag.append(x)
                if x.dt == "i" and all(isinstance(v, int) for v in x.a.flat): return np.array(x.a.tolist(), dtype=int).reshape(x.a.shape)
                if x.dt == "b" and all(isinstance(v, bool) for v in x.a.flat): return np.array(x.a.tolist(), dtype=bool).reshape(x.a.shape)
                return x.a
            if isinstance(x, (list, tuple)):
                y = [conv(v) for v in x]
                return type(x)(y) if type(x) in (list, tuple) else list(y)
            if isinstance(x, S):
                o = np.empty((), dtype=object); o[()] = x
                return o
            return x
        a = [conv(x) for x in args]; k = {n: conv(x) for n, x in kw.items()}
        return wrap_real(real(*a, **k))
    f.__name__ = name
    return f

def wrap_real(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object: return unwrap0(Arr(r)) if r.ndim == 0 else Arr(r)
        o = np.empty(r.shape, dtype=object)
        for i, v in np.ndenumerate(r): o[i] = arr.norm_scalar(v)
        return Arr(o, None, {"i": "i", "u": "i", "b": "b", "f": "f"}.get(r.dtype.kind, "O")) if r.ndim else o[()]
    if isinstance(r, tuple): return tuple(wrap_real(x) for x in r)
    if isinstance(r, list): return [wrap_real(x) for x in r]
    if isinstance(r, np.generic): return arr.norm_scalar(r)
    return r

# ------------------------------------------------------------------------------------------------ constants and types
class _T:
    def __init__(self, name): self.__name__ = name
    def __call__(self, x=0): return cast(x if not isinstance(x, (list, tuple)) else array(x), self)
for _n in "float64 float32 float_ double int64 int32 int_ intp uint8 bool_ object_ int8 uint64".split(): TABLE[_n] = _T(_n)
TABLE["ndarray"] = Arr
TABLE["newaxis"] = None
class _Const(dict): pass
TABLE["inf"] = INF; TABLE["Inf"] = INF; TABLE["infty"] = INF
TABLE["nan"] = UNDEF; TABLE["NaN"] = UNDEF
TABLE["AxisError"] = getattr(np, "AxisError", np.exceptions.AxisError)
class _Abs: pass
TABLE["integer"] = type("integer", (), {}); TABLE["floating"] = type("floating", (), {}); TABLE["number"] = type("number", (), {}); TABLE["generic"] = type("generic", (), {})

# ------------------------------------------------------------------------------------------------ creation
def norm_shape(shape):
    if isinstance(shape, Arr): shape = shape.tolist()
    if is_num(shape): shape = (shape,)
    out = []
    for s in shape:
        if isinstance(s, Arr): s = s.item()
        if isinstance(s, Fraction): raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(s, S):
            if not alg.sort_of(s) == "I": raise TypeError("'float' object cannot be interpreted as an integer")
            v = WORLD().int_value(s)
            if v is not None: s = v
        elif s < 0: raise ValueError("negative dimensions are not allowed")
        out.append(s)
    return tuple(out)

def axes_for(shape):
    """axes and core shape of a new array"""
    ax = []; seen = set()
    for s in shape:
        if isinstance(s, S):
            A = arr.row_axis(s)
            if A in seen: raise Unsupported("array with two dimensions of the same symbolic length")
            seen.add(A); ax.append(A)
        else: ax.append(None)
    return ax, tuple(1 if isinstance(s, S) else int(s) for s in shape)

def filled(shape, v, dtype=None):
    shape = norm_shape(shape)
    ax, cs = axes_for(shape)
    o = np.empty(cs, dtype=object)
    k = dt_of(dtype) or "f"
    v = {"f": lambda: Fraction(v) if is_const(v) else v, "i": lambda: int(v) if is_const(v) else v, "b": lambda: bool(v) if is_const(v) else v, "O": lambda: v}[k]() if not isinstance(v, Special) else v
    for i in np.ndindex(*cs): o[i] = v
    r = Arr(o, ax, k)
    return r

@reg("zeros")
def zeros(shape, dtype=None, order="C"): return filled(shape, 0, dtype)
@reg("ones")
def ones(shape, dtype=None, order="C"): return filled(shape, 1, dtype)
@reg("empty")
def empty(shape, dtype=None, order="C"): return filled(shape, UNDEF if dt_of(dtype) in (None, "f") else 0, dtype)
@reg("full")
def full(shape, v, dtype=None, order="C"):
    if isinstance(v, Arr) and v.ndim:
        r = filled(shape, 0, dtype or v.dtype); r[...] = v; return r
    v = unwrap0(A_(v))
    return filled(shape, v, dtype or {"f": "float64", "i": "int64", "b": "bool", "O": "object"}[kind_of(v)])
def _like(x, v, dtype):
    x = A_(x)
    o = np.empty(x.a.shape, dtype=object)
    k = dt_of(dtype) or x.dt
    for i in np.ndindex(*x.a.shape): o[i] = {"f": Fraction(v) if is_const(v) else v, "i": v, "b": bool(v) if is_const(v) else v, "O": v}[k]
    return Arr(o, x.ax, k)
@reg("zeros_like")
def zeros_like(x, dtype=None, **k): return _like(x, 0, dtype)
@reg("ones_like")
def ones_like(x, dtype=None, **k): return _like(x, 1, dtype)
@reg("empty_like")
def empty_like(x, dtype=None, **k): return _like(x, UNDEF, dtype)
@reg("full_like")
def full_like(x, v, dtype=None, **k):
    r = _like(x, 0, dtype); r[...] = v; return r
@reg("eye")
def eye(n, m=None, k=0, dtype=None):
    n = _cint(n); m = n if m is None else _cint(m)
    r = filled((n, m), 0, dtype)
    one = {"f": Fraction(1), "i": 1, "b": True, "O": 1}[r.dt]
    for i in range(n):
        if 0 <= i + k < m: r.a[i, i + k] = one
    return r
TABLE["identity"] = lambda n, dtype=None: eye(n, dtype=dtype)

def _cint(n):
    if isinstance(n, Arr): n = n.item()
    if isinstance(n, S): return logic.concretize_int(n)
    if isinstance(n, Fraction): raise TypeError("'float' object cannot be interpreted as an integer")
    return int(n)

@reg("array")
def array_(x, dtype=None, copy=True, **kw):
    return array(_l(x), dtype, copy=bool(copy) if copy is not None else True)
def _l(x):
    return x
@reg("asarray", "asanyarray", "ascontiguousarray")
def asarray_(x, dtype=None, **kw): return asarray(x, dtype)
@reg("asarray_chkfinite")
def asarray_chk(x, dtype=None): raise Unsupported("asarray_chkfinite")
@reg("copy")
def copy_(x, **k): return A_(x).copy()
@reg("atleast_1d")
def atleast_1d(*xs):
    r = []
    for x in xs:
        x = asarray(A_(x)) if not isinstance(x, Arr) else x
        r.append(x if x.ndim >= 1 else Arr(x.a.reshape(1), (None,), x.dt))
    return r[0] if len(r) == 1 else r
@reg("atleast_2d")
def atleast_2d(*xs):
    r = []
    for x in xs:
        x = A_(x)
        if x.ndim == 0: x = Arr(x.a.reshape(1, 1), None, x.dt)
        elif x.ndim == 1: x = Arr(x.a[None, :], (None,) + x.ax, x.dt)
        r.append(x)
    return r[0] if len(r) == 1 else r

@reg("arange")
def arange(*a, dtype=None):
    a = [x.item() if isinstance(x, Arr) else x for x in a]
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    if any(isinstance(x, S) for x in (lo, hi, st)):
        if not (is_const(lo) and lo == 0 and is_const(st) and st == 1 and alg.sort_of(hi) == "I"):
            n = logic.ceil(alg.div(hi - lo, st))
        else: n = hi
        n = demote(n) if isinstance(n, S) else n
        if is_const(n): 
            r = array([lo + k * st for k in range(max(int(n), 0))])
            return cast(r, dtype) if dtype else r
        if WORLD().prove(n >= 0, quick=True)[0] != "proved":
            if not bool(n >= 0): return Arr(np.empty((0,), dtype=object), None, "i")
        A = axis_for(n)
        o = np.empty((1,), dtype=object); o[0] = lo + A.tok.idx * st
        r = Arr(o, (A,))
        return cast(r, dtype) if dtype else r
    if all(isinstance(x, int) for x in (lo, hi, st)): vals = list(range(lo, hi, st)); r = array(vals) if vals else Arr(np.empty((0,), dtype=object), None, "i")
    else:
        n = math.ceil(Fraction(hi - lo) / Fraction(st)); vals = [Fraction(lo + k * st) for k in range(max(n, 0))]
        r = array(vals)
    return cast(r, dtype) if dtype else r

@reg("linspace")
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    a, b = start, stop
    if retstep or axis != 0: raise Unsupported("linspace options")
    num = num.item() if isinstance(num, Arr) else num
    if isinstance(num, Fraction): raise TypeError("'float' object cannot be interpreted as an integer")
    a, b = A_(a), A_(b)
    if a.ndim or b.ndim:
        n = max(x.a.size for x in (a, b))
        if any(x.sym() or x.ndim > 1 or x.ndim == 1 and x.a.size != n for x in (a, b)): raise Unsupported("linspace of arrays")
        at = lambda x, i: x.a[i] if x.ndim else x.a[()]
        return TABLE["stack"]([linspace(at(a, i), at(b, i), num, endpoint) for i in range(n)], axis=1)
    a, b = a.a[()], b.a[()]
    a = Fraction(a) if is_const(a) else a; b = Fraction(b) if is_const(b) else b
    if isinstance(num, S):
        v = WORLD().int_value(num)
        if v is None:
            den = num - 1 if endpoint else num
            if endpoint and not logic.nonzero(num - 1): num = 1
            else:
                if WORLD().prove(num >= 0, quick=True)[0] != "proved": raise Unsupported("linspace with a possibly negative number")
                A = axis_for(num)
                o = np.empty((1,), dtype=object); o[0] = a + A.tok.idx * alg.div(b - a, den)
                return Arr(o, (A,), "f")
        else: num = v
    if num < 0: raise ValueError("Number of samples must be non-negative.")
    if num == 1 or num == 0: r = array([a][:num])
    else:
        den = num - 1 if endpoint else num
        r = array([a + (b - a) * Fraction(k, den) for k in range(num)])
    r.dt = "f"
    return r

class Join:
    """np.c_ / np.r_ with arrays"""
    def __init__(self, cols): self.cols = cols
    def __getitem__(self, xs):
        xs = xs if isinstance(xs, tuple) else (xs,)
        if any(isinstance(x, (slice, str)) for x in xs): raise Unsupported("np.r_ with slices")
        xs = [A_(x) for x in xs]
        if self.cols: return TABLE["column_stack"]([x if x.ndim else x.reshape((1,)) for x in xs])
        return TABLE["concatenate"]([x if x.ndim else x.reshape((1,)) for x in xs])
TABLE["c_"] = Join(True); TABLE["r_"] = Join(False)

@reg("meshgrid")
def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    if sparse: raise Unsupported("sparse meshgrid")
    xs = [A_(x) for x in xs]
    cols = []
    w = WORLD()
    for x in xs:
        if x.ndim > 1: x = x.ravel()
        if x.ndim == 0: x = Arr(x.a.reshape(1), None, x.dt)
        if x.ax[0] is not None:
            A0 = x.ax[0]
            if len(A0.toks) != 1: raise Unsupported("meshgrid of a composite axis")
            w.check_taint(A0.tok)
            nA = new_axis(A0.name + "g", A0.length, [])
            t = Tok(A0.tok.axis, A0.name + "g", [logic.subst_tok(f, A0.tok, None) if False else f for f in []])
            nA.toks = [t]; nA.tok = t
            for f in A0.tok.facts: t.facts.append(logic.subst_tok(f, A0.tok, t))
            x = Arr(map_core(x.a, lambda v: logic.subst_tok(v, A0.tok, t)), (nA,), x.dt)
        cols.append(x)
    nd = len(cols)
    order = list(range(nd))
    if indexing == "xy" and nd >= 2: order[0], order[1] = 1, 0
    shape = [cols[k].a.shape[0] for k in order]; ax = [cols[k].ax[0] for k in order]
    out = []
    for k in range(nd):
        pos = order.index(k)
        sh = [1] * nd; sh[pos] = cols[k].a.shape[0]
        core = np.broadcast_to(cols[k].a.reshape(sh), shape).copy()
        out.append(Arr(core, ax, cols[k].dt))
    return out

@reg("diag")
def diag(x, k=0):
    x = A_(x)
    if x.sym(): raise Unsupported("diag")
    if x.ndim == 1:
        n = x.a.shape[0] + abs(k)
        r = filled((n, n), 0, "float64" if x.dt == "f" else {"i": "int64", "b": "bool", "O": "object"}[x.dt])
        for i in range(x.a.shape[0]): r.a[(i, i + k) if k >= 0 else (i - k, i)] = x.a[i]
        return r
    d = np.diagonal(x.a, k)
    return Arr(d.copy(), None, x.dt)
TABLE["diagonal"] = lambda x, offset=0: diag(x, offset)

# ------------------------------------------------------------------------------------------------ joining
def _items(xs):
    if isinstance(xs, Arr): return [xs[i] for i in range(len(xs))]
    if isinstance(xs, SymSeq): raise Unsupported("joining a symbolic sequence")
    return list(xs)
@reg("concatenate")
def concatenate(xs, axis=0, dtype=None):
    xs = [A_(x) for x in _items(xs)]
    if axis is None: xs = [x.ravel() for x in xs]; axis = 0
    return arr.concatenate(xs, axis)
@reg("vstack", "row_stack")
def vstack(xs, **k): return arr.concatenate([atleast_2d(x) for x in _items(xs)], 0)
@reg("hstack")
def hstack(xs, **k):
    xs = [atleast_1d(x) for x in _items(xs)]
    return arr.concatenate(xs, 0 if xs[0].ndim == 1 else 1)
@reg("column_stack")
def column_stack(xs):
    out = []
    for x in _items(xs):
        x = A_(x)
        if x.ndim < 2: x = Arr(x.a.reshape(-1, 1), tuple(x.ax) + (None,), x.dt)
        out.append(x)
    return arr.concatenate(out, 1)
@reg("stack")
def stack(xs, axis=0):
    xs = [A_(x) for x in _items(xs)]
    nd = xs[0].ndim + 1
    axis = axis % nd
    return arr.concatenate([arr.expand_dims(x, axis) for x in xs], axis)
@reg("append")
def append(x, v, axis=None):
    if axis is None: return arr.concatenate([A_(x).ravel(), A_(v).ravel()], 0)
    return arr.concatenate([A_(x), A_(v)], axis)
@reg("block")
def block(b):
    def depth(x): return 1 + depth(x[0]) if isinstance(x, list) else 0
    D = depth(b)
    def rec(x, d):
        if not isinstance(x, list):
            return atleast_nd(A_(x), max(D, 1))
        parts = [rec(e, d + 1) for e in x]
        return arr.concatenate(parts, d - D)
    return rec(b, 0)
def atleast_nd(x, n):
    while x.ndim < n: x = Arr(x.a[None], (None,) + x.ax, x.dt)
    return x
@reg("bmat")
def bmat(b): return block(b)
@reg("expand_dims")
def expand_dims(x, axis): return arr.expand_dims(x, axis)
@reg("squeeze")
def squeeze(x, axis=None): return unwrap0(arr.squeeze(x, axis))
@reg("reshape")
def reshape(x, shape=None, order="C", newshape=None, **k):
    if order != "C": raise Unsupported("reshape order")
    return arr.reshape(x, shape if shape is not None else newshape)
@reg("ravel")
def ravel(x, order="C"): return A_(x).ravel()
@reg("transpose")
def transpose(x, axes=None): return A_(x).transpose(*(axes or ()))
@reg("shape")
def shape(x): return A_(x).shape
@reg("ndim")
def ndim(x): return A_(x).ndim
@reg("size")
def size(x, axis=None): return A_(x).size if axis is None else A_(x).shape[axis]
@reg("isscalar")
def isscalar(x): return (is_scalar(x) and not isinstance(x, Arr)) or isinstance(x, str)

# ------------------------------------------------------------------------------------------------ elementwise
def ew(f, dt=None):
    def g(*xs, out=None, where=True, dtype=None, **kw):
        if where is not True: raise Unsupported("ufunc where")
        r = elementwise(f, *[A_(x) for x in xs], dt=dt)
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            out[...] = r
            return out
        return r
    return g
TABLE["add"] = ew(arr.add_); TABLE["subtract"] = ew(arr.sub_); TABLE["multiply"] = ew(arr.mul_)
TABLE["power"] = ew(arr.pow_); TABLE["float_power"] = ew(arr.pow_); TABLE["negative"] = ew(lambda x: -to_num(x))
TABLE["square"] = ew(lambda x: to_num(x) * to_num(x))
def _sq(x):
    x = to_num(x)
    return logic.sqrt(x if not is_const(x) else Fraction(x))
TABLE["sqrt"] = ew(_sq, dt="f")
def _abs(x):
    x = to_num(x)
    return logic.absval(x) if isinstance(x, (S, Special)) else abs(x)
TABLE["abs"] = TABLE["absolute"] = TABLE["fabs"] = ew(_abs)
TABLE["maximum"] = TABLE["fmax"] = ew(lambda x, y: logic.smax(to_num(x), to_num(y)))
TABLE["minimum"] = TABLE["fmin"] = ew(lambda x, y: logic.smin(to_num(x), to_num(y)))
TABLE["ceil"] = ew(lambda x: Fraction(math.ceil(x)) if is_const(x) else logic.ceil(x))
TABLE["floor"] = ew(lambda x: Fraction(math.floor(x)) if is_const(x) else logic.floor(x))
def _sign(x):
    x = to_num(x)
    if is_const(x): return (x > 0) - (x < 0)
    return logic.ite(x > 0, 1, logic.ite(x < 0, -1, 0))
TABLE["sign"] = ew(_sign)
TABLE["reciprocal"] = ew(lambda x: arr.div_(1, x))
TABLE["conj"] = TABLE["conjugate"] = TABLE["real"] = lambda x: x
TABLE["iscomplexobj"] = lambda x: False
TABLE["isrealobj"] = lambda x: True
TABLE["logical_and"] = ew(lambda x, y: And(tob(x), tob(y)), dt="b")
TABLE["logical_or"] = ew(lambda x, y: Or(tob(x), tob(y)), dt="b")
TABLE["logical_not"] = ew(lambda x: Not(tob(x)), dt="b")
TABLE["logical_xor"] = ew(lambda x, y: Not(Iff(tob(x), tob(y))), dt="b")
TABLE["bitwise_and"] = ew(arr.and_); TABLE["bitwise_or"] = ew(arr.or_); TABLE["invert"] = TABLE["bitwise_not"] = ew(arr.invert_)
TABLE["equal"] = ew(arr.eq_, dt="b"); TABLE["not_equal"] = ew(lambda x, y: Not(arr.eq_(x, y)), dt="b")
TABLE["less"] = ew(arr.lt_, dt="b"); TABLE["less_equal"] = ew(arr.le_, dt="b")
TABLE["greater"] = ew(lambda x, y: arr.lt_(y, x), dt="b"); TABLE["greater_equal"] = ew(lambda x, y: arr.le_(y, x), dt="b")
def _finite(x):
    if isinstance(x, Special):
        return False
    return True
TABLE["isfinite"] = ew(_finite, dt="b")
TABLE["isinf"] = ew(lambda x: isinstance(x, Special) and x.kind != "undef", dt="b")
TABLE["isnan"] = ew(lambda x: isinstance(x, Special) and x.kind == "undef", dt="b")
TABLE["rint"] = TABLE["round"] = TABLE["around"] = ew(lambda x: x if isinstance(x, int) else _uns("round"))
TABLE["nan_to_num"] = lambda x, **k: _uns("nan_to_num")
def _uns(m): raise Unsupported(m)
for _n in "sin cos tan arcsin arccos arctan arctan2 exp log log2 log10 log1p expm1 hypot cbrt deg2rad rad2deg degrees radians sinh cosh tanh".split():
    TABLE[_n] = (lambda n: lambda *a, **k: _uns("np." + n))(_n)
TABLE["hypot"] = ew(lambda x, y: logic.sqrt(to_num(x) * to_num(x) + to_num(y) * to_num(y)))
TABLE["clip"] = lambda x, lo, hi, **k: elementwise(lambda v, l, h: logic.smin(logic.smax(to_num(v), to_num(l)), to_num(h)), A_(x), A_(lo), A_(hi))

@reg("divide", "true_divide")
def divide(x, y, out=None, where=True, **k):
    x, y = A_(x), A_(y)
    if where is True:
        r = elementwise(arr.div_, x, y, dt="f")
        if out is not None:
            out[...] = r; return out
        return r
    m = A_(where)
    base = out if out is not None else full_like(elementwise(lambda a, b: Fraction(0), x, y), UNDEF, "float64")
    def f(a, b, c, o):
        c = tob(c)
        if isinstance(c, B):
            if WORLD().scope_toks and False: pass
            c = bool(c)
        return arr.div_(a, b) if c else o
    r = elementwise(f, x, y, m, base, dt="f")
    if out is not None:
        if out.dt == "i": raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64')")
        out[...] = r
        return out
    return r

@reg("where")
def where(c, x=None, y=None):
    c = A_(c)
    if x is None: return arr.nonzero(c)
    return elementwise(lambda cc, a, b: logic.ite(tob(cc), a, b) if is_scalar(a) else (a if bool(tob(cc)) else b), c, A_(x), A_(y))

def _isclose(a, b, rtol, atol):
    a, b = to_num(a), to_num(b)
    if isinstance(a, Special) or isinstance(b, Special):
        if isinstance(a, Special) and isinstance(b, Special): return a.kind == b.kind != "undef"
        return False
    rhs = atol + rtol * (logic.absval(b) if isinstance(b, S) else abs(b)) if not (is_const(rtol) and rtol == 0) else atol
    d = a - b
    if is_const(d): return (abs(d) <= rhs) if is_const(rhs) else logic.cmp("le", abs(d), rhs)
    return And(logic.cmp("le", d, rhs), logic.cmp("le", -d, rhs))
@reg("isclose")
def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    return elementwise(_isclose, A_(a), A_(b), A_(rtol), A_(atol), dt="b")
@reg("allclose")
def allclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
    return all_(isclose(a, b, rtol, atol))
@reg("array_equal")
def array_equal(a, b, **k):
    a, b = A_(a), A_(b)
    if a.ndim != b.ndim: return False
    for m, n in zip(a.shape, b.shape):
        if not arr.provably_eq(m, n):
            if not bool(arr.eq_(m, n)): return False
    return all_(elementwise(arr.eq_, a, b, dt="b"))
@reg("array_equiv")
def array_equiv(a, b): return all_(elementwise(arr.eq_, A_(a), A_(b), dt="b"))

# ------------------------------------------------------------------------------------------------ reductions
def red(op):
    def f(x, axis=None, keepdims=False, dtype=None, out=None, where=True, initial=None, **k):
        if where is not True or out is not None: raise Unsupported("reduction options")
        if isinstance(x, SymSeq): x = array(x)
        x = A_(x)
        if dtype is not None: x = cast(x, dtype)
        if initial is not None and op in ("min", "max") : raise Unsupported("initial")
        r = reduce_(x, op, axis, bool(keepdims))
        if initial is not None: r = r + initial
        return r
    return f
sum_ = TABLE["sum"] = red("sum"); TABLE["nansum"] = red("sum")
all_ = TABLE["all"] = TABLE["alltrue"] = red("all"); any_ = TABLE["any"] = TABLE["sometrue"] = red("any")
TABLE["prod"] = TABLE["product"] = red("prod")
min_ = TABLE["min"] = TABLE["amin"] = red("min"); max_ = TABLE["max"] = TABLE["amax"] = red("max")
TABLE["ptp"] = lambda x, axis=None: max_(x, axis=axis) - min_(x, axis=axis)
@reg("mean", "average")
def mean(x, axis=None, keepdims=False, weights=None, **k):
    if weights is not None: raise Unsupported("weights")
    x = A_(x)
    s = reduce_(x, "sum", axis, keepdims)
    n = x.size if axis is None else x.shape[axis]
    return arr.div_(s, n) if is_scalar(s) else s / n
@reg("cumsum")
def cumsum(x, axis=None, **k): return arr.cumsum(x, axis)
@reg("cumprod")
def cumprod(x, axis=None, **k): raise Unsupported("cumprod")
@reg("count_nonzero")
def count_nonzero(x, axis=None, **k):
    x = A_(x)
    return reduce_(elementwise(lambda v: tob(v) if isinstance(v, (bool, B)) else (Not(logic.cmp("eq", v, 0)) if isinstance(v, S) else v != 0), x, dt="b"), "sum", axis)
@reg("argmax")
def argmax(x, axis=None): return arr.argmax(x, axis)
@reg("argmin")
def argmin(x, axis=None): return arr.argmax(-A_(x), axis)
@reg("nonzero")
def nonzero(x): return arr.nonzero(x)
@reg("flatnonzero")
def flatnonzero(x): return arr.nonzero(A_(x).ravel())[0]
@reg("argwhere")
def argwhere(x): return stack(arr.nonzero(x), axis=1)
@reg("trace")
def trace(x, offset=0, axis1=0, axis2=1):
    x = A_(x)
    if x.ndim != 2 or offset: raise Unsupported("trace options")
    return x.trace()
@reg("sort")
def sort(x, axis=-1, **k):
    x = A_(x)
    if x.ndim != 1 or x.sym(): raise Unsupported("sort")
    l = list(x.a)
    for i in range(1, len(l)):
        j = i
        while j > 0 and bool(arr.lt_(l[j], l[j - 1])): l[j], l[j - 1] = l[j - 1], l[j]; j -= 1
    return array(l)
@reg("argsort")
def argsort(x, axis=-1, **k):
    x = A_(x)
    if x.ndim != 1 or x.sym(): raise Unsupported("argsort")
    l = list(range(x.a.shape[0]))
    for i in range(1, len(l)):
        j = i
        while j > 0 and bool(arr.lt_(x.a[l[j]], x.a[l[j - 1]])): l[j], l[j - 1] = l[j - 1], l[j]; j -= 1
    return array(l)
@reg("unique")
def unique(x, **k): raise Unsupported("unique")

# ------------------------------------------------------------------------------------------------ products
@reg("matmul")
def matmul(x, y, **k): return arr.matmul(A_(x), A_(y))
@reg("dot")
def dot(x, y, **k): return arr.dot(x, y)
@reg("outer")
def outer(x, y, **k):
    x, y = A_(x).ravel(), A_(y).ravel()
    X = Arr(x.a[:, None], (x.ax[0], None), x.dt); Y = Arr(y.a[None, :], (None, y.ax[0]), y.dt)
    return elementwise(arr.mul_, X, Y)
@reg("inner")
def inner(x, y):
    x, y = A_(x), A_(y)
    if x.ndim == 1 and y.ndim == 1: return arr.matmul(x, y)
    raise Unsupported("inner")
@reg("vdot")
def vdot(x, y): return arr.matmul(A_(x).ravel(), A_(y).ravel())
@reg("cross")
def cross(x, y, axis=-1, **k):
    x, y = A_(x), A_(y)
    if axis != -1 or x.a.shape[-1] != 3 or y.a.shape[-1] != 3: raise Unsupported("cross")
    a = [x[..., i] for i in range(3)]; b = [y[..., i] for i in range(3)]
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return stack([A_(v) for v in c], axis=-1)
@reg("einsum")
def einsum(sub, *ops, **k):
    ops = [A_(o) for o in ops]
    sub = sub.replace(" ", "")
    if "..." in sub: raise Unsupported("einsum ellipsis")
    lhs, _, rhs = sub.partition("->")
    ins = lhs.split(",")
    if "->" not in sub: rhs = "".join(sorted(c for c in set(lhs) if c.isalpha() and lhs.count(c) == 1))
    dims = {}; axm = {}
    for t, o in zip(ins, ops):
        if len(t) != o.ndim: raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
        for c, n, A in zip(t, o.a.shape, o.ax):
            if c in dims:
                if axm[c] is not A:
                    if (axm[c] is None) != (A is None): raise Unsupported("einsum axes")
                    arr.unify_axis(axm[c], A)
                if dims[c] != n: raise ValueError("operands could not be broadcast together")
            dims[c] = n; axm[c] = A
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for ix in np.ndindex(*out.shape):
        env = dict(zip(rhs, ix)); tot = 0
        for jx in itertools.product(*[range(dims[c]) for c in summed]):
            e2 = dict(env); e2.update(zip(summed, jx))
            v = 1
            for t, o in zip(ins, ops): v = v * to_num(o.a[tuple(e2[c] for c in t)])
            tot = tot + v
        for c in summed:
            if axm[c] is not None: arr.all_rows(axm[c]); tot = logic.bigsum(axm[c], tot)
        out[ix] = tot
    return unwrap0(Arr(out, [axm[c] for c in rhs], None if out.size else "f"))
@reg("triu_indices")
def triu_indices(n, k=0, m=None): return wrap_real(np.triu_indices(_cint(n), k, m))
@reg("tril_indices")
def tril_indices(n, k=0, m=None): return wrap_real(np.tril_indices(_cint(n), k, m))
@reg("lexsort")
def lexsort(*a, **k): raise Unsupported("lexsort")
@reg("errstate")
def errstate(**k):
    import contextlib
    return contextlib.nullcontext()
TABLE["seterr"] = lambda **k: {}
@reg("apply_along_axis")
def apply_along_axis(*a, **k): raise Unsupported("apply_along_axis")
@reg("vectorize")
def vectorize(*a, **k): raise Unsupported("vectorize")
@reg("fromiter")
def fromiter(it, dtype=None, count=-1): return array(list(it), dtype)
@reg("set_printoptions")
def spo(*a, **k): pass

# ------------------------------------------------------------------------------------------------ linear algebra
class LinAlg:
    LinAlgError = np.linalg.LinAlgError
    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(np.linalg, n): raise AttributeError(n)
        raise Unsupported(f"np.linalg.{n}")
    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = A_(x)
        if ord is None or ord == 2 and (x.ndim == 1 or axis is not None) or ord == "fro":
            return elementwise(lambda v: logic.sqrt(to_num(v), nn=True), A_(reduce_(elementwise(lambda v: to_num(v) * to_num(v), x), "sum", axis, keepdims)), dt="f")   # a sum of squares
        if x.ndim == 1 or isinstance(axis, int):
            ab = elementwise(_abs, x)
            if is_const(ord) and ord == 1: return reduce_(ab, "sum", axis, keepdims)
            if isinstance(ord, Special): return reduce_(ab, "max" if ord.kind == "inf" else "min", axis, keepdims)
        raise Unsupported("norm order")
    def det(self, M): return det(sq(M))
    def inv(self, M):
        M = sq(M); n = M.a.shape[0]
        sp = spectral(M)
        if sp is not None:
            w, V = sp
            for x in w:
                if not logic.nonzero(x): raise np.linalg.LinAlgError("Singular matrix")
            return V @ diag(array([arr.div_(1, x) for x in w])) @ V.T
        if n > 4: raise Unsupported("inverse of a large matrix")
        d = det(M)
        if not logic.nonzero(d): raise np.linalg.LinAlgError("Singular matrix")
        di = arr.div_(1, d)
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = np.delete(np.delete(M.a, j, 0), i, 1)
                out[i, j] = det(Arr(m)) * (-1) ** (i + j) * di if n > 1 else di
        return Arr(out, None, "f")
    def solve(self, M, b):
        return self.inv(M) @ A_(b)
    def lstsq(self, M, b, rcond=None):
        M = A_(M); b = A_(b)
        if M.sym(): raise Unsupported("lstsq")
        if M.a.shape[0] == M.a.shape[1]:
            sp = spectral(M)
            if sp is not None:
                w, V = sp
                wi = [arr.div_(1, x) if logic.nonzero(x) else Fraction(0) for x in w]
                return (V @ diag(array(wi)) @ V.T @ b, UNDEF, len([x for x in wi if not (is_const(x) and x == 0)]), UNDEF)
            sv = svd_of(M)
            if sv is not None:
                U, w, V = sv
                wi = [arr.div_(1, x) if logic.nonzero(x) else Fraction(0) for x in w]
                return (V @ diag(array(wi)) @ U.T @ b, UNDEF, 0, UNDEF)
            if logic.nonzero(det(M)): return (self.inv(M) @ b, UNDEF, M.a.shape[0], UNDEF)
        raise Unsupported("lstsq of a singular matrix")
    def pinv(self, M, **k):
        M = sq(M)
        sp = spectral(M)
        if sp is None: raise Unsupported("pinv")
        w, V = sp
        return V @ diag(array([arr.div_(1, x) if logic.nonzero(x) else Fraction(0) for x in w])) @ V.T
    def eigh(self, M, UPLO="L"):
        M = sq(M)
        sp = spectral(M)
        if sp is None: raise Unsupported("eigh of a matrix without a known spectral form")
        w, V = sp
        return EighResult(array(list(w)), V.copy())
    def eigvalsh(self, M, UPLO="L"):
        M = sq(M)
        symmetric_or_unsupported(M)
        return eig_values(M, sorted_=True)
    def eigvals(self, M):
        M = sq(M)
        symmetric_or_unsupported(M)
        return eig_values(M, sorted_=False)
    def matrix_power(self, M, k):
        r = eye(sq(M).a.shape[0])
        for _ in range(k): r = r @ M
        return r
    def multi_dot(self, xs):
        r = xs[0]
        for x in xs[1:]: r = r @ x
        return r
    def matrix_rank(self, M, **k): raise Unsupported("matrix_rank")

class EighResult(tuple):
    def __new__(cls, w, V): return tuple.__new__(cls, (w, V))
    eigenvalues = property(lambda s: s[0]); eigenvectors = property(lambda s: s[1])

TABLE["linalg"] = LinAlg()

def sq(M):
    M = A_(M)
    if M.ndim != 2: raise np.linalg.LinAlgError("array must be at least two-dimensional")
    if M.sym(): raise Unsupported("linear algebra on symbolic dimensions")
    if M.a.shape[0] != M.a.shape[1]: raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return M

def det(M):
    a = M.a; n = a.shape[0]
    if n == 0: return 1
    if n == 1: return to_num(a[0, 0])
    if n == 2: return to_num(a[0, 0]) * to_num(a[1, 1]) - to_num(a[0, 1]) * to_num(a[1, 0])
    t = 0
    for j in range(n):
        c = to_num(a[0, j])
        if is_const(c) and c == 0: continue
        t = t + c * det(Arr(np.delete(a[1:], j, 1))) * (-1) ** j
    return t

def symmetric_or_unsupported(M):
    n = M.a.shape[0]
    for i in range(n):
        for j in range(i):
            d = M.a[i, j] - M.a[j, i]
            if not (alg.is_zero(d) if isinstance(d, S) else d == 0): raise Unsupported("eigenvalues of a matrix not known to be symmetric")

def lam_min(M):
    """smallest eigenvalue of a symmetric matrix, as a scalar; normalised so that shifts and scalings agree"""
    M = A_(M); n = M.a.shape[0]
    if n == 1: return to_num(M.a[0, 0])
    tr = 0
    for i in range(n): tr = tr + to_num(M.a[i, i])
    mu = arr.div_(tr, n)
    ent = []
    for i in range(n):
        for j in range(i, n):
            e = to_num(M.a[i, j]) - (mu if i == j else 0)
            e = demote(alg.lift(e)) if not isinstance(e, Special) else e
            if isinstance(e, Special): return UNDEF
            ent.append(e)
    if all(is_const(e) and e == 0 for e in ent): return mu
    # positive scaling: first non-zero coefficient gets absolute value one
    c = None
    for e in ent:
        if is_const(e):
            if e != 0: c = abs(Fraction(e)); break
        else: c = abs(Fraction(e.key()[0][1])); break
    ent = [e * (1 / c) for e in ent]
    key = tuple(e.key() if isinstance(e, S) else Fraction(e) for e in ent)
    toks = frozenset().union(*[alg.toks_of(e) for e in ent])
    a = alg.atom("lam", (n,) + key, f"lmin{n}[{','.join(map(repr, ent))}]", toks=toks, args=tuple(ent), facts=_lam_facts)
    return mu + alg.of_atom(a) * c

def lam_rebuild(A, sub):
    n = A.key[0]; o = np.empty((n, n), dtype=object); k = 0
    for i in range(n):
        for j in range(i, n):
            o[i, j] = o[j, i] = sub(A.args[k]) if isinstance(A.args[k], S) else A.args[k]
            k += 1
    return lam_min(Arr(o))

def _lam_facts(A):
    # trace-free: the smallest eigenvalue is at most every diagonal entry (hence <= 0)
    n = A.key[0]; l = alg.of_atom(A); k = 0; out = [l <= 0]
    ents = A.args
    for i in range(n):
        for j in range(i, n):
            if i == j:
                f = l <= ents[k]
                if f is not True: out.append(f)
            k += 1
    return out

def eig_values(M, sorted_):
    n = M.a.shape[0]
    lo = lam_min(M)
    hi = -lam_min(-M)
    w = WORLD()
    d = w.__dict__.setdefault("eigs", {})
    k = tuple(x.key() if isinstance(x, S) else x for x in M.a.flat) + (sorted_,)
    if k in d: return d[k].copy()
    if sorted_:
        mid = [alg.var(w.fresh("eig")) for _ in range(n - 2)]
        seq = [lo] + mid + ([hi] if n > 1 else [])
        for a, b in zip(seq, seq[1:]): w.add(tob(a <= b))
        r = array(seq)
    else:
        vs = [alg.var(w.fresh("eig")) for _ in range(n)]
        for v in vs: w.add(tob(v >= lo)); w.add(tob(v <= hi))
        w.add(tob(Or(*[tob(logic.cmp("eq", v, lo)) for v in vs]))); w.add(tob(Or(*[tob(logic.cmp("eq", v, hi)) for v in vs])))
        r = array(vs)
    d[k] = r
    return r.copy()

def mkey(M): return tuple(x.key() if isinstance(x, S) else Fraction(to_num(x)) for x in M.a.flat)

def register_spectral(w, V):
    """ghost: a symmetric matrix with spectral form V diag(w) V^T is around"""
    WORLD().__dict__.setdefault("spectral", []).append((list(w), V))
def register_svd(U, w, V):
    WORLD().__dict__.setdefault("svd", []).append((U, list(w), V))

def spectral(M):
    """(w, V) with M = V diag(w) V^T when M is diagonal in a registered eigenbasis (or is itself diagonal)"""
    n = M.a.shape[0]
    regs = WORLD().__dict__.get("spectral", [])
    cands = [V for w, V in regs if V.a.shape == (n, n)] + [V for U, w, V in WORLD().__dict__.get("svd", []) if V.a.shape == (n, n)] + [eye(n)]
    for V in cands:
        D = V.T @ M @ V
        if all(_z(D.a[i, j]) for i in range(n) for j in range(n) if i != j):
            return [D.a[i, i] for i in range(n)], V
    return None
def svd_of(M):
    for U, w, V in WORLD().__dict__.get("svd", []):
        if U.a.shape == M.a.shape:
            D = U.T @ M @ V
            n = M.a.shape[0]
            if all(_z(D.a[i, j]) for i in range(n) for j in range(n) if i != j): return U, [D.a[i, i] for i in range(n)], V
    return None
def _z(x):
    x = to_num(x)
    if isinstance(x, Special): return False
    return alg.is_zero(x) if isinstance(x, S) else x == 0

# ------------------------------------------------------------------------------------------------ random
class Generator:
    """outcomes are universally quantified; two generators built from the same seed make the same draws"""
    def __init__(self, seedkey):
        self.seedkey = seedkey; self.k = 0
        self.log = []
    def _name(self, what, *args):
        key = (self.seedkey, self.k, what) + args
        self.k += 1
        d = WORLD().__dict__.setdefault("draws", {})
        return d, key
    def _draw(self, what, size, mk, *args):
        if size is None: shp = None
        else: shp = norm_shape(size)
        d, key = self._name(what, tuple(s.key() if isinstance(s, S) else s for s in shp) if shp is not None else None, *args)
        if key in d:
            r = d[key]
            return r.copy() if isinstance(r, Arr) else r
        nm = WORLD().fresh(what)
        if shp is None: r = mk(nm)
        else:
            ax, cs = axes_for(shp)
            toks = [A.tok for A in ax if A is not None]
            o = np.empty(cs, dtype=object)
            for i in np.ndindex(*cs):
                lab = nm + "[" + ",".join(str(v) for v, A in zip(i, ax) if A is None) + "]"
                o[i] = mk(lab, toks)
            r = Arr(o, ax, "f")
        d[key] = r
        return r.copy() if isinstance(r, Arr) else r
    def random(self, size=None, dtype=None, out=None): return self._draw("u", size, _mk_unit)
    random_sample = rand = random
    def uniform(self, low=0, high=1, size=None):
        if isinstance(low, Arr) or isinstance(high, Arr):
            low, high = A_(low), A_(high)
            if size is None: size = elementwise(lambda a, b: a, low, high).shape
        u = self._draw("u", size, _mk_unit)
        return low + (high - low) * u
    def normal(self, loc=0, scale=1, size=None):
        if (isinstance(loc, Arr) or isinstance(scale, Arr)) and size is None: raise Unsupported("normal with array parameters")
        z = self._draw("z", size, _mk_normal)
        return loc + scale * z
    def standard_normal(self, size=None, dtype=None, out=None): return self._draw("z", size, _mk_normal)
    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None: low, high = 0, low
        hi = high if endpoint else high - 1
        def mk(nm, toks=()):
            fam = Family(nm, sort="I", facts=lambda x, t: [f for f in (x >= low, x <= hi) if f is not True])
            return fam.at(toks)
        r = self._draw("k", size, mk, _ky(low), _ky(hi))
        return r
    def multinomial(self, n, pvals, size=None):
        if size is not None: raise Unsupported("multinomial size")
        p = A_(pvals)
        if p.sym() or p.ndim != 1: raise Unsupported("multinomial")
        w = WORLD()
        for x in p.a:
            if isinstance(x, Special): raise ValueError("pvals < 0, pvals > 1 or pvals contains NaNs")
        k = p.a.shape[0]
        d, key = self._name("multinomial", _ky(n), k)
        if key not in d:
            w.side("multinomial probabilities are non-negative", And(*[tob(logic.cmp("le", 0, x) if isinstance(x, S) else x >= 0) for x in p.a]))
            s = 0
            for x in p.a[:-1]: s = s + x
            w.side("multinomial probabilities sum to at most one", tob(logic.cmp("le", s, 1) if isinstance(s, S) else s <= 1))
            if is_const(n) and n == 1:          # exactly one outcome: a case split over which
                pos = [j for j, x in enumerate(p.a) if not (is_const(x) and x == 0)]
                which = alg.var(w.fresh("outcome"), sort="I", sign="nneg")
                w.add(tob(which < len(pos)))
                j = next((j for j in range(len(pos) - 1) if bool(which == j)), len(pos) - 1)
                d[key] = array([1 if i == pos[j] else 0 for i in range(k)])
                return d[key].copy()
            cs = [alg.var(w.fresh("count"), sort="I", sign="nneg") for _ in range(k - 1)]
            last = n
            for c in cs: last = last - c
            w.add(tob(last >= 0))
            for c, x in zip(cs + [last], p.a):
                if is_const(x) and x == 0: w.add(tob(logic.cmp("eq", c, 0)))
            d[key] = array(cs + [last])
        return d[key].copy()
    def shuffle(self, x, axis=0):
        if axis != 0: raise Unsupported("shuffle axis")
        if not isinstance(x, Arr): raise Unsupported("shuffle")
        self.k += 1
        if x.ax[0] is None:
            if x.a.shape[0] <= 1: return
            raise Unsupported("shuffle of a concrete number of rows")
        A = x.ax[0]
        N = new_axis(A.name + "~", A.length, A.toks)
        N.perm_of = A
        x.ax = (N,) + x.ax[1:]
    def permutation(self, x, axis=0):
        if not isinstance(x, Arr): raise Unsupported("permutation")
        y = x.copy(); self.shuffle(y); return y
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if not hasattr(np.random.Generator, n): raise AttributeError(n)
        raise Unsupported(f"Generator.{n}")

def _ky(x): return x.key() if isinstance(x, S) else x

def _mk_unit(nm, toks=()):
    # [0, 1) without the measure-zero outcome 0 (assumption A-RNG)
    return Family(nm, sign="pos", facts=lambda x, t: [x < 1]).at(toks)
def _mk_normal(nm, toks=()):
    return Family(nm, nz=True).at(toks)

class RandomMod:
    Generator = Generator
    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(np.random, n): raise AttributeError(n)
        raise Unsupported(f"np.random.{n} (global generator)")
    def default_rng(self, seed=None):
        if isinstance(seed, Generator): return seed
        w = WORLD()
        if seed is None:
            return Generator(("fresh", w.fresh("rng")))
        if isinstance(seed, (int, S)) or is_const(seed): return Generator(("seed", _ky(seed)))
        raise Unsupported("default_rng seed")
TABLE["random"] = RandomMod()
NP = NPMod()
