"""Arrays of exact scalars, possibly with dimensions of symbolic length.

`a` is an ordinary numpy object array whose size along a symbolic dimension is 1: it holds the generic element at the
symbolic index `axis.tok`, 0 <= tok < axis.length.  Views share storage exactly as numpy views do.
"""
from fractions import Fraction
import itertools, math
import numpy as np
from . import alg, logic
from .alg import S, Unsupported, is_num, is_const, demote
from .logic import (B, Special, And, Or, Not, Iff, Axis, Tok, WORLD, INF, UNDEF, subst_tok, forall, exists, bigsum, to_num, tob, exact)

def axis_for(length, name=None):
    """canonical axis of a given (symbolic) length: arrays on it are aligned by position"""
    w = WORLD()
    d = w.__dict__.setdefault("axes", {})
    k = length.key() if isinstance(length, S) else length
    if k not in d:
        A = Axis(name or f"N{len(d)}", length)
        A.toks = [A.tok]; A.canon = True
        d[k] = A
    return d[k]

def new_axis(name, length, toks):
    A = Axis(name, length)
    A.toks = list(toks); A.canon = False
    if toks: A.tok = toks[0]
    return A

def is_scalar(x):
    return isinstance(x, (bool, int, Fraction, S, B, Special, float, np.generic))

def norm_scalar(x):
    if isinstance(x, np.generic): x = x.item()
    if isinstance(x, float): return exact(x)
    return x

def kind_of(x):
    if isinstance(x, (bool, B)): return "b"
    if isinstance(x, int): return "i"
    if isinstance(x, (Fraction, Special)): return "f"
    if isinstance(x, S): return "i" if alg.sort_of(x) == "I" and all(alg.ATOMS[a].sort == "I" for a in x.atoms()) else "f"
    return "O"

def kind_join(ks):
    ks = set(ks)
    for k in "Ofib":
        if k in ks: return k
    return "f"

class Arr:
    __slots__ = ("a", "ax", "dt", "hook")
    __array_priority__ = 500
    __array_ufunc__ = None
    def __init__(self, a, ax=None, dt=None):
        self.a = a
        self.ax = tuple(ax) if ax is not None else (None,) * a.ndim
        self.dt = dt or kind_join(kind_of(x) for x in a.flat) if a.size else (dt or "f")
    # ---------------------------------------------------------------- basic attributes
    @property
    def shape(self): return tuple(n if x is None else x.length for n, x in zip(self.a.shape, self.ax))
    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self):
        r = 1
        for s in self.shape: r = r * s
        return r
    @property
    def T(self): return Arr(self.a.T, self.ax[::-1], self.dt)
    @property
    def dtype(self): return DType({"f": "float64", "i": "int64", "b": "bool", "O": "object"}[self.dt])
    @property
    def flat(self): return iter(self.flatten())
    @property
    def real(self): return self
    def sym(self): return any(x is not None for x in self.ax)
    def __repr__(self):
        return f"Arr{self.shape}({self.a.tolist()})"
    __str__ = __repr__
    def __format__(self, s): return repr(self)
    def __len__(self):
        if not self.a.ndim: raise TypeError("len() of unsized object")
        if self.ax[0] is not None: raise Unsupported("len() of a symbolic-length array")
        return self.a.shape[0]
    def __iter__(self):
        if not self.a.ndim: raise TypeError("iteration over a 0-d array")
        if self.ax[0] is not None: raise Unsupported("iteration over a symbolic-length array")
        return (self[i] for i in range(self.a.shape[0]))
    def __bool__(self):
        if self.sym(): 
            raise Unsupported("truth value of symbolic-length array")
        if self.a.size != 1: raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(tob(self.a.flat[0]))
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")
    def __index__(self):
        if self.a.size == 1 and not self.sym(): return logic.concretize_int(self.a.flat[0]) if isinstance(self.a.flat[0], S) else self.a.flat[0].__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")
    def __float__(self): raise Unsupported("float() of array")
    def item(self, *a):
        if a: return self.flatten()[a[0]]
        assert self.a.size == 1
        return self.a.flat[0]
    def tolist(self): 
        if self.sym(): raise Unsupported("tolist of symbolic-length array")
        return self.a.tolist()
    # ---------------------------------------------------------------- arithmetic
    def _bin(self, o, f, dt=None):
        o = coerce(o)
        if o is NotImplemented: return NotImplemented
        return elementwise(f, self, o, dt=dt)
    def _rbin(self, o, f, dt=None):
        o = coerce(o)
        if o is NotImplemented: return NotImplemented
        return elementwise(f, o, self, dt=dt)
    def __add__(self, o): return self._bin(o, add_)
    def __radd__(self, o): return self._rbin(o, add_)
    def __sub__(self, o): return self._bin(o, sub_)
    def __rsub__(self, o): return self._rbin(o, sub_)
    def __mul__(self, o): return self._bin(o, mul_)
    def __rmul__(self, o): return self._rbin(o, mul_)
    def __truediv__(self, o): return self._bin(o, div_, dt="f")
    def __rtruediv__(self, o): return self._rbin(o, div_, dt="f")
    def __floordiv__(self, o): return self._bin(o, lambda x, y: logic.floordiv(to_num(x), to_num(y)))
    def __mod__(self, o): return self._bin(o, lambda x, y: x % y)
    def __pow__(self, o): return self._bin(o, pow_)
    def __rpow__(self, o): return self._rbin(o, pow_)
    def __neg__(self): return elementwise(lambda x: -to_num(x), self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(lambda x: logic.absval(to_num(x)) if isinstance(x, (S, Special)) else abs(to_num(x)), self)
    def __matmul__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else matmul(self, o)
    def __rmatmul__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else matmul(o, self)
    def __eq__(self, o): return self._bin(o, eq_, dt="b")
    def __ne__(self, o): return self._bin(o, lambda x, y: Not(eq_(x, y)), dt="b")
    def __le__(self, o): return self._bin(o, lambda x, y: le_(x, y), dt="b")
    def __lt__(self, o): return self._bin(o, lambda x, y: lt_(x, y), dt="b")
    def __ge__(self, o): return self._bin(o, lambda x, y: le_(y, x), dt="b")
    def __gt__(self, o): return self._bin(o, lambda x, y: lt_(y, x), dt="b")
    def __and__(self, o): return self._bin(o, and_)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, or_)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda x, y: Not(Iff(tob(x), tob(y))))
    def __invert__(self): return elementwise(invert_, self)
    def _inplace(self, r):
        if r is NotImplemented: return r
        if r.shape != self.shape if not self.sym() else False: raise ValueError("non-broadcastable output operand")
        if self.dt in "ib" and r.dt == "f": raise TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
        if r.ax != self.ax: raise Unsupported("in-place update with different axes")
        self.a[...] = r.a
        return self
    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __ipow__(self, o): return self._inplace(self ** o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)
    def __imatmul__(self, o): return self._inplace(self @ o)
    # ---------------------------------------------------------------- methods
    def copy(self, order="C"): return Arr(self.a.copy(), self.ax, self.dt)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, t, copy=True): return cast(self, t)
    def all(self, axis=None, keepdims=False): return reduce_(self, "all", axis, keepdims)
    def any(self, axis=None, keepdims=False): return reduce_(self, "any", axis, keepdims)
    def sum(self, axis=None, keepdims=False, dtype=None): return reduce_(self, "sum", axis, keepdims)
    def prod(self, axis=None, keepdims=False): return reduce_(self, "prod", axis, keepdims)
    def min(self, axis=None, keepdims=False): return reduce_(self, "min", axis, keepdims)
    def max(self, axis=None, keepdims=False): return reduce_(self, "max", axis, keepdims)
    def mean(self, axis=None):
        s = self.sum(axis=axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n if not is_scalar(s) else alg.div(s, n)
    def trace(self):
        if self.sym(): raise Unsupported("trace")
        return scal(sum((self.a[i, i] for i in range(min(self.a.shape))), 0))
    def diagonal(self):
        if self.sym(): raise Unsupported("diagonal")
        return Arr(np.array([self.a[i, i] for i in range(min(self.a.shape))] + [None], dtype=object)[:-1])
    def dot(self, o): return dot(self, o)
    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], int): axes = axes[0]
        if not axes or axes is None: return self.T
        return Arr(self.a.transpose(axes), tuple(self.ax[i] for i in axes), self.dt)
    def swapaxes(self, i, j):
        ax = list(self.ax); ax[i], ax[j] = ax[j], ax[i]
        return Arr(self.a.swapaxes(i, j), ax, self.dt)
    def squeeze(self, axis=None): return squeeze(self, axis)
    def flatten(self, order="C"): return reshape(self, (-1,)).copy()
    def ravel(self, order="C"): return reshape(self, (-1,))
    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and not is_num(shape[0]): shape = tuple(shape[0])
        return reshape(self, shape)
    def cumsum(self, axis=None): return cumsum(self, axis)
    def argmax(self, axis=None): return argmax(self, axis)
    def argmin(self, axis=None): return argmax(-self, axis)
    def nonzero(self): return nonzero(self)
    def fill(self, v): self[...] = v
    def round(self, n=0): raise Unsupported("round")
    def clip(self, lo, hi): return elementwise(lambda x, l, h: logic.smin(logic.smax(x, l), h), self, coerce(lo), coerce(hi))
    def repeat(self, n, axis=None):
        if self.sym(): raise Unsupported("repeat")
        return Arr(self.a.repeat(n, axis))
    def conj(self): return self
    # ---------------------------------------------------------------- indexing
    def __getitem__(self, ix):
        bi = self._bool_ix(ix)
        if bi is not None:
            if bi: return Arr(self.a[None].copy(), (None,) + self.ax, self.dt)
            return Arr(np.empty((0,) + self.a.shape, dtype=object), (None,) + self.ax, self.dt)
        ix, core, ax, post = self._index(ix)
        r = core[ix]
        if not isinstance(r, np.ndarray):
            return scal(r)
        rax = self._result_axes(core, ax, ix)
        if len(rax) != r.ndim: raise Unsupported("indexing pattern")
        if r.ndim == 0: return scal(r.item())
        out = Arr(r, rax, self.dt)
        return out
    def _result_axes(self, core, ax, ix):
        """axes of core[ix]: index a same-shaped array of dimension markers"""
        if all(x is None for x in ax):
            probe = core[ix]
            return (None,) * probe.ndim
        # full-slice/None/int components map one to one; advanced components only on concrete dimensions
        comps = ix if isinstance(ix, tuple) else (ix,)
        adv = [c for c in comps if isinstance(c, np.ndarray)]
        out = []; d = 0; placed = False
        if adv:
            nadv = max(c.ndim if c.dtype != bool else 1 for c in adv)
            # advanced indices separated by slices would move to the front
            pos = [k for k, c in enumerate(comps) if isinstance(c, np.ndarray) or (isinstance(c, int) and not isinstance(c, bool))]
            if pos != list(range(pos[0], pos[0] + len(pos))): raise Unsupported("separated advanced indices")
        for c in comps:
            if c is None: out.append(None)
            elif isinstance(c, slice): out.append(ax[d]); d += 1
            elif isinstance(c, np.ndarray):
                if not placed: out.extend([None] * nadv); placed = True
                d += c.ndim if c.dtype == bool else 1
            else: d += 1
        out.extend(ax[d:])
        return tuple(out)
    def _norm_ix(self, ix):
        comps = list(ix) if isinstance(ix, tuple) else [ix]
        comps = [norm_ix_comp(c) for c in comps]
        n_used = sum((0 if c is None or c is Ellipsis else (c.ndim if isinstance(c, Arr) and c.dt == "b" else 1)) for c in comps)
        if any(c is Ellipsis for c in comps):
            k = [i for i, c in enumerate(comps) if c is Ellipsis][0]
            comps[k:k + 1] = [slice(None)] * (self.a.ndim - n_used)
        else:
            comps += [slice(None)] * (self.a.ndim - n_used)
        if n_used > self.a.ndim: raise IndexError("too many indices for array")
        return comps
    def _bool_ix(self, ix):
        """a scalar boolean index adds a leading dimension of length one or zero"""
        if isinstance(ix, Arr) and ix.ndim == 0: ix = ix.a[()]
        if isinstance(ix, (bool, B)): return bool(tob(ix))
        return None
    def _index(self, ix):
        """make every component concrete; symbolic dimensions are resolved by substitution"""
        comps = self._norm_ix(ix)
        core = self.a; ax = list(self.ax)
        out = []; d = 0
        for c in comps:
            if c is None: out.append(None); continue
            A = ax[d]
            if A is None:
                n = core.shape[d]
                if isinstance(c, slice): out.append(conc_slice(c, n)); d += 1
                elif isinstance(c, Arr):
                    if c.dt == "b":
                        if c.sym(): raise Unsupported("symbolic mask on a concrete dimension")
                        if c.shape != core.shape[d:d + c.ndim]: raise IndexError("boolean index did not match indexed array")
                        m = np.array([bool(tob(x)) for x in c.a.flat], dtype=bool).reshape(c.a.shape)
                        out.append(m); d += c.ndim
                    else:
                        if c.sym(): raise Unsupported("symbolic index array")
                        iv = np.array([conc_index(x, n) for x in c.a.flat], dtype=int).reshape(c.a.shape)
                        out.append(iv); d += 1
                else:
                    out.append(conc_index(c, n)); d += 1
            else:
                if isinstance(c, slice):
                    if is_full(c): out.append(slice(None)); d += 1
                    elif A.parts is not None:
                        lo, hi = slice_bounds(A, c)
                        r = cat_slice(Arr(core, ax, self.dt), d, lo, hi)
                        if r is None: raise Unsupported("slice across a block of a concatenation")
                        bl = part_blocks(Arr(core, ax, self.dt), d)[r[0]:r[1]]
                        if not bl: raise Unsupported("empty slice of a concatenation")
                        y = from_blocks(bl, d, [v for k_, v in enumerate(ax) if k_ != d], self.dt)
                        core = y.a; ax = list(y.ax)
                        out.append(slice(None)); d += 1
                    else:
                        core, ax[d] = slice_axis(core, A, c)
                        out.append(slice(None)); d += 1
                elif isinstance(c, Arr):
                    if c.dt == "b":
                        if c.ndim != 1 or c.ax[0] is not A: raise Unsupported("mask on a different axis")
                        if tob(c.a.flat[0]) is False:
                            core = np.take(core, [], axis=d); ax[d] = None
                        else: core, ax[d] = mask_axis(core, A, c)
                        out.append(slice(None)); d += 1
                    elif c.ndim == 1 and c.ax[0] is not None and self.ndim:
                        NA, e = c.ax[0], c.a[0]
                        t_ = logic._as_tok(e)
                        if not isinstance(t_, Tok) or t_.axis is not A.tok.axis or A.parts is not None or A.src is not None: raise Unsupported("gather on a symbolic axis")
                        WORLD().check_taint(A.tok)
                        core = map_core(core, lambda x: subst_tok(x, A.tok, t_)); ax[d] = NA
                        out.append(slice(None)); d += 1
                    else: raise Unsupported("gather on a symbolic axis")
                else:
                    core = pick_axis(core, A, c)
                    out.append(0); d += 1
        return tuple(out), core, ax, None
    def __setitem__(self, ix, val):
        bi = self._bool_ix(ix)
        if bi is not None:
            if not bi: return
            ix = Ellipsis
        comps = self._norm_ix(ix)
        if self._cat_write(comps, val): return
        d = 0; out = []; guards = []; val_sub = []
        for c in comps:
            if c is None: out.append(None); continue
            A = self.ax[d]
            if A is None:
                n = self.a.shape[d]
                if isinstance(c, slice): out.append(conc_slice(c, n)); d += 1
                elif isinstance(c, Arr):
                    if c.dt == "b":
                        if c.sym(): raise Unsupported("symbolic mask on concrete dimension")
                        m = np.array([bool(tob(x)) for x in c.a.flat], dtype=bool).reshape(c.a.shape)
                        out.append(m); d += c.ndim
                    else:
                        iv = np.array([conc_index(x, n) for x in c.a.flat], dtype=int).reshape(c.a.shape)
                        out.append(iv); d += 1
                else: out.append(conc_index(c, n)); d += 1
            else:
                if isinstance(c, slice):
                    if is_full(c): out.append(slice(None)); val_sub.append((A, None))
                    else:
                        lo, hi = slice_bounds(A, c)
                        guards.append(And(A.tok.idx >= lo, A.tok.idx < hi))
                        out.append(slice(None)); val_sub.append((A, (lo, hi)))
                    d += 1
                elif isinstance(c, Arr) and c.dt == "b":
                    if c.ndim != 1 or c.ax[0] is not A: raise Unsupported("mask on a different axis")
                    guards.append(tob(c.a.flat[0])); out.append(slice(None)); val_sub.append((A, c)); d += 1
                elif isinstance(c, Arr):
                    if self._scatter(c, A, comps, val): return
                    raise Unsupported("scatter on a symbolic axis")
                else:
                    guards.append(tob(A.tok.idx == c)); out.append(0); d += 1
        g = And(*guards) if guards else True
        if not isinstance(g, bool):
            self.check_write(g)
            if len(WORLD().scope_toks): raise Unsupported("conditional write inside a generic iteration")
            g = bool(g)          # case split on the generic index
        if not g: return
        ix = tuple(out)
        tgt = self.a[ix]
        tax = self._result_axes(self.a, list(self.ax), ix) if isinstance(tgt, np.ndarray) else ()
        v = coerce(val)
        if v is NotImplemented:
            if self.dt != "O": raise Unsupported(f"assigning {type(val)}")
            v = obj0(val)
        # align value axes with the target axes
        if v.ndim > len(tax):
            if all((n == 1) for n in v.a.shape[: v.ndim - len(tax)]) and all(x is None for x in v.ax[: v.ndim - len(tax)]):
                v = Arr(v.a.reshape(v.a.shape[v.ndim - len(tax):]), v.ax[v.ndim - len(tax):], v.dt)
            else: raise ValueError("could not broadcast input array")
        if v.ndim and v.ax[0] is not None and tax[len(tax) - v.ndim] is None and not any(A is not None for A in v.ax[1:]):
            # symbolic many rows into a known number of places: there must be as many (or one)
            m = tgt.shape[len(tax) - v.ndim]
            if bool(logic.cmp("eq", v.ax[0].length, m)): v = array([v[j] for j in range(m)]) if m else Arr(np.empty((0,) + v.a.shape[1:], dtype=object), None, v.dt)
            elif bool(logic.cmp("eq", v.ax[0].length, 1)): v = v[0]
            else: raise ValueError("could not broadcast input array from shape")
        va = v.a
        off = len(tax) - v.ndim
        for k in range(v.ndim):
            VA, TA = v.ax[k], tax[off + k]
            if VA is None:
                if TA is None:
                    if va.shape[k] not in (1, tgt.shape[off + k]): raise ValueError("could not broadcast input array from shape")
                elif va.shape[k] != 1: raise Unsupported("assigning concrete rows to a symbolic axis")
                continue
            if TA is None: raise Unsupported("assigning symbolic rows to a concrete axis")
            sub = next((s for A_, s in val_sub if A_ is TA), None)
            if sub is None:
                if VA is not TA: raise Unsupported("axis mismatch in assignment")
            elif isinstance(sub, tuple):
                lo, hi = sub
                ln = hi - lo
                if not provably_eq(VA.length, ln): raise_or_unsupported_len(VA.length, ln)
                idx = TA.tok.idx - lo
                va = map_core(va, lambda x: sub_axis(x, VA, idx))
            else:
                ma = mask_axis_cached(TA, sub)
                if ma is None or VA is not ma[0]: raise Unsupported("masked assignment of unrelated rows")
                # element at the masked position: undo the renaming
                for t_new, t_old in ma[1]: va = map_core(va, lambda x: subst_tok(x, t_new, t_old))
        if self.dt == "i" and v.dt == "f" or self.dt == "b" and v.dt in "if":
            # numpy would truncate
            if self.dt == "i" and all(is_const(x) and Fraction(x).denominator == 1 for x in va.flat):
                va = map_core(va, lambda x: int(x))
            else:
                va = map_core(va, lambda x: UNDEF if not is_const(x) else (int(x) if self.dt == "i" else x != 0))
        if v.dt == "O" and self.dt in "fi" and any(not is_scalar(x) for x in va.flat): raise Unsupported("object into numeric array")
        if isinstance(tgt, np.ndarray): self.a[ix] = va
        else: self.a[ix] = va.item() if isinstance(va, np.ndarray) else va
    def check_write(self, g): pass
    def _scatter(self, c, A, comps, val):
        """x[selected indices] = constant"""
        if self.ndim != 1 or len(comps) != 1 or c.ndim != 1 or c.ax[0] is None or not is_scalar(val): return False
        NA = c.ax[0]; t_ = logic._as_tok(c.a[0])
        if NA.src is None or NA.src[0] is not A or t_ is not NA.tok: return False
        WORLD().check_taint(A.tok)
        b = NA.src[1]; old = self.a[0]; v = norm_scalar(val)
        if self.dt == "b": self.a[0] = Or(And(b, tob(v)), And(Not(b), tob(old)))
        else: self.a[0] = logic.ite(b, to_num(v), to_num(old))
        return True
    def _cat_write(self, comps, val):
        """writing a leading block of rows turns the axis into a concatenation"""
        if len(comps) != self.ndim or any(c is None for c in comps) or not self.ndim: return False
        A, c = self.ax[0], comps[0]
        if A is None or not isinstance(c, slice) or is_full(c) or any(x is not None for x in self.ax[1:]): return False
        w = WORLD()
        if A.parts is None and not w.__dict__.get("cat_writes"): return False
        lo, hi = slice_bounds(A, c)
        if (is_const(lo) and lo == 0 and provably_eq(hi, A.length)):
            self[(slice(None),) + tuple(comps[1:])] = val
            return True
        if A.parts is None:
            if self.a.base is not None: raise Unsupported("writing rows through a view")
            if any(t.id in (x.toks() if isinstance(x, B) else alg.toks_of(x) if isinstance(x, S) else ()) for x in self.a.flat for t in A.toks): raise Unsupported("writing a block of rows of a generic array")
            cut = hi if is_const(lo) and lo == 0 else lo if provably_eq(hi, A.length) else None
            if cut is None: raise Unsupported("writing an inner block of rows")
            if w.prove(And(tob(logic.cmp("le", 0, cut)), tob(logic.cmp("le", cut, A.length))), quick=True)[0] != "proved": raise Unsupported("block bounds not provably in range")
            parts = []
            for n in (cut, A.length - cut):
                parts.extend([None] * int(n) if is_const(n) else [(lambda P: (P, P.tok))(row_axis(n))])
            bl = [(p, self.a[0, ...]) for p in parts]
        else: bl = part_blocks(self, 0)
        y = from_blocks(bl, 0, self.ax[1:], self.dt)
        self.a = y.a; self.ax = y.ax
        r = cat_slice(self, 0, lo, hi)
        if r is None: raise Unsupported("writing across a block of a concatenation")
        bl = part_blocks(self, 0)
        if r[1] - r[0] > 1 and isinstance(coerce(val), Arr) and coerce(val).ndim >= self.ndim: 
            vb = part_blocks(coerce(val), 0)
            if [p for p, _ in vb] != [p for p, _ in bl[r[0]:r[1]]]: raise Unsupported("block mismatch in assignment")
        else: vb = None
        new = list(bl)
        for n_, k in enumerate(range(*r)):
            p, cells = bl[k]
            if p is not None: row = Arr(cells[None, ...].copy(), (p[0],) + tuple(self.ax[1:]), self.dt)
            else: row = Arr(cells[None, ...].copy(), None, self.dt)
            v = val
            if vb is not None: v = Arr(vb[n_][1][None, ...], row.ax, self.dt)
            if p is None and isinstance(v, Arr) and v.ndim >= self.ndim and v.a.shape[0] != 1: raise Unsupported("rows of a block")
            row[(slice(None),) + tuple(comps[1:])] = v
            new[k] = (p, row.a[0, ...])
        y = from_blocks(new, 0, self.ax[1:], self.dt)
        self.a = y.a; self.ax = y.ax
        return True

class DType:
    def __init__(self, n): self.name = n; self.kind = {"float64": "f", "int64": "i", "bool": "b", "object": "O"}[n]
    def __eq__(self, o):
        return dt_of(o) == self.kind
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    def __repr__(self): return f"dtype('{self.name}')"

def dt_of(t):
    if t is None: return None
    if isinstance(t, DType): return t.kind
    n = getattr(t, "__name__", str(t))
    if "int" in n: return "i"
    if "bool" in n: return "b"
    if "object" in n or n == "O": return "O"
    return "f"

def cast(x, t):
    k = dt_of(t)
    def f(v):
        if isinstance(v, Special): return v
        if k == "b": return tob(v) if isinstance(v, (bool, B)) else Not(logic.cmp("eq", v, 0)) if isinstance(v, S) else v != 0
        if k == "i":
            v = to_num(v)
            if is_const(v): return int(v)
            if alg.sort_of(v) == "I": return v
            fl = logic.floor(v)
            if WORLD().prove(v >= 0, quick=True)[0] == "proved": return fl
            raise Unsupported("int cast of a possibly negative number")
        if k == "f":
            v = to_num(v)
            return Fraction(v) if isinstance(v, int) else v
        return v
    if isinstance(x, Arr): return Arr(map_core(x.a, f), x.ax, k)
    return f(x)

def norm_ix_comp(c):
    if c is None or c is Ellipsis or isinstance(c, (slice, Arr)): return c
    if isinstance(c, (bool, B)): raise Unsupported("scalar boolean index")
    if isinstance(c, (list, np.ndarray, range)): return array(c)
    if isinstance(c, tuple): return array(list(c))
    if isinstance(c, Fraction): raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    return norm_scalar(c)

def conc_index(c, n):
    if isinstance(c, S):
        for k in range(n):
            if bool(logic.cmp("eq", c, k)): return k
        for k in range(1, n + 1):
            if bool(logic.cmp("eq", c, -k)): return -k
        raise IndexError("index out of bounds")
    if isinstance(c, Fraction): raise IndexError("only integers are valid indices")
    return int(c)

def conc_slice(c, n):
    def f(x):
        if x is None: return None
        if isinstance(x, S):
            # symbolic bound on a concrete dimension: decide it
            v = WORLD().int_value(x)
            if v is not None: return v
            for k in range(n + 1):
                if bool(logic.cmp("eq", x, k)): return k
            raise Unsupported("symbolic slice bound out of range")
        if isinstance(x, Arr): return x.__index__()
        if isinstance(x, Fraction): raise TypeError("slice indices must be integers or None or have an __index__ method")
        return int(x)
    return slice(f(c.start), f(c.stop), f(c.step))

def is_full(c): return c.start is None and c.stop is None and c.step is None

def slice_bounds(A, c):
    if c.step not in (None, 1): raise Unsupported("strided symbolic slice")
    def f(x, default):
        if x is None: return default
        if isinstance(x, Arr): x = x.item()
        if isinstance(x, Fraction): raise TypeError("slice indices must be integers or None or have an __index__ method")
        if isinstance(x, int) and x < 0: x = A.length + x
        if isinstance(x, S):
            if not bool(tob(x >= 0)): 
                x = A.length + x
                if not bool(tob(x >= 0)): return 0
        if isinstance(x, S) or isinstance(A.length, S):
            if x is not A.length and not bool(tob(logic.cmp("le", x, A.length))): return A.length
        return x
    lo, hi = f(c.start, 0), f(c.stop, A.length)
    return lo, hi

def provably_eq(a, b):
    f = logic.cmp("eq", a, b) if isinstance(a, S) or isinstance(b, S) else a == b
    if isinstance(f, bool): return f
    return WORLD().prove(f, quick=True)[0] == "proved"

def raise_or_unsupported_len(a, b):
    f = logic.cmp("eq", a, b) if isinstance(a, S) or isinstance(b, S) else a == b
    # fork: on the unequal branch numpy raises
    if bool(f): return
    raise ValueError(f"could not broadcast: lengths {a!r} and {b!r}")

def selection(A, new):
    """[(token, its value)] at position `new` of a filtered axis"""
    if not hasattr(A, "sel"):
        toks = list(A.toks)
        fams = [logic.Family(f"sel[{A.name}]", sort="I", sign="nneg") for _ in toks]
        def facts(k):
            def f(e, tk):
                vals = [F.at(tk) for F in fams]
                out = [] if toks[k].axis is None else [vals[k] < toks[k].axis.length]
                for g in toks[k].facts:
                    for t_, v in zip(toks, vals): g = subst_tok(g, t_, v)
                    out.append(g)
                return [g for g in out if g is not True]
            return f
        for k, F in enumerate(fams): F.facts = facts(k)
        A.sel = fams
    return [(t_, F.at([new])) for t_, F in zip(A.toks, A.sel)]

def sub_axis(x, A, new):
    if getattr(A, "src", None) is not None:
        for t_ in A.toks: WORLD().check_taint(t_)
        for t_, v in selection(A, new): x = subst_tok(x, t_, v)
        return x
    if len(A.toks) != 1: raise Unsupported("index into a composite axis")
    WORLD().check_taint(A.tok)
    return subst_tok(x, A.tok, new)

def map_core(a, f):
    out = np.empty(a.shape, dtype=object)
    for i, x in np.ndenumerate(a): out[i] = f(x)
    return out

def slice_axis(core, A, c):
    lo, hi = slice_bounds(A, c)
    if is_const(lo) and lo == 0 and provably_eq(hi, A.length): return core, A
    w = WORLD()
    ok = w.prove(And(tob(lo <= hi) if not isinstance(lo <= hi, bool) else (lo <= hi), tob(hi <= A.length)), quick=True)[0] == "proved"
    if not ok: raise Unsupported("slice bounds not provably in range")
    ln = hi - lo
    NA = axis_for(ln) if isinstance(ln, S) else None
    if NA is None: raise Unsupported("constant-length slice of a symbolic axis")
    return map_core(core, lambda x: sub_axis(x, A, NA.tok.idx + lo if not (is_const(lo) and lo == 0) else NA.tok)), NA

def filter_seq(A, m, e):
    """items of a generic sequence at which the mask holds"""
    box = np.empty(1, dtype=object); box[0] = 0
    _, NA = mask_axis(box, A, m)
    if NA is A: return A, e
    for n, t in zip(NA.toks, A.toks): e = subst_obj(e, t, n)
    return NA, e

def mask_axis_cached(A, m):
    d = WORLD().__dict__.setdefault("masks", {})
    b = tob(m.a.flat[0])
    if isinstance(b, bool): return None
    return d.get((A.id, b.key()))

def mask_axis(core, A, m):
    w = WORLD()
    b = tob(m.a.flat[0])
    if b is True: return core, A
    d = w.__dict__.setdefault("masks", {})
    k = (A.id, b.key() if isinstance(b, B) else b)
    if k not in d:
        for t in A.toks: w.check_taint(t)
        cnt = count_of(A, b)
        nt = [Tok(t.axis, t.axis.name + "m") for t in A.toks]
        fb = b
        for t, n in zip(A.toks, nt): fb = subst_tok(fb, t, n)
        for t, n in zip(A.toks, nt):
            for f in t.facts: n.facts.append(subst_tok(f, t, n))
        if nt: nt[0].facts.append(fb)
        if nt:
            if A.toks[0].mask is not None:
                m0 = A.toks[0].mask
                for t, n in zip(A.toks, nt): m0 = subst_tok(m0, t, n)
                fb = And(m0, fb)
            nt[0].mask = fb
        NA = new_axis(A.name + "|mask", cnt, nt)
        NA.src = (A, b, cnt)
        register_axis(NA)
        d[k] = (NA, list(zip(nt, A.toks)))
        cd = w.__dict__.setdefault("counts", {})
        cd[k] = cnt
    NA, pairs = d[k]
    def f(x):
        for n, t in pairs: x = subst_tok(x, t, n)
        return x
    return map_core(core, f), NA

def count_of(A, b):
    """number of indices of the axis at which b holds"""
    none = None
    if not any(t.id in WORLD().tainted for t in A.toks):
        none = Not(b)
        for t in A.toks: none = forall_axis(t, A, none)
    def facts(at):
        n = alg.of_atom(at)
        out = [logic.tob(n <= A.length)]
        if none is not None:      # the count is zero exactly when no index is selected
            z = logic.cmp("le", n, 0)
            out += [Or(Not(z), none), Or(z, Not(none))]
        return [f for f in out if f is not True]
    return alg.var(f"count[{A.name}:{hash(b.key()) % 9973}]", sort="I", sign="nneg", key=("count", A.id, b.key()), facts=facts)

def pick_axis(core, A, c):
    if isinstance(c, int):
        i = c if c >= 0 else A.length + c
    else: i = c
    if bool(tob(And(tob(i >= 0) if isinstance(i, S) else i >= 0, tob(i < A.length)))) is False:
        raise IndexError("index out of bounds for axis")
    return map_core(core, lambda x: sub_axis(x, A, i))

# ------------------------------------------------------------------------------------------------ conversions
CVX = []      # cvxpy expression class registers itself here

def scal(x):
    return x

def coerce(x):
    """anything array-like -> Arr (0-d for scalars); NotImplemented for foreign objects"""
    if isinstance(x, Arr): return x
    if is_scalar(x):
        x = norm_scalar(x)
        o = np.empty((), dtype=object); o[()] = x
        return Arr(o, (), kind_of(x))
    if CVX and isinstance(x, CVX[0]): return NotImplemented
    if isinstance(x, (list, tuple, np.ndarray, range)): return array(x)
    if isinstance(x, SymSeq): return array(x)
    return NotImplemented

def obj0(x):
    o = np.empty((), dtype=object); o[()] = x
    return Arr(o, (), "O")

class SymSeq:
    """a sequence of symbolic length given by its generic element (result of a comprehension over a symbolic axis)"""
    def __init__(self, axis, elt): self.axis = axis; self.elt_ = elt; self.tail = None
    @property
    def elt(self):
        if self.tail: raise Unsupported("mixed generic list")
        return self.elt_
    def items(self):
        """as a list with a generic item"""
        from .loader import RList, Gen
        l = RList(); list.append(l, Gen(self.axis, self.elt_)); list.extend(l, list.__iter__(self.tail or [])); return l
    def _tail(self):
        from .loader import RList
        if WORLD().loops: raise Unsupported("appending to a symbolic-length list in a loop")
        if self.tail is None: self.tail = RList()
        return self.tail
    def append(self, x): self._tail().append(x)
    def extend(self, xs): self._tail().extend(xs)
    def __iadd__(self, xs): self._tail().extend(xs); return self
    def __iter__(self): raise Unsupported("iteration over a symbolic-length sequence")
    def __len__(self): raise Unsupported("len of a symbolic-length sequence")
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported("slice of a symbolic sequence")
        if isinstance(i, int) and i < 0: i = self.axis.length + i
        if not bool(And(tob(i >= 0), tob(logic.cmp("lt", i, self.axis.length)))): raise IndexError("list index out of range")
        return subst_obj(self.elt, self.axis.tok, i)
    def __add__(self, o):
        return self.items() + o
    def __radd__(self, o):
        from .loader import RList
        return RList(list(o)) + self.items()
    @property
    def shape(self): raise AttributeError("shape")

def subst_obj(x, old, new):
    if isinstance(x, (S, B)): return subst_tok(x, old, new)
    if isinstance(x, Arr): return Arr(map_core(x.a, lambda v: subst_obj(v, old, new)), x.ax, x.dt)
    if isinstance(x, (bool, int, Fraction, Special, str, type(None))): return x
    if isinstance(x, tuple): return tuple(subst_obj(v, old, new) for v in x)
    if isinstance(x, list): return type(x)([subst_obj(v, old, new) for v in x])
    if isinstance(x, dict): return {k: subst_obj(v, old, new) for k, v in x.items()}
    if hasattr(x, "__dict__") and not isinstance(x, type) and not callable(x):
        y = object.__new__(type(x)); y.__dict__.update({k: subst_obj(v, old, new) for k, v in x.__dict__.items()})
        return y
    raise Unsupported(f"index substitution in {type(x)}")

def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    k = dt_of(dtype)
    if isinstance(x, Arr):
        r = Arr(x.a.copy() if copy else x.a, x.ax, x.dt)
        return cast(r, dtype) if k and k != r.dt else r
    if is_scalar(x):
        r = coerce(x)
        return cast(r, dtype) if k else r
    if isinstance(x, SymSeq):
        e = array(x.elt)
        return Arr(e.a.reshape((1,) + e.a.shape), (x.axis,) + e.ax, e.dt)
    if isinstance(x, np.ndarray):
        return array(x.tolist(), dtype) if x.dtype != object else Arr(x.copy())
    if isinstance(x, range): x = list(x)
    if hasattr(x, "__next__"): raise Unsupported("array of a generator")
    if isinstance(x, (list, tuple)):
        from .loader import Gen
        gs = list(list.__iter__(x)) if isinstance(x, list) else x
        if any(isinstance(g, Gen) for g in gs):
            if WORLD().loops: raise Unsupported("array of a generic list inside a loop")
            ps = [array(SymSeq(g.axis, g.item)) if isinstance(g, Gen) else array([g]) for g in gs]
            r = ps[0] if len(ps) == 1 else concatenate(ps)
            return cast(r, dtype) if k and k != r.dt else r
        xs = []
        for e in x:
            if isinstance(e, (list, tuple)): e = array(list(e))
            elif isinstance(e, SymSeq): e = array(e)
            elif isinstance(e, np.ndarray): e = array(e)
            elif is_scalar(e): e = coerce(e)
            elif not isinstance(e, Arr):
                if CVX and isinstance(e, CVX[0]): raise Unsupported("array of cvxpy expressions")
                e = obj0(e)
            xs.append(e)
        if not xs: return Arr(np.empty((0,), dtype=object), (None,), k or "f")
        nd = xs[0].ndim
        if any(e.ndim != nd for e in xs): raise ValueError("inhomogeneous shape")
        ax = list(xs[0].ax)
        for e in xs:
            if tuple(e.ax) != tuple(ax): 
                if any((p is None) != (q is None) for p, q in zip(e.ax, ax)): raise ValueError("inhomogeneous shape")
                raise Unsupported("stacking arrays on different axes")
            if e.a.shape != xs[0].a.shape: raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        out = np.empty((len(xs),) + xs[0].a.shape, dtype=object)
        for i, e in enumerate(xs): out[i] = e.a if nd else e.a[()]
        r = Arr(out, [None] + ax, k or kind_join(e.dt for e in xs))
        if k: r = cast(Arr(out, [None] + ax), dtype)
        return r
    return obj0(x)

def asarray(x, dtype=None, **kw):
    if isinstance(x, Arr) and (dtype is None or dt_of(dtype) == x.dt): return x
    return array(x, dtype)

# ------------------------------------------------------------------------------------------------ element ops
def add_(x, y):
    if isinstance(x, (bool, B)) and isinstance(y, (bool, B)): return Or(x, y)
    return to_num(x) + to_num(y)
def sub_(x, y): return to_num(x) - to_num(y)
def mul_(x, y):
    if isinstance(x, (bool, B)) and isinstance(y, (bool, B)): return And(x, y)
    return to_num(x) * to_num(y)
def div_(x, y):
    x, y = to_num(x), to_num(y)
    if isinstance(x, Special) or isinstance(y, Special):
        if is_const(y) and y == 0: return x if isinstance(x, Special) and x.kind != "undef" else UNDEF
        return x / y
    if not is_num(x) or not is_num(y): return x / y
    return alg.div(x, y)
def pow_(x, y):
    x = to_num(x); y = to_num(y)
    if is_const(x) and is_const(y):
        y = Fraction(y)
        if y.denominator == 1:
            y = int(y)
            if y < 0:
                return alg.div(1, Fraction(x) ** (-y)) if x != 0 else UNDEF
            return x ** y
        if y == Fraction(1, 2): return logic.sqrt(Fraction(x))
        return logic.root(Fraction(x), y.denominator) ** y.numerator
    if is_const(y) and not isinstance(x, Special) and is_num(x): return x ** y
    return x ** y
def eq_(x, y):
    if isinstance(x, (bool, B)) and isinstance(y, (bool, B)): return Iff(tob(x), tob(y))
    x, y = to_num(x), to_num(y)
    if isinstance(x, (S, Special)) or isinstance(y, (S, Special)):
        if (is_num(x) or isinstance(x, Special)) and (is_num(y) or isinstance(y, Special)): return logic.cmp("eq", x, y)
        return False
    return x == y
def le_(x, y):
    x, y = to_num(x), to_num(y)
    return logic.cmp("le", x, y) if isinstance(x, (S, Special)) or isinstance(y, (S, Special)) else x <= y
def lt_(x, y):
    x, y = to_num(x), to_num(y)
    return logic.cmp("lt", x, y) if isinstance(x, (S, Special)) or isinstance(y, (S, Special)) else x < y
def and_(x, y):
    if isinstance(x, (bool, B)) and isinstance(y, (bool, B)): return And(x, y)
    return x & y
def or_(x, y):
    if isinstance(x, (bool, B)) and isinstance(y, (bool, B)): return Or(x, y)
    return x | y
def invert_(x):
    if isinstance(x, (bool, B)): return Not(x)
    return ~x

def unify_axis(A, Bx):
    if A is Bx: return A
    if A is None or Bx is None: raise Unsupported("axis/concrete mix")
    if provably_eq(A.length, Bx.length):
        # same length but different index meaning
        raise Unsupported(f"combining arrays on unrelated axes {A} {Bx}")
    raise_or_unsupported_len(A.length, Bx.length)
    raise Unsupported(f"axes {A} {Bx}")

def bcast_axes(arrs):
    nd = max(x.ndim for x in arrs)
    out = []
    for d in range(nd):
        cur = None; size = 1
        for x in arrs:
            k = d - (nd - x.ndim)
            if k < 0: continue
            A, n = x.ax[k], x.a.shape[k]
            if A is not None:
                if cur is not None: unify_axis(cur, A)
                if size != 1: len1_or_fail(A, size)
                cur = A
            else:
                if n != 1:
                    if cur is not None: len1_or_fail(cur, n)
                    if size not in (1, n): raise ValueError("operands could not be broadcast together")
                    size = n
        out.append(cur)
    return tuple(out)

def len1_or_fail(A, n):
    f = Or(logic.cmp("eq", A.length, 1), logic.cmp("eq", A.length, n))
    if isinstance(f, bool) and not f or not bool(f): raise ValueError("operands could not be broadcast together")
    raise Unsupported("broadcast of a symbolic axis against a concrete one")

def elementwise(f, *arrs, dt=None):
    ax = bcast_axes(arrs)
    bs = np.broadcast(*[x.a for x in arrs]) if len(arrs) > 1 else None
    shape = bs.shape if bs is not None else arrs[0].a.shape
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1) if out.ndim else out
    if len(arrs) == 1:
        for i, x in np.ndenumerate(arrs[0].a): out[i] = f(x)
    else:
        vs = [np.broadcast_to(x.a, shape) for x in arrs]
        for i in np.ndindex(*shape): out[i] = f(*[v[i] for v in vs])
    if dt is None:
        dt = kind_join(kind_of(x) for x in out.flat) if out.size else kind_join(x.dt for x in arrs)
        if dt in "i" and any(x.dt == "f" for x in arrs): dt = "f"
    if out.ndim == 0: return out[()]
    return Arr(out, ax, dt)

# ------------------------------------------------------------------------------------------------ matmul & co
def matmul(x, y):
    if x.ndim == 0 or y.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    xa, ya = x.a, y.a
    xax, yax = list(x.ax), list(y.ax)
    sx = x.ndim == 1; sy = y.ndim == 1
    if sx: xa = xa[None, :]; xax = [None] + xax
    if sy: ya = ya[:, None]; yax = yax + [None]
    CA, CB = xax[-1], yax[-2]
    n1, n2 = xa.shape[-1], ya.shape[-2]
    if CA is None and CB is None:
        if n1 != n2: raise ValueError(f"matmul: mismatch in core dimension ({n1} vs {n2})")
    elif CA is None or CB is None:
        A = CA or CB; n = n1 if CA is None else n2
        if bool(tob(logic.cmp("eq", A.length, n))): raise Unsupported("matmul of symbolic and concrete dims")
        raise ValueError("matmul: mismatch in core dimension")
    elif CA is not CB: unify_axis(CA, CB)
    # batch axes
    bx = Arr(np.empty(xa.shape[:-2], dtype=object), xax[:-2], "f"); by = Arr(np.empty(ya.shape[:-2], dtype=object), yax[:-2], "f")
    bax = bcast_axes([bx, by]) if (bx.ndim or by.ndim) else ()
    bshape = np.broadcast_shapes(bx.a.shape, by.a.shape)
    xa = np.broadcast_to(xa, bshape + xa.shape[-2:]); ya = np.broadcast_to(ya, bshape + ya.shape[-2:])
    p, q = xa.shape[-2], ya.shape[-1]
    out = np.empty(bshape + (p, q), dtype=object)
    for b in np.ndindex(*bshape):
        X, Y = xa[b], ya[b]
        for i in range(p):
            for j in range(q):
                if CA is not None:
                    all_rows(CA)
                    out[b + (i, j)] = bigsum(CA, to_num(X[i, 0]) * to_num(Y[0, j]))
                else:
                    t = 0
                    for k in range(n1):
                        u, v = to_num(X[i, k]), to_num(Y[k, j])
                        if (is_const(u) and u == 0 and not isinstance(v, Special)) or (is_const(v) and v == 0 and not isinstance(u, Special)): continue
                        t = t + u * v
                    if is_const(t) and (x.dt == "f" or y.dt == "f"): t = Fraction(t)
                    out[b + (i, j)] = t
    oax = list(bax) + [xax[-2], yax[-1]]
    if CA is not None:
        for b in np.ndindex(*out.shape): pass
    if sx: out = out[..., 0, :]; del oax[-2]
    if sy: out = out[..., 0]; del oax[-1]
    if not isinstance(out, np.ndarray): return out
    if out.ndim == 0: return out[()]
    return Arr(out, oax, "f" if "f" in (x.dt, y.dt) else kind_join([x.dt, y.dt]))

def dot(x, y):
    x, y = coerce(x), coerce(y)
    if x.ndim == 0 or y.ndim == 0: return elementwise(mul_, x, y)
    return matmul(x, y)

# ------------------------------------------------------------------------------------------------ reductions
def _norm_axis(axis, nd):
    if axis is None: return tuple(range(nd))
    if isinstance(axis, (tuple, list)): return tuple(a % nd for a in axis)
    if not -nd <= axis < nd: raise np.AxisError(axis, nd)
    return (axis % nd,)

def reduce_(x, op, axis=None, keepdims=False):
    x = coerce(x)
    axes = _norm_axis(axis, x.ndim) if x.ndim else ()
    a = x.a; ax = list(x.ax)
    conc = [d for d in axes if ax[d] is None]
    symb = [d for d in axes if ax[d] is not None]
    keep = [d for d in range(x.ndim) if d not in axes]
    shape = tuple(a.shape[d] for d in keep)
    out = np.empty(shape, dtype=object)
    t = a.transpose(keep + list(axes)) if x.ndim else a
    for i in np.ndindex(*shape):
        els = list(t[i].flat) if isinstance(t[i], np.ndarray) else [t[i]]
        if op == "sum" and x.dt == "b" and len(els) == 1 and len(symb) == 1 and isinstance(els[0], B) and els[0].toks() and els[0].toks() <= {k.id for k in ax[symb[0]].toks}:
            for k in ax[symb[0]].toks: WORLD().check_taint(k)
            out[i] = count_of(ax[symb[0]], els[0]); continue
        out[i] = fold(op, els, [ax[d] for d in symb])
    rax = [ax[d] for d in keep]
    dt = "b" if op in ("all", "any") else None
    if dt is None:
        dt = kind_join([kind_of(v) for v in out.flat]) if out.size else x.dt
        if x.dt == "f" and dt == "i": dt = "f"
    if keepdims:
        full = [1] * x.ndim
        for d, n in zip(keep, shape): full[d] = n
        fax = [ax[d] if d in keep else None for d in range(x.ndim)]
        return Arr(out.reshape(full), fax, dt)
    if out.ndim == 0: return out[()]
    return Arr(out, rax, dt)

def all_rows(A):
    """the rows of A are taken together: not while one of them is the generic one of an enclosing iteration (the two indices would be the same)"""
    w = WORLD()
    if w is not None and w.loops and any(A is B for B in w.loops): raise Unsupported("the rows of a sequence taken together inside an iteration over it")

def fold(op, els, axes):
    for A in axes: all_rows(A)
    if op == "all":
        r = And(*[tob_el(e) for e in els])
        for A in axes: 
            for t in A.toks: r = forall_axis(t, A, r)
        return r
    if op == "any":
        r = Or(*[tob_el(e) for e in els])
        for A in axes:
            for t in A.toks: r = Not(forall_axis(t, A, Not(r)))
        return r
    els = [to_num(e) for e in els]
    if op == "sum":
        r = 0
        for e in els: r = r + e
        for A in axes:
            if len(A.toks) != 1: raise Unsupported("sum over a composite axis")
            if A.canon or A.parts is not None: r = bigsum(A, r)
            else: r = sum_masked(A, r)
        return r
    if op == "prod":
        if axes: raise Unsupported("product over a symbolic axis")
        r = 1
        for e in els: r = r * e
        return r
    if not els: raise ValueError("zero-size array to reduction operation")
    r = logic._mm(op, els)
    for A in axes: r = extremum(op, A, r)
    return r

def tob_el(e):
    if isinstance(e, (bool, B)): return e
    return tob(e)

def forall_axis(t, A, r):
    if isinstance(r, bool): return r or logic.cmp("le", A.length, 0)
    if t.id not in r.toks(): return Or(r, logic.cmp("le", A.length, 0))
    return forall(t, r)

def sum_masked(A, r):
    raise Unsupported("sum over a filtered axis")

def extremum(op, A, e):
    """min/max over a symbolic axis: bound for every index, attained at some index"""
    w = WORLD()
    if isinstance(e, Special): return e
    if is_const(e) or not any(t.id in alg.toks_of(e) for t in A.toks): return e
    if len(A.toks) != 1: raise Unsupported("extremum over a composite axis")
    if not bool(logic.cmp("lt", 0, A.length)): raise ValueError("zero-size array to reduction operation")
    w.check_taint(A.tok)
    if A.parts is not None: raise Unsupported("extremum over a concatenated axis")
    wt = logic.clone_tok(A.tok, A.name + "^")
    att = subst_tok(e, A.tok, wt)
    key = ("ext", op, A.id, e.key())
    def facts(at):
        m = alg.of_atom(at)
        out = [logic.cmp("eq", m, att)]
        body = (m <= e) if op == "min" else (m >= e)
        if isinstance(body, B): out.append(forall(A.tok, body))
        return out
    toks = alg.toks_of(e) - {A.tok.id}
    sg = {"pos": "pos", "nneg": "nneg"}.get(alg.quick_sign(e))
    return alg.var(f"{op}[{A.name}]{e!r}", sign=sg, toks=toks, key=key, facts=facts)

# ------------------------------------------------------------------------------------------------ shape functions
def squeeze(x, axis=None):
    x = coerce(x)
    if axis is not None:
        axes = _norm_axis(axis, x.ndim)
    else:
        axes = []
        for d in range(x.ndim):
            if x.ax[d] is None:
                if x.a.shape[d] == 1: axes.append(d)
            else:
                f = logic.cmp("eq", x.ax[d].length, 1)
                if bool(f): axes.append(d)
    a, ax = x.a, list(x.ax)
    for d in sorted(axes, reverse=True):
        if ax[d] is None:
            if a.shape[d] != 1: raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
        else:
            if not bool(logic.cmp("eq", ax[d].length, 1)): raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            if ax[d].canon: a = map_core(a, lambda x, A=ax[d]: sub_axis(x, A, 0))      # otherwise the only element is the generic one
        a = a.reshape(a.shape[:d] + a.shape[d + 1:]) if True else a
        del ax[d]
    return Arr(a, ax, x.dt)

def reshape(x, shape):
    x = coerce(x)
    if is_num(shape): shape = (shape,)
    shape = [s.item() if isinstance(s, Arr) else s for s in shape]
    if not x.sym() and all(isinstance(s, int) for s in shape):
        return Arr(x.a.reshape(shape), None, x.dt)
    # symbolic: trailing concrete dims must be kept
    if any(is_const(s) and s == -1 for s in shape):
        tot = x.size; known = 1
        for s in shape:
            if not (is_const(s) and s == -1): known = known * s
        miss = alg.div(tot, known) if isinstance(tot, S) or isinstance(known, S) else Fraction(tot) / known
        if is_const(miss): miss = int(miss)
        shape = [miss if is_const(s) and s == -1 else s for s in shape]
    tot = 1
    for s in shape: tot = tot * s
    if not provably_eq(x.size, tot):
        raise_or_unsupported_len(x.size, tot)
    # identical shape?
    if len(shape) == x.ndim and all(provably_eq(s, t) for s, t in zip(shape, x.shape)): return Arr(x.a, x.ax, x.dt)
    w = WORLD()
    # number of trailing concrete dims shared
    lead_src = []; k = x.ndim
    while k > 0 and x.ax[k - 1] is None: k -= 1
    trail = x.a.shape[k:]
    lead = [x.ax[i] for i in range(k)]
    # source leading dims may include concrete dims of size>1 between: only support all-symbolic (or size-1) lead
    for i in range(k):
        if x.ax[i] is None and x.a.shape[i] != 1: raise Unsupported("reshape mixing concrete and symbolic dimensions")
    # match trailing dims of the target
    t = len(shape)
    tr = list(trail)
    tgt_trail = []
    while t > 0 and tr and is_const(shape[t - 1]):
        tgt_trail.insert(0, int(shape[t - 1])); t -= 1
        if math.prod(tgt_trail) == math.prod(trail): break
    if math.prod(tgt_trail) != math.prod(trail): raise Unsupported("reshape across concrete and symbolic dimensions")
    tlead = shape[:t]
    symlead = [A for A in lead if A is not None]
    sl = 1
    for A in symlead: sl = sl * A.length
    tl = 1
    for s in tlead: tl = tl * s
    if not provably_eq(sl, tl): raise Unsupported("reshape")
    toks = [tk for A in symlead for tk in A.toks]
    nlead = len(tlead)
    axes = []
    cache = w.__dict__.setdefault("reshapes", {})
    ck = (tuple(A.id for A in symlead), tuple(s.key() if isinstance(s, S) else s for s in tlead))
    if ck in cache: axes = cache[ck]
    else:
        if len(tlead) == len(symlead) and all(provably_eq(A.length, s) for A, s in zip(symlead, tlead)): axes = list(symlead)
        else:
            first = True
            for s in tlead:
                if is_const(s) and s == 1: axes.append(None)
                elif is_const(s): raise Unsupported("reshape to concrete leading dims")
                else:
                    axes.append(new_axis(f"R{len(cache)}", s, toks if first else [])); first = False
        cache[ck] = axes
    core = x.a.reshape((1,) * nlead + tuple(tgt_trail))
    return Arr(core, list(axes) + [None] * len(tgt_trail), x.dt)

def expand_dims(x, axis):
    x = coerce(x)
    nd = x.ndim + 1
    if isinstance(axis, (tuple, list)): raise Unsupported("expand_dims with several axes")
    if not -nd <= axis < nd: raise np.AxisError(axis, nd)
    axis %= nd
    return Arr(np.expand_dims(x.a, axis), x.ax[:axis] + (None,) + x.ax[axis:], x.dt)

def part_blocks(x, axis):
    """[(part, cells)] of x along an axis: part = (axis, token) for a block of symbolic length, None for a single row"""
    A = x.ax[axis]
    a = np.moveaxis(x.a, axis, 0)
    if A is None: return [(None, a[k, ...]) for k in range(a.shape[0])]
    if A.parts is not None:
        w = WORLD()
        out = []
        for j, p in enumerate(A.parts):
            out.append((p, map_core(a[0, ...], lambda v: logic.cat_subst(v, A.tok, j, p[1] if p else None))))
        return out
    if len(A.toks) != 1: raise Unsupported("concatenation of a composite axis")
    return [((A, A.tok), a[0, ...])]

def from_blocks(blocks, axis, ax, dt):
    """array whose rows along `axis` are the given blocks, in order; `ax`: axes of the other dimensions"""
    if all(p is None for p, _ in blocks):
        a = np.empty((len(blocks),) + blocks[0][1].shape, dtype=object)
        for k, (_, b) in enumerate(blocks): a[k] = b
        K = None
    elif len(blocks) == 1:
        a = blocks[0][1][None, ...]; K = blocks[0][0][0]
    else:
        K = cat_axis([p for p, _ in blocks])
        a = np.empty((1,) + blocks[0][1].shape, dtype=object)
        for i in np.ndindex(*blocks[0][1].shape): a[(0,) + i] = logic.cat_entry(K, [b[i] for _, b in blocks])
    ax = list(ax); ax.insert(axis, K)
    return Arr(np.moveaxis(a, 0, axis).copy(), ax, dt)

def cat_axis(parts):
    w = WORLD()
    for p in parts:
        if p is not None: w.check_taint(p[1])
    if any(t in logic.WORLD().scope_toks for p in parts if p for t in [p[1].id]): raise Unsupported("concatenation inside a generic iteration over its rows")
    d = w.__dict__.setdefault("cataxes", {})
    k = tuple(p if p is None else (p[0].id, p[1].id) for p in parts)
    if k not in d:
        n = 0
        for p in parts: n = n + (1 if p is None else p[0].length)
        K = new_axis("cat", n, [])
        K.toks = [K.tok]; K.parts = list(parts)
        d[k] = K
        register_axis(K)
    return d[k]

def register_axis(A):
    """arrays of this very length made later are aligned with A by position"""
    if isinstance(A.length, S) and A.length.key() not in WORLD().__dict__.get("axes", {}): WORLD().__dict__.setdefault("rowaxes", {}).setdefault(A.length.key(), A)

def row_axis(length):
    """the axis of new arrays of a given length"""
    A = WORLD().__dict__.get("rowaxes", {}).get(length.key()) if isinstance(length, S) else None
    return A or axis_for(length)

def concat_sym(xs, axis):
    nd = xs[0].ndim
    ax = [x for d, x in enumerate(xs[0].ax) if d != axis]
    for x in xs:
        if [y for d, y in enumerate(x.ax) if d != axis] != ax: raise Unsupported("concatenation of arrays with different axes")
        if [n for d, n in enumerate(x.a.shape) if d != axis] != [n for d, n in enumerate(xs[0].a.shape) if d != axis]:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    return from_blocks([b for x in xs for b in part_blocks(x, axis)], axis, ax, kind_join(x.dt for x in xs))

def cat_slice(x, axis, lo, hi):
    """rows lo..hi of a concatenated axis when the bounds are block boundaries, else None"""
    bl = part_blocks(x, axis); A = x.ax[axis]
    pos = 0; i = j = None
    for k, (p, _) in enumerate(bl + [(None, None)]):
        if i is None and provably_eq(pos, lo): i = k
        if i is not None and j is None and provably_eq(pos, hi): j = k
        if k < len(bl): pos = pos + (1 if p is None else p[0].length)
    if i is None or j is None: return None
    return i, j

def concatenate(xs, axis=0):
    if isinstance(xs, SymSeq): raise Unsupported("concatenate symbolic sequence")
    xs = [coerce(x) for x in xs]
    if any(x is NotImplemented for x in xs): raise Unsupported("concatenate")
    nd = xs[0].ndim
    if nd == 0: raise ValueError("zero-dimensional arrays cannot be concatenated")
    if any(x.ndim != nd for x in xs): raise ValueError("all the input array dimensions must match")
    axis = axis % nd
    if any(x.ax[axis] is not None for x in xs):
        real = [x for x in xs if not (x.ax[axis] is None and x.a.shape[axis] == 0)]
        if len(real) == 1: return real[0].copy()
        return concat_sym(real, axis)
    ax = list(xs[0].ax)
    for x in xs:
        for d in range(nd):
            if d == axis: continue
            if x.ax[d] is not ax[d]:
                if x.ax[d] is None or ax[d] is None:
                    A = x.ax[d] or ax[d]; n = x.a.shape[d] if x.ax[d] is None else xs[0].a.shape[d]
                    if bool(logic.cmp("eq", A.length, n)): raise Unsupported("concatenation of symbolic with concrete rows")
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
                unify_axis(x.ax[d], ax[d])
            elif x.ax[d] is None and x.a.shape[d] != xs[0].a.shape[d]:
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    return Arr(np.concatenate([x.a for x in xs], axis=axis), ax, kind_join(x.dt for x in xs))

def cumsum(x, axis=None):
    x = coerce(x)
    if x.sym() or x.ndim != 1: raise Unsupported("cumsum")
    t = 0; out = []
    for e in x.a: t = t + to_num(e); out.append(t)
    return array(out)

def argmax(x, axis=None):
    x = coerce(x)
    if x.sym() or x.ndim != 1: raise Unsupported("argmax")
    if x.dt == "b":
        for k, e in enumerate(x.a):
            if bool(tob(e)): return k
        return 0
    best = 0
    for k in range(1, x.a.shape[0]):
        if bool(lt_(x.a[best], x.a[k])): best = k
    return best

def nonzero(x):
    x = coerce(x)
    if x.sym(): raise Unsupported("nonzero of symbolic-length array")
    m = np.array([bool(tob(e)) if isinstance(e, (bool, B)) else (bool(Not(logic.cmp("eq", e, 0))) if isinstance(e, S) else e != 0) for e in x.a.flat], dtype=bool).reshape(x.a.shape)
    return tuple(array([int(v) for v in ix]) if len(ix) else Arr(np.empty((0,), dtype=object), (None,), "i") for ix in m.nonzero())
