"""Loads /repo/src/rigeo for symbolic execution.

The modules are parsed from the working tree on every run and executed as they are, except for these mechanical rewrites
(listed in DESIGN.md):
  * float literals become exact rationals; `/` and `**` become exact operations;
  * attribute reads that numpy scalars support (`x.all`, `x.shape`, ...) also work on exact scalars;
  * comprehensions and `for` loops over sequences of symbolic length run once, for a generic index;
  * `while` loops whose condition is symbolic are cut at the loop head with checked invariants;
  * functions named in the stub table are replaced by their (separately verified) contract.
"""
import ast, builtins, copy, os, sys, types, importlib, hashlib
from fractions import Fraction
from . import alg, logic, arr
from .alg import S, Unsupported, PathEnd, is_num, is_const
from .logic import B, Special, WORLD, to_num, tob
from .arr import Arr, SymSeq, Axis, Tok

SRC = os.environ.get("RIGEO_SRC", "/repo/src")
SCALAR_ATTRS = {"shape", "ndim", "size", "T", "all", "any", "item", "astype", "copy", "sum", "min", "max", "reshape", "squeeze", "flatten",
                "ravel", "dtype", "tolist", "mean", "is_integer", "real", "round", "dot", "prod", "imag", "conj", "transpose", "trace"}

# ================================================================================ runtime
class Gen:
    """placeholder in a list: one item for every index of an axis"""
    def __init__(self, axis, item): self.axis = axis; self.item = item

class RList(list):
    def _gen(self, x):
        w = WORLD()
        if w and w.loops:
            d = getattr(self, "depth", 0)
            for ax in reversed(w.loops[d:]): x = Gen(ax, x)
        return x
    def append(self, x): list.append(self, self._gen(x))
    def extend(self, xs):
        if isinstance(xs, SymSeq):
            for x in list.__iter__(xs.items()): list.append(self, self._gen(x))
        else:
            for x in xs: self.append(x)
    def __iadd__(self, o):
        self.extend(o); return self
    def __add__(self, o):
        if isinstance(o, SymSeq): o = o.items()
        if not isinstance(o, list): raise TypeError(f'can only concatenate list (not "{type(o).__name__}") to list')
        return RList(list.__add__(self, o))
    def __radd__(self, o):
        if isinstance(o, SymSeq): o = o.items()
        return RList(list(o) + list(self))
    def __iter__(self):
        if any(isinstance(x, Gen) for x in list.__iter__(self)): return iter_gen(self)
        return list.__iter__(self)
    def __mul__(self, k):
        if isinstance(k, S): k = logic.concretize_int(k)
        return RList(list.__mul__(self, k))
    __rmul__ = __mul__
    def copy(self): return RList(list.__iter__(self))
    def __hash__(self): raise TypeError("unhashable type: 'list'")

def iter_gen(l):
    # iteration yields the generic items themselves only to engine code; program code must go through comp/loop
    return list.__iter__(l)

class Runtime:
    def __init__(self, pkg):
        self.pkg = pkg
    # arithmetic
    def div(self, a, b):
        if isinstance(a, (bool, B)): a = to_num(a)
        if isinstance(b, (bool, B)): b = to_num(b)
        if isinstance(a, (int, Fraction, S, Special)) and isinstance(b, (int, Fraction, S, Special)):
            if is_const(b) and b == 0 and is_const(a) and type(b) is int and type(a) is int: raise ZeroDivisionError("division by zero")
            return arr.div_(a, b)
        return a / b
    def pow(self, a, b):
        if isinstance(a, (bool, B)): a = to_num(a)
        if isinstance(b, Arr) and b.ndim == 0: b = b.a[()]
        if isinstance(a, (int, Fraction, S, Special)) and isinstance(b, (int, Fraction, S, Special)): return arr.pow_(a, b)
        if isinstance(b, tuple): b = arr.array(list(b))
        return a ** b
    def idiv(self, a, b):
        if isinstance(a, Arr): a /= b; return a
        return self.div(a, b)
    def ga(self, o, name):
        if isinstance(o, (bool, int, Fraction, B, Special)) and not isinstance(o, S):
            if name == "is_integer": return lambda: o.is_integer() if isinstance(o, Fraction) else isinstance(o, int)
            a = arr.coerce(o)
            v = getattr(a, name)
            if name in ("shape", "ndim", "size", "dtype"): return v
            if not callable(v): return o
            def f(*args, **k):
                r = v(*args, **k)
                return r.a[()] if isinstance(r, Arr) and r.ndim == 0 else r
            return f
        if isinstance(o, S) and name not in ("is_integer", "shape", "ndim", "size", "T", "item", "copy", "astype"):
            return self.ga_arr(o, name)
        return getattr(o, name)
    def ga_arr(self, o, name):
        a = arr.coerce(o); v = getattr(a, name)
        if not callable(v): return o
        def f(*args, **k):
            r = v(*args, **k)
            return r.a[()] if isinstance(r, Arr) and r.ndim == 0 else r
        return f
    def lst(self, xs):
        r = RList(xs)
        w = WORLD()
        r.depth = len(w.loops) if w else 0
        return r
    # iteration
    def seq_axis(self, it):
        """(axis, generic element) if `it` has symbolic length, else None"""
        if isinstance(it, Arr) and it.ndim and it.ax[0] is not None:
            A = it.ax[0]
            return A, arr_item(it)
        if isinstance(it, SymSeq): return it.axis, it.elt
        if hasattr(it, "rgv_seq"):
            r = it.rgv_seq()
            if r is not None: return r
        if isinstance(it, list) and len(it) and any(isinstance(x, Gen) for x in list.__iter__(it)):
            if len(it) == 1: 
                g = list.__getitem__(it, 0)
                return g.axis, g.item
            raise Unsupported("iteration over a list mixing generic and concrete items")
        return None
    def contains(self, a, b, neg):
        h = getattr(b, "rgv_contains", None)
        if h is not None:
            r = h(a)
            return logic.Not(r) if neg else r
        return (a not in b) if neg else (a in b)
    def comp(self, f, it, kind, conds=None, elts=None):
        if kind in ("list", "gen") and isinstance(it, list) and list.__len__(it) > 1 and any(isinstance(x, Gen) for x in list.__iter__(it)):
            r = self.lst([])
            for x in list.__iter__(it):
                g = isinstance(x, Gen)
                y = self.comp(f, SymSeq(x.axis, x.item) if g else [x], "list", conds, elts)
                list.extend(r, list.__iter__(y.items() if isinstance(y, SymSeq) else y))
            return r
        sa = self.seq_axis(it)
        if sa is None:
            if not hasattr(it, "__iter__") and hasattr(it, "__getitem__") and hasattr(it, "__len__"): it = list(it)
            r = f(it)
            return r if kind == "gen" else (self.lst(r) if kind == "list" else r)
        A, el = sa
        w = WORLD()
        arr.all_rows(A)
        w.scope_toks.append(A.tok.id); w.loops.append(A)
        keep = None
        try:
            if conds is not None and kind in ("list", "gen"):
                keep = logic.And(*[logic.tob(c) for c in conds([el])[0]])
                r = list(list.__iter__(list(elts([el]))))
            else:
                r = list.__iter__(list(f([el])))
                r = list(r)
        finally: w.scope_toks.pop(); w.loops.pop()
        if keep is not None and keep is not True and len(r) == 1:
            if keep is False: return self.lst([])
            if w.loops or w.scope_toks or A.parts is not None: raise Unsupported("nested filtered comprehension")
            import numpy as np
            m = np.empty(1, dtype=object); m[0] = keep
            A, g = arr.filter_seq(A, Arr(m, (A,), "b"), r[0])
            return SymSeq(A, g)
        if len(r) != 1: raise Unsupported("filtered comprehension over a symbolic sequence")
        if kind in ("set", "dict"): raise Unsupported("set/dict over a symbolic sequence")
        return SymSeq(A, r[0])
    def flat(self, outer, kind):
        """the items of a comprehension with several generators, from the comprehensions of its inner generators"""
        if isinstance(outer, SymSeq):
            inner = outer.elt
            inner = inner.items() if isinstance(inner, SymSeq) else inner
            items = [Gen(outer.axis, x) for x in list.__iter__(list(inner) if not isinstance(inner, list) else inner)]
            if kind == "set": raise Unsupported("set over a symbolic sequence")
            if len(items) == 1: return SymSeq(outer.axis, items[0].item)
            r = self.lst([]); list.extend(r, items); return r
        if kind == "gen":
            it = iter(outer); first = next(it, None)
            if not isinstance(first, SymSeq):
                def g():
                    if first is not None: yield from first
                    for x in it: yield from x
                return g()
            outer = [first] + list(it)
        r = self.lst([])
        for x in outer: list.extend(r, list.__iter__(x.items()) if isinstance(x, SymSeq) else x if not isinstance(x, list) else list.__iter__(x))
        return r if kind != "set" else set(r)
    def accum(self, name, x, e, aug):
        """`x += e` (or `x = x + e`) where x is otherwise not read in the loops that carry it: over a symbolic loop the sum of e over its index"""
        w = WORLD(); axes = []
        for A in reversed(w.loops):
            if name not in w.accs.get(id(A), ()): break
            axes.append(A)
        if not axes:
            if not aug: return x + e
            x += e
            return x
        if isinstance(x, (list, SymSeq)):
            if isinstance(x, SymSeq): x = x.items()
            elif not aug or not isinstance(x, RList): x = RList(list.__iter__(x))
            x.depth = len(w.loops) - len(axes)
            x.extend(e)
            return x
        keep = w.loops
        for A in axes:
            w.loops = [B for B in w.loops if B is not A]
            try: e = sum_(SymSeq(A, e))
            finally: w.loops = keep
        if not aug: return x + e
        x += e
        return x
    def loop(self, it, simple, accs=()):
        sa = self.seq_axis(it)
        if sa is None:
            yield from it
            return
        if not simple: raise Unsupported("loop over a symbolic sequence with loop-carried state")
        A, el = sa
        w = WORLD()
        old = w.accs.get(id(A))
        arr.all_rows(A)
        w.scope_toks.append(A.tok.id); w.loops.append(A); w.accs[id(A)] = accs
        try:
            yield el
        finally:
            w.scope_toks.pop(); w.loops.pop(); w.accs.pop(id(A), None)
    def fn(self, qual):
        def deco(f):
            self.pkg.seen.add(qual)
            pkg = self.pkg
            def wrapper(*a, **k):
                pkg.called.add(qual)
                st = pkg.stubs.get(qual)
                if st is not None: return st(f, *a, **k)
                return f(*a, **k)
            import functools
            functools.update_wrapper(wrapper, f)
            return wrapper
        return deco
    def wloop(self, site): return WhileCut(self, site)

def arr_item(it):
    """generic element along the first (symbolic) axis"""
    A = it.ax[0]
    if len(it.ax) == 1 and it.a.ndim == 1: return it.a[0]
    return Arr(it.a[0], it.ax[1:], it.dt)

class Unbound:
    def __getattr__(self, n): raise Unsupported("variable without a value after a loop cut")
    def __bool__(self): raise Unsupported("variable without a value after a loop cut")
UNBOUND = Unbound()

class Restart(Exception):
    def __init__(self, drop): self.drop = drop

class WhileCut:
    """invariant-based treatment of one dynamic instance of a while loop"""
    def __init__(self, rt, site):
        self.rt = rt; self.site = site; self.n = 0; self.mode = None
        self.w = WORLD()
        self.w.n_while = getattr(self.w, "n_while", 0) + 1
    def head(self, loc, names, cond):
        """returns the values of `names` to continue with"""
        w = self.w
        vals = tuple(loc.get(n, UNBOUND) for n in names)
        if self.mode is None and self.site in self.rt.pkg.cut:
            self.mode = "cut"
            return self.enter(loc, names, vals)
        if self.mode is None: self.nd = len(w.decisions)
        if self.mode is None or self.mode == "unroll":
            if self.n > 6 and len(w.decisions) > self.nd: raise Restart([("cut", self.site)])   # iterations decided by data
            w.peek = True
            try: c = cond()
            except logic.Peek: c = None
            finally: w.peek = False
            if isinstance(c, bool) or (c is not None and not isinstance(c, (B, Arr, S))):
                self.mode = "unroll"; self.n += 1
                if self.n > 200: raise Unsupported("loop unrolled too often")
                return vals
            if self.mode == "unroll" and self.n > 1: raise Restart([("cut", self.site)])
            self.mode = "cut"
            return self.enter(loc, names, vals)
        # back edge
        self.back(loc, names, vals)
    # -- invariants
    def candidates(self, loc, names, vals, arrays):
        """list of (id, function(values, arrays) -> formula)"""
        w = self.w
        out = []
        ints = [n for n, v in zip(names, vals) if is_int(v)]
        bounds = [(n, v) for n, v in loc.items() if n not in names and is_int(v)]
        for n in ints:
            out.append(((self.site, n, "nonneg"), lambda V, A, n=n: tob(V[n] >= 0)))
            for bn, bv in bounds:
                out.append(((self.site, n, "le", bn), lambda V, A, n=n, bv=bv: tob(logic.cmp("le", V[n], bv) if isinstance(V[n], S) or isinstance(bv, S) else V[n] <= bv)))
        phi = self.rt.pkg.loop_hints.get(self.site.rsplit("#", 1)[0])
        if phi is not None:
            for an in arrays:
                if an in names: continue
                for n in ints:
                    def f(V, A, an=an, n=n):
                        X = A[an]
                        if X.ax[0] is None:
                            rs = []
                            for i in range(X.a.shape[0]):
                                r = phi(X[i], loc)
                                rs.append(logic.Implies(tob(logic.cmp("lt", i, V[n]) if isinstance(V[n], S) else i < V[n]), tob(r)))
                            return logic.And(*rs)
                        t = X.ax[0].tok
                        r = phi(arr_item(X), loc)
                        return logic.Implies(tob(logic.cmp("lt", t.idx, V[n])), r)
                    out.append(((self.site, an, "prefix", n), f))
        return [(i, f) for i, f in out if i not in self.rt.pkg.dropped]
    def enter(self, loc, names, vals):
        w = self.w
        pkg = self.rt.pkg
        self.entry = dict(zip(names, vals))
        self.snap = {k: v.a.copy() for k, v in loc.items() if isinstance(v, Arr)}
        self.arrays = [k for k, v in loc.items() if isinstance(v, Arr) and (k in names or (self.site, k) in pkg.mutated)]
        self.loc = dict(loc)
        self.arrays = [k for k in self.arrays if (self.site, k) not in pkg.rebound]
        arrs = [k for k in self.arrays if self.loc[k].ndim and (self.loc[k].ax[0] is None and not self.loc[k].sym() or self.loc[k].ax[0] is not None and len(self.loc[k].ax[0].toks) == 1)]
        self.cands = self.candidates(loc, names, vals, arrs)
        V = {n: v for n, v in zip(names, vals)}; A = {k: self.loc[k] for k in arrs}
        for cid, f in self.cands:
            g = f(V, A)
            r = w.prove(g)
            if r[0] != "proved":
                if os.environ.get("VERIF_LOOPS"): print("DROP init", cid, r[0], repr(g)[:1500], file=sys.stderr)
                raise Restart([cid])
            w.loop_obl.append((("init",) + cid, r[1]))
        # havoc; the state at the head is a function of the state at entry
        rngs = [v for v in loc.values() if type(v).__name__ == "Generator"]
        ekey = (self.site, tuple((n, _vkey(v)) for n, v in V.items()), tuple((r.seedkey, r.k) for r in rngs))
        cache = w.__dict__.setdefault("loopstates", {})
        if ekey not in cache: cache[ekey] = len(cache)
        sid = cache[ekey]
        out = []; self.V = {}
        for n, v in zip(names, vals):
            if is_int(v):
                x = alg.var(f"{n}@{sid}", sort="I", key=("loop", sid, n)); self.V[n] = x; out.append(x)
            elif is_num(v) and not isinstance(v, bool):
                x = alg.var(f"{n}@{sid}", key=("loop", sid, n)); self.V[n] = x; out.append(x)
            elif isinstance(v, Arr): out.append(UNBOUND if (self.site, n) in pkg.rebound else v)
            elif v is UNBOUND: out.append(UNBOUND)
            elif type(v).__name__ == "Generator": out.append(v)
            elif isinstance(v, (bool, B)):
                b = alg.var(f"{n}@{sid}", key=("loop", sid, n)) > 0; out.append(b)
            else: raise Unsupported(f"loop modifies {n} of type {type(v).__name__}")
        for r in rngs: r.seedkey = ("loop", sid, r.seedkey); r.k = 0
        self.A = {}
        for k in self.arrays:
            X = self.loc[k]
            toks = [t for a in X.ax if a is not None for t in a.toks]
            prefix = [(cid, f) for cid, f in self.cands if cid[1] == k and cid[2] == "prefix"] if X.sym() else []
            fam = {}
            fk = ("havoc", sid, k)
            fams = w.__dict__.setdefault("loopfams", {})
            if fk not in fams:
                fams[fk] = {ix: logic.Family(f"{k}@{sid}{list(ix)}") for ix in _ndidx(X.a.shape)}
            fam = fams[fk]
            def entry(tk, fam=fam, shape=X.a.shape):
                import numpy as np
                o = np.empty(shape, dtype=object)
                for ix, F in fam.items(): o[ix] = F.at(tk)
                return o
            self.A[k] = X
            if prefix:
                phi = pkg.loop_hints[self.site.rsplit("#", 1)[0]]
                for ix, F in fam.items():
                    def facts(e, tk, X=X, prefix=prefix, entry=entry, phi=phi):
                        core = entry(tk)
                        it = Arr(core[0], X.ax[1:], X.dt) if core.ndim > 1 else core[0]
                        t = tk[0]
                        idx = t.idx if isinstance(t, Tok) else t
                        res = []
                        for cid, _ in prefix:
                            res.append(logic.Implies(tob(logic.cmp("lt", idx, self.V[cid[3]])), phi(it, self.loc)))
                        return res
                    F.facts = facts
            X.a[...] = entry(toks)
        for cid, f in self.cands:
            if cid[2] != "prefix" or not self.A[cid[1]].sym(): w.add(f(self.V, self.A))
        self.snap = {k: v.a.copy() for k, v in loc.items() if isinstance(v, Arr)}
        return tuple(out)
    def back(self, loc, names, vals):
        w = self.w
        for k, a in self.snap.items():
            if k in self.arrays or k not in loc or loc[k] is not self.loc.get(k): continue
            if not _same_core(loc[k].a, a):
                raise Restart([("mutated", self.site, k)])
        for k in names:
            if k in self.A and loc.get(k) is not self.A[k]: raise Restart([("rebound", self.site, k)])
        V = dict(zip(names, vals)); A = dict(self.A)
        for cid, f in self.cands:
            g = f(V, A)
            r = w.prove(g)
            if r[0] != "proved":
                if os.environ.get("VERIF_LOOPS"): print("DROP step", cid, r[0], repr(g)[:1500], "\n   PC", "\n      ".join(repr(x)[:300] for x in w.pc), file=sys.stderr)
                raise Restart([cid])
            w.loop_obl.append((("step",) + cid, r[1]))
        for f in self.rt.pkg.on_back: f(loc)
        raise PathEnd("loop back edge")

def _ndidx(shape):
    import numpy as np
    return list(np.ndindex(*shape))
def _same_core(a, b):
    for x, y in zip(a.flat, b.flat):
        if x is y: continue
        if isinstance(x, S):
            if not x.same(y): return False
        elif isinstance(x, B):
            if not x.same(y): return False
        elif isinstance(y, (S, B)) or x != y: return False
    return True
def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, S) and alg.sort_of(v) == "I")
def _vkey(v):
    if isinstance(v, (S, B, Special)): return v.key()
    if isinstance(v, (int, Fraction, bool, str, type(None))): return v
    if isinstance(v, Arr): return tuple(_vkey(x) for x in v.a.flat)
    return id(type(v))

# ================================================================================ builtins
class NumMeta(type):
    def __instancecheck__(cls, x): return cls._check(x)
    def __call__(cls, *a, **k): return cls._conv(*a, **k)
    def __eq__(cls, o): return cls is o or o is cls._real
    def __hash__(cls): return hash(cls._real)
    def __repr__(cls): return f"<class '{cls.__name__}'>"
class float_(metaclass=NumMeta):
    _real = float
    @staticmethod
    def _check(x): return isinstance(x, (Fraction, float, Special)) or (isinstance(x, S) and arr.kind_of(x) == "f")
    @staticmethod
    def _conv(x=0):
        if isinstance(x, str): return logic.exact(float(x)) if x.strip().lower().lstrip("+-") in ("inf", "nan", "infinity") else Fraction(x)
        if isinstance(x, Arr): x = x.item()
        x = to_num(x)
        if isinstance(x, float): return logic.exact(x)
        return Fraction(x) if isinstance(x, int) else x
class int_(metaclass=NumMeta):
    _real = int
    @staticmethod
    def _check(x): return isinstance(x, int) or (isinstance(x, S) and arr.kind_of(x) == "i")
    @staticmethod
    def _conv(x=0, *a):
        if isinstance(x, (str, bytes)): return int(x, *a)
        if isinstance(x, Arr): x = x.item()
        x = to_num(x)
        if isinstance(x, Special): raise ValueError("cannot convert float to integer")
        if is_const(x): return int(x)
        return arr.cast(x, int)
class bool_(metaclass=NumMeta):
    _real = bool
    @staticmethod
    def _check(x): return isinstance(x, (bool, B))
    @staticmethod
    def _conv(x=False):
        if isinstance(x, Arr):
            if x.a.size != 1: raise ValueError("ambiguous truth value")
            x = x.a.flat[0]
        if isinstance(x, (bool, B)): return x
        if isinstance(x, S): return logic.Not(logic.cmp("eq", x, 0))
        return bool(x)
float_.__name__, int_.__name__, bool_.__name__ = "float", "int", "bool"

_type = type
class type_(_type):
    def __call__(cls, *a, **k): return _type.__call__(cls, *a, **k)
def type_of(*a, **k):
    if len(a) != 1: return _type(*a, **k)
    x = a[0]
    if isinstance(x, (bool, B)): return bool_
    if isinstance(x, int): return int_
    if isinstance(x, S): return int_ if arr.kind_of(x) == "i" else float_
    if isinstance(x, (Fraction, float, Special)): return float_
    if isinstance(x, RList): return list
    return _type(x)

def len_(x):
    if isinstance(x, Arr):
        if not x.ndim: raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, SymSeq): return x.axis.length
    if hasattr(x, "rgv_len"): return x.rgv_len
    if isinstance(x, RList) and any(isinstance(g, Gen) for g in list.__iter__(x)):
        n = 0
        for g in list.__iter__(x):
            n = n + ((g.axis.length if not isinstance(g.item, Gen) else _unsup("nested")) if isinstance(g, Gen) else 1)
        return n
    return len(x)
def _unsup(m): raise Unsupported(m)

def range_(*a):
    a = [x.item() if isinstance(x, Arr) else x for x in a]
    for x in a:
        if isinstance(x, Fraction): raise TypeError("'float' object cannot be interpreted as an integer")
    if any(isinstance(x, S) for x in a):
        a = [WORLD().int_value(x) if isinstance(x, S) and WORLD().int_value(x) is not None else x for x in a]
        if any(isinstance(x, S) for x in a):
            if len(a) == 1 or (len(a) == 2 and a[0] == 0):
                A = arr.row_axis(a[-1])
                if A.src is not None: raise Unsupported("positions of a filtered axis")
                return SymSeq(A, A.tok.idx)
            raise Unsupported("range with symbolic bounds")
    return range(*a)

def _rt_seq(x):
    if isinstance(x, Arr) and x.ndim and x.ax[0] is not None: return x.ax[0], arr_item(x)
    if isinstance(x, SymSeq): return x.axis, x.elt
    if isinstance(x, list) and any(isinstance(g, Gen) for g in list.__iter__(x)):
        if len(x) == 1: g = list.__getitem__(x, 0); return g.axis, g.item
        raise Unsupported("mixed generic list")
    if hasattr(x, "rgv_seq"): return x.rgv_seq()
    return None

def zip_(*xs, strict=False):
    sq = [_rt_seq(x) for x in xs]
    if any(s is not None for s in sq):
        ax = [s[0] for s in sq if s is not None]
        if len(ax) != len(sq):
            # finite partner: only sound when the partner is infinite (itertools.count); otherwise give up
            raise Unsupported("zip of symbolic and concrete sequences")
        for a in ax[1:]:
            if a is not ax[0]: arr.unify_axis(ax[0], a)
        return SymSeq(ax[0], tuple(s[1] for s in sq))
    return zip(*xs, strict=strict)
def enumerate_(x, start=0):
    s = _rt_seq(x)
    if s is not None: return SymSeq(s[0], (s[0].tok.idx + start, s[1]))
    return enumerate(x, start)
def sum_(x, start=0):
    if isinstance(x, list) and list.__len__(x) > 1 and any(isinstance(g, Gen) for g in list.__iter__(x)):
        r = start
        for g in list.__iter__(x): r = r + (sum_(SymSeq(g.axis, g.item)) if isinstance(g, Gen) else g)
        return r
    s = _rt_seq(x)
    if s is not None:
        from . import cp_shim
        arr.all_rows(s[0])
        if isinstance(s[1], cp_shim.Expr): return cp_shim.seq_sum(s) + start
        if isinstance(s[1], (int, Fraction, S, bool, B)): return logic.bigsum(s[0], to_num(s[1])) + start
        if isinstance(s[1], Arr): return arr.reduce_(arr.array(SymSeq(*s)), "sum", 0) + start
        raise Unsupported("sum of symbolic sequence of objects")
    r = start
    for e in x: r = r + e
    return r
def _minmax(kind):
    def f(*xs, key=None, default=None):
        if len(xs) == 1:
            s = _rt_seq(xs[0])
            if s is not None: return arr.reduce_(arr.array(SymSeq(*s)), kind)
            xs = list(xs[0])
        if key is not None:
            ks = [key(x) for x in xs]
            if any(isinstance(k, S) for k in ks): raise Unsupported("min/max with a symbolic key")
            return (max if kind == "max" else min)(xs, key=key)
        xs = [x.item() if isinstance(x, Arr) else x for x in xs]
        if any(isinstance(x, (S, Special)) for x in xs): return logic._mm(kind, xs)
        if not xs and default is not None: return default
        return (max if kind == "max" else min)(xs)
    return f
def all_(x):
    s = _rt_seq(x)
    if s is not None: return arr.fold("all", [_scalb(s[1])], [s[0]])
    for e in x:
        if not e: return False
    return True
def any_(x):
    s = _rt_seq(x)
    if s is not None: return arr.fold("any", [_scalb(s[1])], [s[0]])
    for e in x:
        if e: return True
    return False
def _scalb(e):
    if isinstance(e, Arr): e = e.item()
    return tob(e)
def list__(x=()):
    s = _rt_seq(x)
    if s is not None: r = RList([Gen(*s)]); r.depth = len(WORLD().loops); return r
    r = RList(x); w = WORLD(); r.depth = len(w.loops) if w else 0
    return r
class list_(metaclass=NumMeta):
    _real = list
    @staticmethod
    def _check(x): return isinstance(x, list)
    @staticmethod
    def _conv(x=()): return list__(x)
list_.__name__ = "list"
def tuple__(x=()):
    s = _rt_seq(x)
    if s is not None: return SymSeq(*s)
    return tuple(x)
class tuple_(metaclass=NumMeta):
    _real = tuple
    @staticmethod
    def _check(x): return isinstance(x, tuple)
    @staticmethod
    def _conv(x=()): return tuple__(x)
tuple_.__name__ = "tuple"
def abs_(x): return abs(x) if not isinstance(x, (bool, B)) else to_num(x)
def isinstance_(x, t):
    if isinstance(t, tuple): return any(isinstance_(x, u) for u in t)
    if t is float: t = float_
    if t is int: t = int_
    if t is bool: t = bool_
    return isinstance(x, t)
def map_(f, *xs):
    if any(_rt_seq(x) is not None for x in xs):
        z = zip_(*xs)
        arr.all_rows(z.axis)
        w = WORLD(); w.scope_toks.append(z.axis.tok.id); w.loops.append(z.axis)
        try: return SymSeq(z.axis, f(*z.elt))
        finally: w.scope_toks.pop(); w.loops.pop()
    return map(f, *xs)
def round_(x, n=None):
    if is_const(x): return round(x) if n is None else round(x, n)
    raise Unsupported("round")
def sorted_(x, key=None, reverse=False):
    if _rt_seq(x) is not None: raise Unsupported("sorted symbolic sequence")
    x = list(x)
    ks = [key(e) if key else e for e in x]
    if any(isinstance(k, (S, B, Arr)) for k in ks): raise Unsupported("sorting symbolic values")
    r = RList(sorted(x, key=key, reverse=reverse)); return r
def reversed_(x):
    if _rt_seq(x) is not None: raise Unsupported("reversed symbolic sequence")
    if isinstance(x, Arr): return iter([x[i] for i in range(len(x) - 1, -1, -1)])
    return reversed(x)
def print_(*a, **k): pass
def pow_b(a, b, *m): return arr.pow_(a, b) if not m else pow(a, b, *m)
def divmod_(a, b):
    if isinstance(a, S) or isinstance(b, S): return (a // b, a % b)
    return divmod(a, b)

BUILTINS = dict(vars(builtins))
BUILTINS.update(float=float_, int=int_, bool=bool_, type=type_of, len=len_, range=range_, zip=zip_, enumerate=enumerate_, sum=sum_,
                min=_minmax("min"), max=_minmax("max"), all=all_, any=any_, list=list_, tuple=tuple_, abs=abs_, isinstance=isinstance_, map=map_,
                round=round_, sorted=sorted_, reversed=reversed_, print=print_, pow=pow_b, divmod=divmod_)
for _n in ("open", "exec", "eval", "input", "compile", "breakpoint"):
    BUILTINS[_n] = (lambda n: lambda *a, **k: _unsup(n))(_n)

# ================================================================================ transformation
class Tr(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod; self.stack = []; self.consts = {}; self.nloop = 0
    def rt(self, name): return ast.Attribute(ast.Name("_rgv", ast.Load()), name, ast.Load())
    def call(self, name, *args): return ast.Call(self.rt(name), list(args), [])
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            nm = f"_rgvF{len(self.consts)}"
            v = logic.exact(n.value)
            self.consts[nm] = v
            return ast.copy_location(ast.Name(nm, ast.Load()), n)
        return n
    def visit_JoinedStr(self, n): return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div): return ast.copy_location(self.call("div", n.left, n.right), n)
        if isinstance(n.op, ast.Pow): return ast.copy_location(self.call("pow", n.left, n.right), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            if isinstance(n.target, ast.Name):
                l = ast.Name(n.target.id, ast.Load())
                f = "idiv" if isinstance(n.op, ast.Div) else "pow"
                if f == "pow": return n
                return ast.copy_location(ast.Assign([n.target], self.call(f, l, n.value)), n)
        return n
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr in SCALAR_ATTRS and not (isinstance(n.value, ast.Name) and n.value.id in ("np", "cp", "math", "itertools", "rg", "cls", "_rgv")):
            return ast.copy_location(self.call("ga", n.value, ast.Constant(n.attr)), n)
        return n
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load): return ast.copy_location(self.call("lst", n), n)
        return n
    def _comp(self, n, kind, visit=True):
        if visit: self.generic_visit(n)
        g0 = n.generators[0]
        if any(g.is_async for g in n.generators): return n
        if len(n.generators) > 1 and kind != "dict" and not g0.ifs:
            cls = ast.ListComp if kind == "set" else type(n)
            inner = self._comp(cls(n.elt, n.generators[1:]), "list" if kind == "set" else kind, False)
            outer = self._comp(cls(inner, [g0]), "list" if kind == "set" else kind, False)
            return ast.copy_location(self.call("flat", outer, ast.Constant(kind)), n)
        it = g0.iter
        arg = "_rgv_it"
        g0.iter = ast.Name(arg, ast.Load())
        mk = lambda body: ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), body)
        lam = mk(n)
        extra = []
        if len(n.generators) == 1 and g0.ifs and kind in ("list", "gen"):
            gen = lambda: [ast.comprehension(copy.deepcopy(g0.target), ast.Name(arg, ast.Load()), [], 0)]
            extra = [mk(ast.ListComp(ast.Tuple(copy.deepcopy(g0.ifs), ast.Load()), gen())), mk(ast.ListComp(copy.deepcopy(n.elt), gen()))]
        return ast.copy_location(self.call("comp", lam, it, ast.Constant(kind), *extra), n)
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return ast.copy_location(self.call("contains", n.left, n.comparators[0], ast.Constant(isinstance(n.ops[0], ast.NotIn))), n)
        return n
    def visit_ListComp(self, n): return self._comp(n, "list")
    def visit_GeneratorExp(self, n): return self._comp(n, "gen")
    def visit_SetComp(self, n): return self._comp(n, "set")
    def visit_DictComp(self, n): return self._comp(n, "dict")
    # functions
    def _fn(self, n):
        self.stack.append(n.name)
        qual = self.mod + "." + ".".join(self.stack)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = [self.visit(s) for s in n.body]
        n.body = flat(n.body)
        n.returns = None
        self.stack.pop()
        if len(self.stack) == 0 or not self.infunc():
            n.decorator_list.append(self.call("fn", ast.Constant(qual)))
        return n
    def infunc(self): return self.depth_fn > 0
    depth_fn = 0
    def visit_FunctionDef(self, n):
        top = self.depth_fn
        self.stack.append(n.name)
        qual = self.mod + "." + ".".join(self.stack)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.depth_fn += 1
        n.body = flat([self.visit(s) for s in n.body])
        self.depth_fn = top
        self.stack.pop()
        n.returns = None
        if not top: n.decorator_list.append(self.call("fn", ast.Constant(qual)))
        return n
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.bases = [self.visit(b) for b in n.bases]
        n.body = flat([self.visit(s) for s in n.body])
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        self.stack.pop()
        return n
    def visit_arg(self, n): n.annotation = None; return n
    def visit_For(self, n):
        fn = self.mod + "." + ".".join(self.stack)
        accs = accumulators(n)
        class R(ast.NodeTransformer):
            def visit_FunctionDef(s, m): return m
            visit_Lambda = visit_ClassDef = visit_FunctionDef
            def visit_AugAssign(s, m): return s.stmt(m)
            def visit_Assign(s, m): return s.stmt(m)
            def stmt(s, m):
                x = acc_form(m)
                if x is None or x not in accs or is_acc(m): return m
                e = m.value if isinstance(m, ast.AugAssign) else m.value.right
                return ast.copy_location(ast.Assign([ast.Name(x, ast.Store())], self.call("accum", ast.Constant(fn + ":" + x), ast.Name(x, ast.Load()), e, ast.Constant(isinstance(m, ast.AugAssign)))), m)
        n.body = [R().visit(s) for s in n.body]
        simple = for_simple(n, accs)
        self.generic_visit(n)
        n.iter = self.call("loop", n.iter, ast.Constant(simple), ast.Constant(tuple(fn + ":" + x for x in sorted(accs))))
        return n
    def visit_While(self, n):
        names = sorted(assigned(n.body))
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)): return n
        self.nloop += 1
        site = f"{self.mod}.{'.'.join(self.stack)}#{self.nloop}"
        w = f"_rgvw{self.nloop}"
        init = ast.Assign([ast.Name(w, ast.Store())], self.call("wloop", ast.Constant(site)))
        lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.test)
        head = ast.Call(ast.Attribute(ast.Name(w, ast.Load()), "head", ast.Load()),
                        [ast.Call(ast.Name("locals", ast.Load()), [], []), ast.Tuple([ast.Constant(x) for x in names], ast.Load()), lam], [])
        tgt = ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())
        import copy
        asg = ast.Assign([tgt], head)
        brk = ast.If(ast.UnaryOp(ast.Not(), copy.deepcopy(n.test)), [ast.Break()], [])
        loop = ast.While(ast.Constant(True), [asg, brk] + n.body, [])
        return [ast.copy_location(init, n), ast.copy_location(loop, n)]

def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list): out.extend(x)
        elif x is not None: out.append(x)
    return out

def assigned(body):
    out = set()
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
        def visit_Subscript(self, n):
            self.generic_visit(n)
    for s in body: V().visit(s)
    return out

def is_acc(m):
    return isinstance(m, ast.Assign) and isinstance(m.value, ast.Call) and isinstance(m.value.func, ast.Attribute) and m.value.func.attr == "accum" and isinstance(m.value.func.value, ast.Name) and m.value.func.value.id == "_rgv"

def acc_form(m):
    """the name x of a statement x += e, x = x + e"""
    if is_acc(m): return m.targets[0].id
    if isinstance(m, ast.AugAssign) and isinstance(m.op, ast.Add) and isinstance(m.target, ast.Name): return m.target.id
    if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name) and isinstance(m.value, ast.BinOp) and isinstance(m.value.op, ast.Add) \
       and isinstance(m.value.left, ast.Name) and m.value.left.id == m.targets[0].id: return m.targets[0].id

def accumulators(n):
    """names that the body of the loop only ever adds to"""
    forms = {}; uses = {}; adds = {}
    class V(ast.NodeVisitor):
        def stmt(self, m):
            x = acc_form(m)
            if x is not None: forms[x] = forms.get(x, 0) + (1 if isinstance(m, ast.AugAssign) else 2)
            self.generic_visit(m)
        visit_Assign = visit_AugAssign = stmt
        def visit_Expr(self, m):
            c = m.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend") and isinstance(c.func.value, ast.Name):
                adds[c.func.value.id] = adds.get(c.func.value.id, 0) + 1
            self.generic_visit(m)
        def visit_Name(self, m): uses[m.id] = uses.get(m.id, 0) + 1
    for s in n.body: V().visit(s)
    V().visit(n.target)
    return {x for x, k in forms.items() if uses[x] == k + adds.get(x, 0)}

FRESH = {"zeros", "ones", "empty", "eye", "full", "array", "copy", "zeros_like", "ones_like", "empty_like", "full_like", "identity"}

def for_simple(n, accs=()):
    """no break/return and no local carried from one iteration to the next (other than sums and the rows of an array at the loop's index)"""
    for x in ast.walk(n):
        if isinstance(x, (ast.Break, ast.Return, ast.While)): return False
    body = ast.Module(n.body, [])
    stores = assigned(n.body) - set(accs)
    for s in ast.walk(body):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id not in accs: return False
    # read before written in the body
    written = set(assigned([ast.Assign([n.target], ast.Constant(0))]))
    for st in n.body:
        reads = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        own = assigned([st])
        if any(r in stores and r not in written for r in reads if not (isinstance(st, ast.Assign) and r in own and r in written)):
            return False
        written |= own
    # stores into arrays: made in the body, or only used at the index of the loop
    fresh = {s.targets[0].id for s in n.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
             and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in FRESH}
    fresh = {x for x in fresh if sum(isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Store) for y in ast.walk(body)) == 1}
    index = set()
    if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name):
        if n.iter.func.id == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name): index = {n.target.id}
        if n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name): index = {n.target.elts[0].id}
    index -= stores
    def at_index(x):
        s = x.slice
        if isinstance(s, ast.Tuple) and s.elts: s = s.elts[0]
        return isinstance(s, ast.Name) and s.id in index
    for x in ast.walk(body):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
            if not isinstance(x.value, ast.Name): return False
            if x.value.id in fresh: continue
            if not at_index(x): return False
            ok = {id(y.value) for y in ast.walk(body) if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == x.value.id and at_index(y)}
            if any(isinstance(y, ast.Name) and y.id == x.value.id and id(y) not in ok for y in ast.walk(body)): return False
    return True

# ================================================================================ package
_CODE = {}

def parse_package(src=None):
    src = src or SRC
    root = os.path.join(src, "rigeo")
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py"): continue
            path = os.path.join(d, f)
            rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
            if rel.startswith("unused"): continue
            ispkg = rel.endswith("__init__")
            name = "rigeo" + ("" if rel == "__init__" else "." + (rel[:-9] if ispkg else rel))
            with open(path, encoding="utf8") as fh: text = fh.read()
            out[name] = (path, text, ispkg)
    return out

def compiled(name, path, text):
    k = (name, hashlib.sha256(text.encode()).hexdigest())
    if k not in _CODE:
        tree = ast.parse(text, path)
        t = Tr(name)
        tree.body = flat([t.visit(s) for s in tree.body])
        ast.fix_missing_locations(tree)
        _CODE[k] = (compile(tree, path, "exec"), t.consts)
    return _CODE[k]

REAL_OK = {"itertools", "abc", "pathlib", "time", "dataclasses", "collections", "collections.abc", "functools", "operator", "typing", "warnings",
           "copy", "enum", "contextlib", "__future__", "os", "sys", "re", "textwrap", "logging"}

class Package:
    def __init__(self, files, stubs=None, loop_hints=None, dropped=(), mutated=(), rebound=(), cut=()):
        self.files = files; self.mods = {}; self.stubs = stubs or {}; self.loop_hints = loop_hints or {}; self.on_back = []
        self.dropped = set(dropped); self.mutated = set(mutated); self.rebound = set(rebound); self.cut = set(cut)
        self.seen = set(); self.called = set()
        self.rt = Runtime(self)
        self.bi = dict(BUILTINS); self.bi["__import__"] = self.imp
        from . import shims
        self.shims = shims.MODULES
    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        if level:
            pk = g["__package__"].split(".")
            base = pk[: len(pk) - level + 1]
            full = ".".join(base + ([name] if name else []))
        else: full = name
        if full.split(".")[0] == "rigeo":
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and full + "." + f in self.files: self.load(full + "." + f)
                return m
            return self.load(full.split(".")[0])
        if full in self.shims: 
            if fromlist or "." not in full: return self.shims[full]
            return self.shims[full.split(".")[0]]
        if full in REAL_OK: return importlib.__import__(name, {}, {}, fromlist, 0)
        raise Unsupported(f"import of {full}")
    def load(self, full):
        if full in self.mods: return self.mods[full]
        if full not in self.files: raise ImportError(f"No module named '{full}'")
        if "." in full: self.load(full.rsplit(".", 1)[0])
        if full in self.mods: return self.mods[full]
        path, text, ispkg = self.files[full]
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if ispkg else full.rsplit(".", 1)[0]
        m.__dict__["__builtins__"] = self.bi
        m.__dict__["_rgv"] = self.rt
        code, consts = compiled(full, path, text)
        m.__dict__.update(consts)
        self.mods[full] = m
        exec(code, m.__dict__)
        if "." in full:
            parent, child = full.rsplit(".", 1)
            setattr(self.mods[parent], child, m)
        return m
    @property
    def rg(self): return self.load("rigeo")
