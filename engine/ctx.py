"""Contracts and the two ways to run one.

A contract is a Python function that builds arbitrary inputs that meet the precondition, calls the code under contract and
states the postcondition.  `Sym` runs it on the symbolic semantics and emits proof obligations; `Conc` runs the very same
text on concrete inputs against the real library (used to replay counterexamples and as the labelled bounded stand-in).
"""
from fractions import Fraction
import math, sys, os, json, zlib, time
import numpy as np
from . import alg, logic, arr, np_shim, cp_shim, loader
from .alg import S, Unsupported, PathEnd, is_num, is_const
from .logic import B, Special, WORLD, to_num, tob, UNDEF
from .arr import Arr

class Reject(Exception):
    """concrete inputs miss the precondition"""
class CheckFailed(Exception): pass

REGISTRY = {}          # property -> [Contract]
class Contract:
    def __init__(self, prop, name, body, cases, covers, opts):
        self.prop = prop; self.name = name; self.body = body; self.cases = cases; self.covers = covers; self.opts = opts
    def case_label(self, i):
        c = self.cases[i]
        return f"{self.name}" + ("" if c is None else f" [{_lab(c)}]")

def _lab(c):
    if isinstance(c, (tuple, list)): return ",".join(_lab(x) for x in c)
    if callable(c): return c.__name__
    return str(c)

def contract(prop, name, cases=(None,), covers=(), **opts):
    """opts: stubs (names of stubs switched off / on), bounded=True (only the concrete stand-in), samples"""
    def deco(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            REGISTRY.setdefault(p, []).append(Contract(p, name, f, list(cases), tuple(covers), opts))
        return f
    return deco

# ================================================================================ shared helpers
class Base:
    sym = False
    def implies(self, a, b): return self.Or(self.Not(a), b)
    def iff(self, a, b): return self.And(self.implies(a, b), self.implies(b, a))
    def vec(self, name, n=3, **k): return self.arr([self.real(f"{name}{i}", **k) for i in range(n)])
    def mat(self, name, n, m=None): m = m or n; return self.arr([[self.real(f"{name}{i}{j}") for j in range(m)] for i in range(n)])
    def symmat(self, name, n=3):
        e = {}
        for i in range(n):
            for j in range(i, n): e[i, j] = self.real(f"{name}{i}{j}")
        return self.arr([[e[min(i, j), max(i, j)] for j in range(n)] for i in range(n)])
    def pos(self, name): return self.real(name, sign="pos")
    def nneg(self, name): return self.real(name, sign="nneg")
    def twins(self, tag): pass
    def tolr(self, name):
        """a tolerance: any value >= 0 (concretely at least 1e-9, so rounding does not matter)"""
        x = self.real(name, sign="nneg")
        return x if self.sym else max(x, 1e-9)
    def size(self, name):
        """positive and above the 1e-8 degeneracy threshold"""
        x = self.real(name, sign="pos")
        self.assume(self.lt(self.c(Fraction(1, 10**8)), x))
        return x
    def extents(self, name, pattern):
        """half extents: 0 or above the degeneracy threshold"""
        return self.arr([self.size(f"{name}{i}") if k else self.c(0) for i, k in enumerate(pattern)])
    def ensure_eq(self, name, a, b, **k): self.ensure(name, self.eq(a, b), **k)
    def zeros(self, *shape): return self.np.zeros(shape)
    def eye(self, n): return self.np.eye(n)
    def world_point(self, c, R, y):
        """c + R y"""
        return c + R @ y

# ================================================================================ symbolic mode
class Obligation:
    __slots__ = ("model2", "name", "status", "backend", "model", "weak", "inexact", "formula")

class Sym(Base):
    sym = True
    def __init__(self, world, pkg, label=""):
        self.w = world; self.pkg = pkg; self.rg = pkg.rg; self.np = np_shim.NP; self.cp = cp_shim.CPM; self.label = label
        self.obls = []; self.inputs = {}; self.nfail = 0
        self.nside = 0
    # -- inputs
    def c(self, x): return Fraction(x) if not isinstance(x, float) else logic.exact(x)
    def q(self, a, b=1): return Fraction(a, b)
    def pi(self): return alg.pi()
    def real(self, name, sign=None, near=None):
        v = alg.var(name, sign=sign); self.inputs[name] = v; return v
    def int(self, name, sign=None, lo=None, hi=None):
        v = alg.var(name, sort="I", sign=sign); self.inputs[name] = v
        if lo is not None: self.assume(v >= lo)
        if hi is not None: self.assume(v <= hi)
        return v
    def arr(self, x): return arr.array(x)
    def rot(self, name, n=3):
        R = arr.array(alg.rotation_entries(name, n)); self.inputs[name] = R; return R
    def orth(self, name, n=3):
        R = arr.array(alg.rotation_entries(name, n, special=False)); self.inputs[name] = R; return R
    def unit(self, name, n=3): return self.orth(name, n)[:, 0] if n != 3 and n != 2 else self.rot(name, n)[:, 0]
    def count(self, name, lo=1):
        """a symbolic number of items"""
        n = alg.var(name, sort="I", sign="pos" if lo >= 1 else "nneg"); self.inputs[name] = n
        if lo > 1: self.assume(n >= lo)
        return n
    def many(self, name, n, shape=(), sign=None, sort="R"):
        """array of n (symbolic) items of concrete shape"""
        A = arr.axis_for(n)
        o = np.empty((1,) + tuple(shape), dtype=object)
        for ix in np.ndindex(*shape):
            F = self.w.__dict__.setdefault("fams", {}).setdefault((name, ix), None) or logic.Family(f"{name}{list(ix) if ix else ''}", sign=sign, sort=sort)
            self.w.fams[(name, ix)] = F
            o[(0,) + ix] = F.at([A.tok])
        r = Arr(o, (A,) + (None,) * len(shape), "f" if sort == "R" else "i")
        self.inputs[name] = ("many", n)
        return r
    def many_rot(self, name, n, d=3, special=True):
        """n (symbolic) rotation matrices"""
        A = arr.axis_for(n)
        F = self.w.__dict__.setdefault("fams", {}).setdefault((name, "rot"), None) or logic.RotFamily(name, d, special)
        self.w.fams[(name, "rot")] = F
        o = np.empty((1, d, d), dtype=object)
        for i, r in enumerate(F.at([A.tok])):
            for j, e in enumerate(r): o[0, i, j] = e
        self.inputs[name] = ("many", n)
        return Arr(o, (A, None, None), "f")
    def each(self, f, *Xs):
        """the list of f(row) over the rows of equally long batches"""
        A = Xs[0].ax[0]
        self.w.scope_toks.append(A.tok.id)
        try: return arr.SymSeq(A, f(*[loader.arr_item(X) for X in Xs]))
        finally: self.w.scope_toks.pop()
    def seed(self, name="seed"): 
        v = alg.var(name, sort="I", sign="nneg"); self.inputs[name] = v; return v
    def rng(self, name="seed"): return self.np.random.default_rng(self.seed(name))
    def cvar(self, value): return cp_shim.Expr(value if isinstance(value, Arr) else arr.coerce(value))
    def seq_item(self, X):
        """generic row of a batch"""
        if isinstance(X, arr.SymSeq): return X.elt
        return loader.arr_item(X)
    # -- logic
    def And(self, *x): return logic.And(*[self._f(y) for y in x])
    def Or(self, *x): return logic.Or(*[self._f(y) for y in x])
    def Not(self, x): return logic.Not(self._f(x))
    def _f(self, x):
        if isinstance(x, Arr): return arr.reduce_(x, "all") if x.ndim else tob(x.a[()])
        if isinstance(x, (list, tuple)): return logic.And(*[self._f(y) for y in x])
        return tob(x)
    truth = _f
    def _cmp(self, op, a, b):
        if isinstance(a, cp_shim.Expr): a = a.v
        if isinstance(b, cp_shim.Expr): b = b.v
        A = arr.coerce(to_num(a)); Bx = arr.coerce(to_num(b))
        if A is NotImplemented or Bx is NotImplemented: return False
        if not A.sym() and not Bx.sym() and op == "eq" and A.ndim and Bx.ndim and A.shape != Bx.shape: return False
        if A.ndim and Bx.ndim and A.ndim != Bx.ndim and op == "eq": return False
        def f(x, y):
            x = to_num(x); y = to_num(y)
            if isinstance(x, Special) and x.kind == "undef" or isinstance(y, Special) and y.kind == "undef": return False
            r = logic.cmp(op, alg.lift(x) if is_const(x) and not isinstance(x, Special) and isinstance(y, S) else x, y)
            if r is NotImplemented or not isinstance(x, (S, Special)) and not isinstance(y, (S, Special)):
                return {"eq": x == y, "le": x <= y, "lt": x < y}[op]
            return r
        r = arr.elementwise(f, A, Bx, dt="b")
        return self._f(r)
    def eq(self, a, b): return self._cmp("eq", a, b)
    def le(self, a, b): return self._cmp("le", a, b)
    def lt(self, a, b): return self._cmp("lt", a, b)
    def same_shape(self, a, shape):
        s = arr.coerce(a).shape if not isinstance(a, (int, Fraction, S)) else ()
        if len(s) != len(shape): return False
        return logic.And(*[tob(logic.cmp("eq", x, y) if isinstance(x, S) or isinstance(y, S) else x == y) for x, y in zip(s, shape)])
    def psd(self, M): return cp_shim.psd(M)
    def forall_row(self, X, f):
        """f(row) for every row of X"""
        if isinstance(X, Arr) and X.ax[0] is not None:
            r = self._f(f(loader.arr_item(X)))
            for t in X.ax[0].toks: r = arr.forall_axis(t, X.ax[0], r)
            return r
        if isinstance(X, arr.SymSeq):
            r = self._f(f(X.elt))
            for t in X.axis.toks: r = arr.forall_axis(t, X.axis, r)
            return r
        return logic.And(*[self._f(f(x)) for x in X])
    def forall_rows(self, f, *Xs):
        from .stubs import rows_forall
        return rows_forall(lambda *r: self._f(f(*r)), *Xs)
    def hull_cuts(self, x, A2, b2, hull=None):
        """every inequality (row of A2, b2) met by all vertices is met by the points of the hull"""
        from .stubs import Hull
        hs = [Hull(*hull)] if hull is not None else self.w.__dict__.get("hulls", [])
        for h in hs: self.w.assume(h.cut(x, A2, b2))
    def sum_rows(self, f, *Xs):
        """sum over the rows of equally long batches"""
        A = Xs[0].ax[0]
        e = f(*[loader.arr_item(X) for X in Xs])
        if isinstance(e, Arr): return Arr(arr.map_core(e.a, lambda v: logic.bigsum(A, to_num(v))), e.ax, e.dt)
        return logic.bigsum(A, e)
    # -- obligations
    def assume(self, f): self.w.assume(self._f(f))
    def ensure(self, name, f, weak=False, hyps=()):
        f = self._f(f)
        hs = [self._f(h) for h in hyps]
        for h in hs:
            if h is False: return
        hs = [h for h in hs if h is not True]
        o = Obligation(); o.name = name; o.weak = weak; o.model = None; o.inexact = False; o.formula = None; o.model2 = None
        t0 = time.time()
        st, be, model = self.w.prove(f, hyps=hs) if f is not False else self._refute_false(hs)
        if os.environ.get("VERIF_PROFILE"): print(f"      {time.time() - t0:6.2f}s {st} {be}  {name}", file=sys.stderr, flush=True)
        o.status = st; o.backend = be
        if st != "proved":
            o.inexact = st == "refuted" and (inexact(self.w.pc + hs + [f]) )
            o.model = self.model_values(model)
            if st == "refuted" and not weak and self.nfail < 6: o.model2 = self.clear_model(f, hs)
            o.formula = repr(f)[:2000]
            self.nfail += 1
        self.obls.append(o)
    def clear_model(self, f, hs):
        """a counterexample that floating point can tell apart: moderate sizes, violated by a margin"""
        nice = []
        for k, v in self.inputs.items():
            if isinstance(v, S) and alg.sort_of(v) == "R" and alg.quick_sign(v) == "pos" and not k.startswith("tol"): nice += [v >= Fraction(1, 2), v <= 20]
        def sep(b, e):
            if isinstance(b, bool): return b
            if b.k == "not": return sep2(b.a[0], e)
            if b.k == "and": return logic.And(*[sep(x, e) for x in b.a])
            if b.k == "or": return logic.Or(*[sep(x, e) for x in b.a])
            if b.k == "cmp" and b.a[0] != "eq": return logic.mkcmp("le", b.a[1] + e)
            return b
        def sep2(b, e):
            n = logic.Not(b)
            return sep(n, e) if isinstance(n, bool) or n.k != "not" else n
        neg = logic.Not(tob(f)) if f is not False else True
        for e in (Fraction(1, 10), Fraction(1, 10**3), Fraction(1, 10**5), 0):
            try: r = logic.solve(self.w.pc + hs + nice + [sep(neg, e)], 1500, True, self.w.stats, want_model=True)
            except Exception: return None
            if r[0] == "sat": return self.model_values(r[1])
        return None
    def _refute_false(self, hs):
        r = logic.solve(self.w.pc + hs, self.w.prove_ms, True, self.w.stats, want_model=True)
        if r[0] == "unsat": return ("proved", "z3-nra", None)
        return ("refuted" if r[0] == "sat" else "unknown", "z3-nra", r[1])
    def unreachable(self, name): self.ensure(name, False)
    def model_values(self, model):
        if not model: return {}
        out = {}
        for k, v in self.inputs.items():
            if isinstance(v, S):
                (m, c), = v.d.items()
                x = model.get(m[0][0])
                if x is not None: out[k] = float(x) if alg.sort_of(v) == "R" else int(x)
            elif isinstance(v, Arr):
                vals = []
                for e in v.a.flat:
                    x = None
                    if isinstance(e, S):
                        (m, c), = e.d.items(); x = model.get(m[0][0])
                    elif is_const(e): x = e
                    vals.append(None if x is None else float(x))
                if all(x is not None for x in vals): out[k] = np.array(vals).reshape(v.a.shape).tolist()
        return out
    def raises(self, exc, f):
        try: f()
        except exc: return True
        return False
    # -- cvxpy
    def cons(self, cs): return cp_shim.cons_formula(cs)
    def mark(self): return len(self.w.__dict__.get("cvars", []))
    def new_vars(self, mark): return self.w.__dict__.get("cvars", [])[mark:]
    def feasible(self, name, cs, witness=None, mark=0, weak=None, hyps=(), lemmas=None):
        """the constraints are satisfiable (in the internal variables created since `mark`); `lemmas` gets the PSD matrices"""
        vs = self.new_vars(mark)
        mp = {}
        f = logic.And(self.cons(cs), *[v.attr_formula() for v in vs])
        if vs:
            if witness is None: raise Unsupported("constraints with internal variables and no witness")
            try: ws = witness(vs)
            except (IndexError, ValueError, KeyError, TypeError, AttributeError) as e: raise Unsupported(f"witness does not fit the constraints: {e}")
            if ws is None or len(ws) != len(vs): raise Unsupported("witness does not fit the constraints")
            auto = set()
            for v, x in zip(vs, ws):
                X = arr.coerce(x) if x is not None else None
                if X is not None and X.a.shape != v.v.a.shape: raise Unsupported("witness does not fit the constraints")
                for i, e in enumerate(v.v.a.flat):
                    if isinstance(e, S) and len(e.d) == 1:
                        (m, c), = e.d.items()
                        if c == 1 and len(m) == 1 and m[0][1] == 1:
                            if X is None: auto.add(m[0][0])
                            else: mp[m[0][0]] = to_num(X.a.flat[i])
            if auto: self._solve_eqs(cs, auto, mp)
            f = logic.subst_vars(f, mp)
        if lemmas:
            for c, M in self.psd_mats(cs, vs):
                self.under(c, lambda: lemmas(Arr(arr.map_core(M.a, lambda e: logic.subst_vars(e, mp)), M.ax, M.dt) if mp else M))
        self.ensure(name, f, weak=bool(vs) if weak is None else weak, hyps=hyps)
    def _solve_eqs(self, cs, auto, mp):
        """values of the unknowns that the equations of the constraints define"""
        eqs = []
        def walk(c):
            if isinstance(c, loader.Gen): walk(c.item)
            elif isinstance(c, arr.SymSeq): walk(c.elt)
            elif isinstance(c, (list, tuple)):
                for x in (list.__iter__(c) if isinstance(c, list) else c): walk(x)
            elif isinstance(c, cp_shim.Constraint) and c.kind == "eq":
                a, b = c.args
                if a.a.shape == b.a.shape: eqs.extend(zip(a.a.flat, b.a.flat))
        walk(cs)
        def unknown(e):
            if isinstance(e, S) and len(e.d) == 1:
                (m, c), = e.d.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in auto and m[0][0] not in mp: return m[0][0]
        for _ in range(4):
            left = auto - set(mp)
            if not left: return
            for a, b in eqs:
                for x, y in ((a, b), (b, a)):
                    u = unknown(x)
                    if u is None: continue
                    r = logic.subst_vars(y, mp) if isinstance(y, S) else y
                    if isinstance(r, S) and any(logic.depends(k, left) for m in r.d for k, _e in m): continue
                    mp[u] = to_num(r); left.discard(u)
        if auto - set(mp): raise Unsupported("internal variables of the constraints without a witness")
    def given_feasible(self, cs, mark=0):
        vs = self.new_vars(mark)
        self.assume(logic.And(self.cons(cs), *[v.attr_formula() for v in vs]))
    def psd_mats(self, cs, vs=()):
        """(generic axis or None, matrix) of every PSD constraint (and PSD variable)"""
        out = []
        def walk(c, ax):
            if isinstance(c, loader.Gen): walk(c.item, c.axis)
            elif isinstance(c, cp_shim.Constraint):
                if c.psd is not None: out.append((ax, c.psd))
            elif isinstance(c, arr.SymSeq): walk(c.items(), ax)
            elif isinstance(c, (list, tuple)):
                for x in (list.__iter__(c) if isinstance(c, list) else c): walk(x, ax)
        walk(cs, None)
        for v in vs:
            if v.attrs["PSD"]:
                if len(v.loops) > 1: raise Unsupported("lemma for a variable of nested loops")
                out.append((v.loops[0] if v.loops else None, v.v))
        return out
    def expr_value(self, e): return e.v if isinstance(e, cp_shim.Expr) else e
    def implied(self, shape, build, goals, hints=None):
        """whatever satisfies the constraints build(V) satisfies every goal (name, kind, f): f(V) >= 0, a PSD matrix, or zero"""
        n = f"V{self.mark()}."
        V = self.cvar(self.mat(n, *shape) if len(shape) == 2 else self.vec(n, shape[0]))
        k = self.mark(); cs = build(V); self.given_feasible(cs, k)
        if hints: hints(cs, self.new_vars(k), V.v)
        for name, kind, f in goals:
            e = self.expr_value(f(V.v))
            if kind == "psd": self.ensure(name, self.psd(e))
            elif kind == "zero": self.ensure(name, self.eq(e, e * 0))
            else: self.ensure(name, self.le(0, e))
    def given_psd(self, cs, lemma, mark=0):
        """use `lemma(M)` for every PSD matrix of the constraints"""
        for ax, M in self.psd_mats(cs, self.new_vars(mark)): self.under(ax, lambda: lemma(M))
    def masks_of(self, axis):
        """the conditions by which the code has selected rows of this axis on the current path"""
        return [na.src[1] for na, _ in self.w.__dict__.get("masks", {}).values() if na.src[0] is axis]
    def under(self, axis, f):
        """assumptions made by f, for every index of the axis"""
        if axis is None: return f()
        old = self.w.__dict__.get("assume"); got = []
        self.w.assume = lambda b: got.append(logic.tob(b))
        try: f()
        finally:
            if old is None: del self.w.assume
            else: self.w.assume = old
        for b in got:
            for tk in axis.toks: b = arr.forall_axis(tk, axis, b)
            self.w.assume(b)
    # -- lemmas about positive semidefiniteness (instances of the definition)
    def psd_at(self, M, v):
        """M psd => v' M v >= 0"""
        M = M.v if isinstance(M, cp_shim.Expr) else M
        q = v @ (M @ v)
        self.w.assume(logic.Implies(self.psd(M), self._f(self.le(0, q))))
    def psd_minors(self, M, order=2):
        """M psd => all principal minors up to the order are non-negative"""
        import itertools
        n = M.a.shape[0]
        X = (M + M.T) / 2
        for k in range(1, order + 1):
            for ix in itertools.combinations(range(n), k):
                d = np_shim.det(Arr(X.a[np.ix_(ix, ix)]))
                self.w.assume(logic.Implies(self.psd(M), self._f(self.le(0, d))))
    def psd_outer(self, name, M, terms):
        """M = sum c_k v_k v_k' with c_k >= 0 (checked) => M psd"""
        M = M.v if isinstance(M, cp_shim.Expr) else M
        n = M.a.shape[0]
        T = np_shim.zeros((n, n))
        oks = []
        for t in terms:
            if len(t) == 3:                       # (axis array, c, v): sum over the rows of a batch
                X, c, v = t; A = X.ax[0]
                T = T + arr.array([[logic.bigsum(A, c * v[i] * v[j]) for j in range(n)] for i in range(n)])
                r = self.le(0, c)
                for tk in A.toks: r = arr.forall_axis(tk, A, r)
                oks.append(r)
            else:
                c, v = t
                T = T + c * arr.array([[v[i] * v[j] for j in range(n)] for i in range(n)])
                oks.append(self.le(0, c))
        ok = self.And(self.eq((M + M.T) / 2, T), *oks)
        self.w.assume(logic.Implies(ok, self.psd(M)))
        return ok
    def rule_mul(self, *pairs):
        """c > 0 and c e >= 0 => e >= 0; c >= 0 and e >= 0 => c e >= 0 (so that linear arithmetic suffices)"""
        for c, e in pairs:
            c = to_num(c); e = to_num(e)
            self.w.assume(logic.Implies(self.And(self.lt(0, c), self.le(0, c * e)), self._f(self.le(0, e))))
            self.w.assume(logic.Implies(self.And(self.le(0, c), self.le(0, e)), self._f(self.le(0, c * e))))
    def rule_abs(self, *pairs):
        """y >= 0 and x^2 <= y^2 => -y <= x <= y"""
        for x, y in pairs:
            self.w.assume(logic.Implies(self.And(self.le(0, y), self.le(x * x, y * y)), self.And(self.le(x, y), self.le(-y, x))))
    def same_cons(self, name, cs1, vs1, cs2, vs2):
        """two lists of constraints mean the same, their internal variables (in order of creation) identified"""
        shp = lambda vs: [(v.v.a.shape, v.attrs, len(v.loops)) for v in vs]
        if shp(vs1) != shp(vs2): return self.ensure(name + ": internal variables", False)
        mp = {}
        for v, u in zip(vs1, vs2):
            for e, y in zip(u.v.a.flat, v.v.a.flat):
                if isinstance(e, S) and len(e.d) == 1:
                    (m, c), = e.d.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1: mp[m[0][0]] = to_num(y)
        f1 = self.cons(cs1); f2 = logic.subst_vars(self.cons(cs2), mp) if mp else self.cons(cs2)
        fs = [list(f.a) if isinstance(f, B) and f.k == "and" else [f] for f in (f1, f2)]
        if len(fs[0]) == len(fs[1]):
            for k, (a, b) in enumerate(zip(*fs)): self.ensure(f"{name} ({k})", self.iff(a, b))
        else: self.ensure(name, self.iff(f1, f2))
    def closed(self, name, build, parts, V):
        """if every constraint list build(part) holds, with whatever internal values, then build(V) holds with the sum of those values"""
        css = []
        for f, P in parts:
            k = self.mark(); cs = f(self.cvar(P)); self.given_feasible(cs, k); css.append((cs, self.new_vars(k)))
        k = self.mark(); cs = build(self.cvar(V)); vs = self.new_vars(k)
        if any(len(w) != len(vs) for _, w in css): raise Unsupported("constraints of different structure")
        for i, v in enumerate(vs):
            if any(w[i].v.a.shape != v.v.a.shape for _, w in css): raise Unsupported("constraints of different structure")
        def W(vs):
            out = [w.v for w in css[0][1]]
            for _, ws in css[1:]: out = [a + b.v for a, b in zip(out, ws)]
            return out
        mats = [self.psd_mats(c, w) for c, w in css]
        if len(css) > 1:
            it = iter(range(10**6))
            def lem(M):
                j = next(it)
                if all(j < len(m) and m[j][1].a.shape == M.a.shape for m in mats):
                    acc = mats[0][j][1]
                    for m in mats[1:]:
                        self.psd_add(acc + m[j][1], acc, m[j][1]); acc = acc + m[j][1]
        else: lem = None
        self.feasible(name, cs, witness=W, mark=k, lemmas=lem)
    def rule_eq(self, *triples):
        """a = b => c a = c b"""
        for c, a, b in triples:
            a = to_num(a); b = to_num(b)
            self.w.assume(logic.Implies(self._f(self.eq(a, b)), self._f(self.eq(c * a, c * b))))
    def eq_mult(self, cs, *mults):
        """e = 0 => c e = 0 for every equation e = 0 among the constraints"""
        def walk(c, ax):
            if isinstance(c, loader.Gen): walk(c.item, c.axis)
            elif isinstance(c, arr.SymSeq): walk(c.items(), ax)
            elif isinstance(c, (list, tuple)):
                for x in (list.__iter__(c) if isinstance(c, list) else c): walk(x, ax)
            elif isinstance(c, cp_shim.Constraint) and c.kind == "eq" and not c.args[0].sym() and not c.args[1].sym():
                def f():
                    for e in (c.args[0] - c.args[1]).a.flat if (c.args[0].ndim or c.args[1].ndim) else [c.args[0].a[()] - c.args[1].a[()]]:
                        if is_num(e) and not alg.is_const(e):
                            for k in mults: self.w.assume(logic.Implies(self._f(self.eq(e, self.c(0))), self._f(self.eq(k * e, self.c(0)))))
                self.under(ax, f)
        walk(cs, None)
    def eq_cong(self, cs, T, *mults):
        """A = B => c (T A T' - T B T') = 0 entrywise, for the square matrix equations"""
        for c in (list.__iter__(cs) if isinstance(cs, list) else cs):
            if isinstance(c, cp_shim.Constraint) and c.kind == "eq" and all(x.ndim == 2 and x.a.shape == T.a.shape and not x.sym() for x in c.args):
                A, C = c.args
                D = T @ (A - C) @ T.T
                h = self.eq(A, C)
                for e in D.a.flat:
                    if is_num(e) and not alg.is_const(e): self.w.assume(logic.Implies(h, self.And(*[self.eq(k * e, self.c(0)) for k in (self.c(1),) + mults])))
    def nneg_mult(self, vs, *mults):
        """products of non-negative variable entries with the given values"""
        for v in vs:
            if v.attrs["nonneg"] and not v.loops and not v.v.sym():
                for e in v.v.a.flat: self.rule_mul(*[(e, k) for k in mults])
    def rule_square(self, *xs):
        for x in xs: self.w.assume(self.le(0, x * x))
    def rule_sum(self, f, *Xs):
        """f(rows) = (a, b): if a, b >= 0 in every row then the sum of a b over the rows is >= 0"""
        def prem(*r):
            a, b = f(*r); return self.And(self.le(0, a), self.le(0, b))
        def prod(*r):
            a, b = f(*r); return a * b
        if Xs[0].ax[0] is None: return
        p = self.forall_rows(prem, *Xs)
        self.w.assume(logic.Implies(p, self._f(self.le(0, self.sum_rows(prod, *Xs)))))
    def psd_gram(self, M, L):
        """M = L L' => M psd"""
        L = L if isinstance(L, Arr) else arr.array(L)
        self.w.assume(logic.Implies(self.eq((M + M.T) / 2, L @ L.T), self.psd(M)))
    def psd_cong(self, M, T, N):
        """M = T N T' and N psd => M psd"""
        self.w.assume(logic.Implies(self.And(self.eq((M + M.T) / 2, T @ ((N + N.T) / 2) @ T.T), self.psd(N)), self.psd(M)))
    def psd_add(self, M, N, P):
        """M = N + P, both psd => M psd"""
        self.w.assume(logic.Implies(self.And(self.eq(M, N + P), self.psd(N), self.psd(P)), self.psd(M)))
    def lemma(self, name, f, hyps=()):
        """prove, then use"""
        self.ensure(name, f, hyps=hyps)
        if self.obls[-1].status == "proved":
            self.w.assume(logic.Implies(self.And(*hyps) if hyps else True, self._f(f)))
    def snapshot(self, *objs): return snap(objs)

def inexact(fs):
    seen = set(); todo = []
    def walk_b(f):
        if isinstance(f, bool): return False
        if f.k in ("forall", "exists", "pred"): return True
        if f.k == "cmp": todo.extend(f.a[1].atoms()); return False
        return any(walk_b(x) for x in f.a)
    for f in fs:
        if isinstance(f, B) and walk_b(f): return True
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a); A = alg.ATOMS[a]
        if A.kind in ("bigsum", "ufun", "lam", "root", "pi"): return True
        if A.kind == "var" and (A.key[0] in ("ext", "idx", "loop") if isinstance(A.key, tuple) else False): return True
        if A.toks: return True
        for x in A.args:
            if isinstance(x, S): todo.extend(x.atoms())
            elif isinstance(x, B): 
                if walk_b(x): return True
            elif isinstance(x, tuple):
                for v in x:
                    if isinstance(v, S): todo.extend(v.atoms())
    return False

# ================================================================================ snapshots of objects (frame conditions)
def snap(o, memo=None, depth=0):
    """structure of everything reachable from o, by value"""
    memo = {} if memo is None else memo
    if isinstance(o, (bool, int, float, Fraction, str, bytes, type(None), S, B, Special, np.generic)): return o
    if isinstance(o, Arr): return ("arr", o.a.copy(), o.ax)
    if isinstance(o, np.ndarray):
        return ("nd", o.copy()) if o.dtype != object else ("obj", [snap(x, memo, depth) for x in o.flat])
    if id(o) in memo: return ("ref", memo[id(o)])
    memo[id(o)] = len(memo)
    if isinstance(o, (list, tuple)): return (type(o).__name__, [snap(x, memo, depth + 1) for x in list.__iter__(o)] if isinstance(o, list) else [snap(x, memo, depth + 1) for x in o])
    if isinstance(o, dict): return ("dict", [(repr(k), snap(v, memo, depth + 1)) for k, v in o.items()])
    if isinstance(o, loader.Gen): return ("gen", snap(o.item, memo))
    if type(o).__name__ in ("Generator", "CddMatrix", "Matrix"): return ("opaque",)
    if hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o):
        return (type(o).__name__, [(k, snap(v, memo, depth + 1)) for k, v in sorted(vars(o).items())])
    return ("opaque", type(o).__name__)

def snap_diff(a, b, path=""):
    """first difference between two snapshots, or None"""
    if type(a) is not type(b): 
        if is_num(a) and is_num(b): return None if (a is b or _sx(a, b)) else path
        return path or "value"
    if isinstance(a, tuple):
        if len(a) != len(b) or (isinstance(a[0], str) and a[0] != b[0]): return path or "structure"
        if a and a[0] == "arr":
            if a[1].shape != b[1].shape or a[2] != b[2]: return path + ".shape"
            for x, y in zip(a[1].flat, b[1].flat):
                if not _sx(x, y): return path + "[...]"
            return None
        if a and a[0] == "nd":
            return None if a[1].shape == b[1].shape and np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == "f") else path + "[...]"
        for k, (x, y) in enumerate(zip(a, b)):
            r = snap_diff(x, y, path + (f".{x}" if False else ""))
            if r is not None: return r
        return None
    if isinstance(a, list):
        if len(a) != len(b): return path + ".len"
        for x, y in zip(a, b):
            p = path
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str): p = path + "." + x[0]
            r = snap_diff(x, y, p)
            if r is not None: return r
        return None
    return None if _sx(a, b) else (path or "value")
def _sx(x, y):
    if x is y: return True
    if isinstance(x, S): return x.same(y) or (is_num(y) and alg.is_zero(x - y))
    if isinstance(x, B): return x.same(y)
    if isinstance(y, (S, B)): return False
    if isinstance(x, Special) or isinstance(y, Special): return isinstance(x, Special) and isinstance(y, Special) and x.kind == y.kind
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y: return True
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray): return np.array_equal(x, y)
    try: return bool(x == y)
    except Exception: return x is y

# ================================================================================ concrete mode
_REAL = {}
def real_rigeo():
    if "rg" not in _REAL:
        if loader.SRC not in sys.path: sys.path.insert(0, loader.SRC)
        import warnings
        warnings.filterwarnings("ignore")
        np.seterr(all="ignore")
        import rigeo, cvxpy
        _REAL["rg"] = rigeo; _REAL["cp"] = cvxpy
    return _REAL["rg"]

RT, AT = 1e-6, 1e-7
def _rand_rot(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0: q[:, 0] = -q[:, 0]
    return q

_SIZES = None
def source_sizes():
    """numbers in the source that may be sizes from which on the code does something else: inputs around them are tried too"""
    global _SIZES
    if _SIZES is None:
        import ast
        c = set()
        for path, text, _ in loader.parse_package().values():
            for n in ast.walk(ast.parse(text)):
                if isinstance(n, ast.Constant) and type(n.value) is int and 13 <= n.value <= 6000: c.add(n.value)
        _SIZES = sorted(c)
    return _SIZES

class Conc(Base):
    def __init__(self, seed, given=None, label=""):
        self.rg = real_rigeo(); self.np = np; self.cp = _REAL["cp"]
        self.rs = np.random.default_rng(seed); self.given = given or {}; self.used = {}
        self.failed = []; self.nchecks = 0; self.unknown = 0; self.checks = {}
        self.style = self.rs.integers(0, 6)
        self.label = label; self.tol = 1.0
        self.ints = "#ints" in self.given or os.environ.get("VERIF_INTS") == "1" or (not self.given and np.random.default_rng([seed % 2**32, 7]).random() < 0.15)
        if self.ints: self.used["#ints"] = 1
    # -- inputs
    def _whole(self, X):
        """the same numbers, as a caller writes them: integers where all are whole (in the runs which pass integers)"""
        if not self.ints: return X
        X = np.asarray(X)
        if X.dtype.kind != "f" or not np.isfinite(X).all() or np.any(X != np.round(X)): return X if X.ndim else float(X)
        return X.astype(int) if X.ndim else int(X)
    def vec(self, name, n=3, **k): return self._whole(Base.vec(self, name, n, **k))
    def mat(self, name, n, m=None): return self._whole(Base.mat(self, name, n, m))
    def symmat(self, name, n=3): return self._whole(Base.symmat(self, name, n))
    def pos(self, name): return self._whole(Base.pos(self, name))
    def nneg(self, name): return self._whole(Base.nneg(self, name))
    def extents(self, name, pattern): return self._whole(Base.extents(self, name, pattern))
    def c(self, x): return float(x)
    def q(self, a, b=1): return a / b
    def pi(self): return math.pi
    twin = None
    def twins(self, tag): self.twin = tag        # inputs with the tag mostly repeat those without
    def _get(self, name, mk):
        if name in self.used: return self.used[name] if not isinstance(self.used[name], np.ndarray) else self.used[name].copy()
        g = self.given.get(name)
        if g is None and self.twin and self.twin in name and name.replace(self.twin, "") in self.used and self.rs.random() < 0.8:
            g = self.used[name.replace(self.twin, "")]
            if isinstance(g, float) and self.rs.random() < 0.15: g = g * (1 + self.rs.choice([1e-12, 1e-3, 0.1])) + self.rs.choice([0, 1e-10, 1e-7, 1e-4])
        v = mk() if g is None else g
        if isinstance(v, list): v = np.array(v, dtype=float)
        self.used[name] = v
        return v.copy() if isinstance(v, np.ndarray) else v
    def real(self, name, sign=None, near=None):
        def mk():
            r = self.rs
            st = self.style
            if self.ints: return float(r.integers(1 if sign == "pos" else 0, 6) if sign in ("pos", "nneg") else r.integers(-4, 5))
            if sign in ("pos", "nneg"):
                if sign == "nneg" and r.random() < 0.1: return 0.0
                if st == 0: return 1.0
                if st == 1: return float(r.choice([0.5, 1.0, 2.0]))
                return float(r.uniform(0.2, 2.5)) if st < 5 else float(10 ** r.uniform(-2, 1.5))
            if near is not None and r.random() < 0.7: return float(near * (1 + r.choice([0, 1e-9, -1e-9, 1e-3, -1e-3])))
            if st == 0: return float(r.choice([0.0, 1.0, -1.0]))
            if st == 1: return float(r.choice([0.0, 0.5, -0.5, 1.0, -1.0, 2.0]))
            return float(r.normal()) if st < 5 else float(r.normal() * 10 ** r.uniform(-1, 1))
        v = float(self._get(name, mk))
        if sign == "pos" and v <= 0 or sign == "nneg" and v < 0: raise Reject()
        return v
    def int(self, name, sign=None, lo=None, hi=None):
        def mk():
            a = lo if lo is not None else (1 if sign == "pos" else 0 if sign == "nneg" else -20)
            b = hi if hi is not None else a + int(self.rs.choice([1, 3, 10, 60]))
            return int(self.rs.integers(a, b + 1))
        v = int(self._get(name, mk))
        if lo is not None and v < lo or hi is not None and v > hi: raise Reject()
        if sign == "pos" and v < 1 or sign == "nneg" and v < 0: raise Reject()
        return v
    def arr(self, x): return np.array(x, dtype=float)
    def rot(self, name, n=3, special=True):
        def mk():
            r = self.rs
            k = r.integers(0, 4)
            if n == 1: return np.eye(1)
            if k == 0: return np.eye(n)
            if k == 1:
                P = np.eye(n)[r.permutation(n)] * r.choice([-1.0, 1.0], size=n)[:, None]
                if np.linalg.det(P) < 0: P[0] = -P[0]
                return P
            return _rand_rot(r, n)
        R = np.array(self._get(name, mk), dtype=float)
        if name in self.given:
            u, _, vt = np.linalg.svd(R)
            R2 = u @ vt
            if special and np.linalg.det(R2) < 0: raise Reject()
            if np.abs(R2 - R).max() > 1e-3: raise Reject()
            R = R2; self.used[name] = R
        return self._whole(R)
    def orth(self, name, n=3):
        return self.rot(name, n, special=False)
    def unit(self, name, n=3): return self.rot(name, n)[:, 0]
    def count(self, name, lo=1):
        def mk():
            sizes = source_sizes()
            if sizes and self.rs.random() < 0.2: k = int(self.rs.choice(sizes)); return max(lo, int(self.rs.choice([k, k + 1, k + k // 2])))
            return int(self.rs.choice([lo, lo + 1, lo + 2, lo + 4]))
        v = self._get(name, mk)
        if name in self.given: v = min(v, 50)
        v = int(v)
        if v < lo: raise Reject()
        return v
    def many(self, name, n, shape=(), sign=None, sort="R"):
        def mk():
            X = self.rs.normal(size=(n,) + tuple(shape))
            if self.ints: X = np.round(3 * X)
            if self.style == 0: X = np.round(X)
            if sign in ("pos", "nneg"): X = np.abs(X) + ((1 if self.ints else 0.1) if sign == "pos" else 0)
            if n > 1 and self.rs.random() < 0.15: X[self.rs.integers(1, n)] = X[0]      # a repeated row
            return X if sort == "R" else np.round(X).astype(int)
        return self._whole(np.array(self._get(name, mk)))
    def many_rot(self, name, n, d=3, special=True):
        return np.array(self._get(name, lambda: np.array([_rand_rot(self.rs, d) for _ in range(n)])))
    def each(self, f, *Xs): return [f(*r) for r in zip(*Xs)]
    def seed(self, name="seed"): return int(self._get(name, lambda: int(self.rs.integers(0, 1000)))) % 100000
    def rng(self, name="seed"): return np.random.default_rng(self.seed(name))
    def cvar(self, value):
        value = np.asarray(value, dtype=float)
        v = self.cp.Variable(value.shape)
        v.value = value
        self.__dict__.setdefault("cvals", []).append((v, value))
        return v
    def seq_item(self, X): return X[self.rs.integers(0, len(X))]
    # -- three-valued logic
    def And(self, *xs):
        xs = [self._t(x) for x in xs]
        if any(x is False for x in xs): return False
        return None if any(x is None for x in xs) else True
    def Or(self, *xs):
        xs = [self._t(x) for x in xs]
        if any(x is True for x in xs): return True
        return None if any(x is None for x in xs) else False
    def Not(self, x):
        x = self._t(x); return None if x is None else not x
    def _t(self, x):
        if x is None or isinstance(x, bool): return x
        if isinstance(x, np.bool_): return bool(x)
        if isinstance(x, (list, tuple)): return self.And(*x)
        if isinstance(x, np.ndarray): return bool(np.all(x))
        return bool(x)
    truth = _t
    def _bc(self, a, b):
        a = a.value if hasattr(a, "value") and not isinstance(a, np.ndarray) else a
        b = b.value if hasattr(b, "value") and not isinstance(b, np.ndarray) else b
        return np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    def eq(self, a, b):
        a, b = self._bc(a, b)
        if a.ndim and b.ndim and a.shape != b.shape: return False
        if a.size == 0: return True
        if np.isnan(a).any() or np.isnan(b).any(): return False
        if np.isinf(a).any() or np.isinf(b).any(): return True if np.array_equal(a, b) else False
        sc = max(np.max(np.abs(a)), np.max(np.abs(b)), 0)
        d = np.max(np.abs(a - b))
        if d > (AT + RT * sc) * self.tol: return False
        return True if d == 0 else None
    def le(self, a, b):
        a, b = self._bc(a, b)
        if np.isnan(a).any() or np.isnan(b).any(): return False
        if a.size == 0 or b.size == 0: return True
        with np.errstate(all="ignore"):
            t = (AT + RT * np.maximum(np.abs(a), np.abs(b))) * self.tol
            if np.any(a > b + t): return False
            return True if np.all(a <= b - t) else None
    def lt(self, a, b): return self.le(a, b)
    def same_shape(self, a, shape): return tuple(np.shape(a)) == tuple(int(x) for x in shape)
    def psd(self, M):
        M = np.asarray(M, dtype=float)
        if not np.isfinite(M).all(): return False
        l = np.linalg.eigvalsh((M + M.T) / 2)[0]
        t = 1e-7 * (1 + np.abs(M).max()) * self.tol
        return False if l < -t else (True if l > t else None)
    def forall_row(self, X, f): return self.And(*[f(x) for x in X])
    def forall_rows(self, f, *Xs): return self.And(*[f(*r) for r in zip(*Xs)])
    def hull_cuts(self, *a, **k): pass
    def sum_rows(self, f, *Xs): return sum(f(*r) for r in zip(*Xs))
    # -- obligations
    def assume(self, f):
        r = self._t(f)
        if r is False: raise Reject()
    def ensure(self, name, f, weak=False, hyps=()):
        if hyps:
            h = self.And(*hyps)
            if h is not True: return
        r = self._t(f)
        self.nchecks += 1
        c = self.checks.setdefault(name, [0, 0]); c[0] += 1
        if r is True: c[1] += 1
        if r is False: self.failed.append(name)
    def unreachable(self, name): self.failed.append(name)
    def raises(self, exc, f):
        try: f()
        except exc: return True
        return False
    lemma = ensure
    # -- cvxpy
    def mark(self): return 0
    def new_vars(self, mark): return []
    def _feas(self, cs):
        cp = self.cp
        cs = list(cs) if isinstance(cs, (list, tuple)) else [cs]
        if any(isinstance(c, (bool, np.bool_)) and not c for c in cs): return False
        cs = [c for c in cs if not isinstance(c, (bool, np.bool_))]
        vals = self.__dict__.get("cvals", [])
        used = {v.id for c in cs for v in c.variables()}
        d = cp.Variable(nonneg=True)
        obj = 0; sc = 1.0
        extra = []
        for v, x in vals:
            if v.id not in used: continue
            sc = max(sc, float(np.max(np.abs(x))) if x.size else 1.0)
            extra.append(cp.abs(v - x) <= d)
        pr = cp.Problem(cp.Minimize(d), cs + extra)
        try: pr.solve(solver=cp.CLARABEL)
        except Exception: return None
        if pr.status in ("infeasible",): return False
        if pr.status not in ("optimal",): return None
        e = float(d.value) / sc
        return True if e < 2e-5 else (False if e > 2e-3 else None)
    def given_psd(self, *a, **k): pass
    def then(self, cs, goal):
        """the constraints imply goal() (compared with the accuracy of the solver)"""
        f = self._feas(cs)
        if f is not True: return self.implies(f, goal())
        old = self.tol; self.tol = max(old, 3e4)
        try: return goal()
        finally: self.tol = old
    def same_cons(self, name, cs1, vs1, cs2, vs2):
        known = {v.id for v, _ in self.__dict__.get("cvals", [])}
        def inner(cs):
            return sorted({v.id: v for c in cs if hasattr(c, "variables") for v in c.variables() if v.id not in known}.values(), key=lambda v: v.id)
        cs1, cs2 = list(cs1), list(cs2)
        a, b = inner(cs1), inner(cs2)
        if [v.shape for v in a] != [v.shape for v in b] or len(cs1) != len(cs2): return self.ensure(name, False)
        for v, u in zip(a, b):
            x = np.random.default_rng(v.size).normal(size=v.shape)
            if len(v.shape) == 2 and v.shape[0] == v.shape[1]: x = x @ x.T
            if v.attributes.get("nonneg"): x = abs(x)
            v.value = x; u.value = x
        for c, d in zip(cs1, cs2):
            if not hasattr(c, "args"): self.ensure(name, bool(c) == bool(d)); continue
            if type(c) is not type(d): return self.ensure(name, False)
            p = [np.asarray(y.expr.value if hasattr(y, "expr") else np.array(0)) for y in (c, d)]
            self.ensure(name, self.eq(p[0], p[1]) if p[0].shape == p[1].shape else False)
    def expr_value(self, e): return np.asarray(e.value, dtype=float) if hasattr(e, "value") else e
    def implied(self, shape, build, goals, hints=None):
        """minimise what is to be non-negative (for one goal picked at random)"""
        cp = self.cp; r = self.rs
        V = cp.Variable(tuple(shape)); cs = [c for c in build(V) if not isinstance(c, (bool, np.bool_))]
        name, kind, f = goals[int(self._get("goal", lambda: int(r.integers(0, len(goals))))) % len(goals)]
        e = f(V)
        sz = int(np.prod(e.shape)) if e.shape else 1
        d = np.array(self._get("direction", lambda: r.normal(size=64) * (r.random(64) < 0.6)))
        if kind == "psd":
            v = d[:e.shape[0]] + (np.abs(d[:e.shape[0]]).sum() == 0)
            v = v / np.linalg.norm(v); obj = v @ e @ v
        elif kind == "zero":
            g = np.resize(d, sz); obj = cp.sum(cp.multiply(g, cp.vec(e, order="C"))) if sz > 1 else d[0] * e
        else:
            k = int(self._get("entry", lambda: int(r.integers(0, 1000)))) % sz
            obj = e if not e.shape else cp.vec(e, order="C")[k]
        pr = cp.Problem(cp.Minimize(obj), cs + [cp.norm(cp.vec(V, order="C"), "inf") <= 10])
        try: pr.solve(solver=cp.CLARABEL)
        except Exception: return
        if pr.status != "optimal" or pr.value is None: return
        if not np.isfinite(pr.value): return
        self.ensure(name, False if pr.value < -2e-4 else True if pr.value > -1e-6 else None)
    def feasible(self, name, cs, witness=None, mark=0, weak=None, hyps=(), lemmas=None):
        if hyps and self.And(*hyps) is not True: return
        self.ensure(name, self._feas(cs))
    def given_feasible(self, cs, mark=0):
        if self._feas(cs) is not True: raise Reject()
        self.tol = 1e3
    def closed(self, name, build, parts, V):
        for f, P in parts:
            if self._feas(f(self.cvar(P))) is not True: raise Reject()
        self.ensure(name, self._feas(build(self.cvar(V))))
    def psd_at(self, *a): pass
    rule_eq = eq_mult = eq_cong = nneg_mult = rule_sum = rule_mul = rule_abs = rule_square = psd_minors = psd_outer = psd_gram = psd_cong = psd_add = psd_at
    def snapshot(self, *objs): return snap(objs)
