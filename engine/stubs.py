"""Contracts of callees used in place of their bodies (each is verified in its own right, see the property named)."""
from . import alg, logic, arr, np_shim
from .alg import S, is_const
from .arr import Arr

def make(pkg, W, on, real):
    st = {}
    pkg.stubs_used = set()
    def use(q): pkg.stubs_used.add(q)
    # C18: a polynomial denotes the map index -> coefficient, missing indices being zero
    def poly_init(orig, self, coefficients, tol=0):
        if not (is_const(tol) and tol == 0): return orig(self, coefficients, tol)
        use("rigeo.moment.Polynomial.__init__")
        MI = pkg.load("rigeo.moment").MomentIndex
        self.coefficients = {}
        for k, c in coefficients.items():
            if not isinstance(k, MI): k = MI(k)
            if isinstance(c, Arr) and c.ndim == 0: c = c.a[()]
            if is_const(c) and c == 0: continue
            self.coefficients[k] = c
    if "rigeo.moment.Polynomial.__init__" not in real: st["rigeo.moment.Polynomial.__init__"] = poly_init
    for q in on:
        st[q] = STUBS[q](pkg, W, use)
    return st

STUBS = {}

# ---------------------------------------------------------------- double description (assumed contract of cdd, conversion verified in C20)
def batch(W, name, n, shape):
    """array of n (symbolic or concrete) fresh rows"""
    import numpy as np
    name = W.fresh(name)
    if is_const(n):
        o = np.empty((int(n),) + tuple(shape), dtype=object)
        for ix in np.ndindex(*o.shape): o[ix] = alg.var(f"{name}{list(ix)}")
        return Arr(o, None, "f")
    A = arr.axis_for(n)
    o = np.empty((1,) + tuple(shape), dtype=object)
    for ix in np.ndindex(*shape): o[(0,) + ix] = logic.Family(f"{name}{list(ix)}").at([A.tok])
    return Arr(o, (A,) + (None,) * len(shape), "f")

def rows_forall(f, *Xs):
    """for all rows of equally long batches"""
    from . import loader
    X = Xs[0]
    if X.ax[0] is not None:
        r = logic.tob(f(*[loader.arr_item(Y) for Y in Xs]))
        for t in X.ax[0].toks: r = arr.forall_axis(t, X.ax[0], r)
        return r
    return logic.And(*[logic.tob(f(*[Y[i] for Y in Xs])) for i in range(X.a.shape[0])])

def dot(a, v):
    r = a @ v
    return r.a[()] if isinstance(r, Arr) else r

class Hull:
    """{x : A x <= b} is the convex hull of the rows of V"""
    def __init__(self, A, b, V): self.A = A; self.b = b; self.V = V
    def sound(self):
        return rows_forall(lambda a, be: rows_forall(lambda v: le(dot(a, v), be), self.V), self.A, self.b)
    def member(self, x): return rows_forall(lambda a, be: le(dot(a, x), be), self.A, self.b)
    def cut(self, x, A2, b2):
        """points of the hull satisfy every inequality that all vertices satisfy (instances: the rows of A2, b2)"""
        return logic.Implies(self.member(x), rows_forall(lambda a, be: logic.Implies(rows_forall(lambda v: le(dot(a, v), be), self.V), le(dot(a, x), be)), A2, b2))

def le(x, y):
    x = logic.to_num(x); y = logic.to_num(y)
    r = x <= y if isinstance(x, S) or not isinstance(y, S) else y >= x
    return logic.tob(r)

def _to_face(pkg, W, use):
    def stub(orig, self):
        if self.rays is not None or self.vertices is None: return orig(self)
        use("rigeo.polydd.SpanForm.to_face_form")
        V = self.vertices.copy(); n = V.shape[1]
        for V0, H in W.__dict__.setdefault("faces_of", []):     # a function of the vertices
            if V0.a.shape == V.a.shape and V0.ax == V.ax and all(alg.is_zero(x - y) for x, y in zip(V0.a.flat, V.a.flat)):
                return pkg.load("rigeo.polydd").FaceForm(H.A.copy(), H.b.copy())
        nf = alg.var(W.fresh("faces"), sort="I", sign="pos")
        H = Hull(batch(W, "Af", nf, (n,)), batch(W, "bf", nf, ()), V)
        W.add(H.sound())
        W.__dict__.setdefault("hulls", []).append(H); W.faces_of.append((V, H))
        return pkg.load("rigeo.polydd").FaceForm(H.A.copy(), H.b.copy())
    return stub
STUBS["rigeo.polydd.SpanForm.to_face_form"] = _to_face

# ---------------------------------------------------------------- samplers (verified in C12)
def _rows(W, rng, what, shp, n, facts):
    """array of shape shp + (n,) whose rows satisfy `facts(row)`; a function of the generator's state"""
    import numpy as np
    g = np_shim.NP.random.default_rng(rng)
    shp = np_shim.norm_shape(shp)
    key0 = tuple(s.key() if isinstance(s, S) else s for s in shp) + (n.key() if isinstance(n, S) else n,)
    d, key = g._name(what, key0)
    if key not in d:
        nm = W.fresh(what)
        ax, cs = np_shim.axes_for(shp + (n,))
        toks = [A.tok for A in ax if A is not None]
        o = np.empty(cs, dtype=object)
        fams = {i: logic.Family(nm + str(list(i))) for i in np.ndindex(*cs)}
        for i, F in fams.items():
            def fx(e, tk, i=i):
                row = np.empty(cs[-1:], dtype=object)
                for j in range(cs[-1]): row[j] = fams[i[:-1] + (j,)].at(tk)
                return [f for f in facts(Arr(row, ax[-1:], "f"), tk, i[-1]) if f is not True]
            F.facts = fx
            o[i] = F.at(toks)
        d[key] = Arr(o, ax, "f")
    return d[key].copy()

def _ball(pkg, W, use):
    def stub(orig, shape=1, dim=3, rng=None):
        one = not isinstance(shape, (tuple, list)) and bool(shape == 1)
        if not (is_const(dim) and dim >= 1) or (isinstance(shape, (tuple, list)) and len(shape) == 1 and is_const(shape[0]) and shape[0] == 1):
            return orig(shape, dim, rng)
        use("rigeo.random.random_points_in_ball")
        X = _rows(W, rng, "ball", (1,) if one else (tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)), int(dim),
                  lambda row, tk, j: [le(dot(row, row), 1)])
        return X[0] if one else X
    return stub
STUBS["rigeo.random.random_points_in_ball"] = _ball

def _weights(pkg, W, use):
    def stub(orig, shape, rng=None):
        shp = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        use("rigeo.random.random_weight_vectors")
        def facts(row, tk, j): return [le(0, row.a[j])]
        w = _rows(W, rng, "weights", shp[:-1], shp[-1], facts)
        t = np_shim.NP.sum(w, axis=-1)
        f = logic.tob(logic.cmp("eq", t.a[()] if isinstance(t, Arr) else t, 1)) if not isinstance(t, Arr) or t.ndim == 0 else arr.reduce_(t == 1, "all")
        W.add(f)
        return w
    return stub
STUBS["rigeo.random.random_weight_vectors"] = _weights

def _hypersphere(pkg, W, use):
    def stub(orig, shape=1, dim=2, rng=None):
        if not (is_const(dim) and dim >= 0): return orig(shape, dim, rng)
        shp = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        use("rigeo.random.random_points_on_hypersphere")
        one = len(shp) == 1 and bool(shp[0] == 1)
        X = _rows(W, rng, "sphere", (1,) if one else shp, int(dim) + 1, lambda row, tk, j: [eq(dot(row, row), 1)])
        return X[0] if one else X
    return stub
STUBS["rigeo.random.random_points_on_hypersphere"] = _hypersphere

def eq(x, y):
    r = logic.cmp("eq", x, y) if isinstance(x, S) else x == y
    return logic.tob(r)
