"""Shapes with arbitrary sizes and poses, and what their points are (in the shape's own coordinates)."""
import itertools
import numpy as np
from engine import alg

class Sh:
    """a shape under contract: obj, pose (c, R), and `mem(y, tol)` - y satisfies the defining inequalities up to tol"""
    def __init__(self, kind, obj, c, R, mem, **kw):
        self.kind = kind; self.obj = obj; self.c = c; self.R = R; self.mem = mem; self.__dict__.update(kw)
    def world(self, y): return self.c + self.R @ y

def between(s, y, h): return s.And(s.le(-h, y), s.le(y, h))
def sbetween(s, y, h): return s.And(s.lt(-h, y), s.lt(y, h))

def pose(s, tag, n=3):
    return s.vec("c" + tag, n), s.rot("R" + tag, n)

def sq(x): return x * x

# ---- membership in local coordinates; strict=True: strictly within
def box_mem(s, h, y, tol=0, strict=False):
    f = sbetween if strict else between
    return s.And(*[f(s, y[i], h[i] + tol) for i in range(3)])

def ell_mem(s, h, y, tol=0, strict=False):
    """h: list of half extents, None for a degenerate axis"""
    lt = s.lt if strict else s.le
    q = s.c(0); fs = []
    for i, hi in enumerate(h):
        if hi is None: fs.append(sbetween(s, y[i], tol) if strict else between(s, y[i], tol))
        else: q = q + sq(y[i]) / sq(hi)
    return s.And(lt(q, 1 + tol), *fs)

def cyl_mem(s, hl, r, y, tol=0, strict=False):
    """hl: half length or None, r: radius or None"""
    return s.And(ell_mem(s, [hl], [y[2]], tol, strict), ell_mem(s, [r, r], y[:2], tol, strict))

def cap_mem(s, hl, r, y, tol=0, strict=False, R=None):
    """with zero radius the tolerance applies per world coordinate (the caps are axis-aligned points)"""
    h = s.c(0) if hl is None else hl
    if r is None:
        e = R @ s.arr([y[0], y[1], y[2] - h]); f = R @ s.arr([y[0], y[1], y[2] + h])
        return s.Or(cyl_mem(s, hl, r, y, tol, strict), ell_mem(s, [r] * 3, e, tol, strict), ell_mem(s, [r] * 3, f, tol, strict))
    return s.Or(cyl_mem(s, hl, r, y, tol, strict), ell_mem(s, [r] * 3, [y[0], y[1], y[2] - h], tol, strict), ell_mem(s, [r] * 3, [y[0], y[1], y[2] + h], tol, strict))

# ---- shapes
def box(s, tag="", pattern=(1, 1, 1), flat=False, aligned=False):
    c, R = pose(s, tag)
    if aligned: R = s.eye(3)
    h = s.arr([s.nneg(f"h{tag}{i}") for i in range(3)]) if flat else s.extents("h" + tag, pattern)
    return Sh("box", s.rg.Box(h, center=c, rotation=R), c, R, lambda y, tol=0, strict=False: box_mem(s, h, y, tol, strict), h=h)

def ellipsoid(s, tag="", pattern=(1, 1, 1), orth=False):
    n = len(pattern)
    c = s.vec("c" + tag, n); R = (s.orth if orth else s.rot)("R" + tag, n)
    h = s.extents("h" + tag, pattern)
    hs = [h[i] if k else None for i, k in enumerate(pattern)]
    return Sh("ellipsoid", s.rg.Ellipsoid(h, rotation=R, center=c), c, R, lambda y, tol=0, strict=False: ell_mem(s, hs, y, tol, strict), h=h, hs=hs)

def sphere(s, tag="", n=3):
    c = s.vec("c" + tag, n); r = s.size("r" + tag)
    return Sh("sphere", s.rg.Ellipsoid.sphere(r, center=c), c, s.eye(n), lambda y, tol=0, strict=False: ell_mem(s, [r] * n, y, tol, strict), r=r, h=s.arr([r] * n))

def cylinder(s, tag="", pattern=(1, 1)):
    c, R = pose(s, tag)
    hl = s.size("hl" + tag) if pattern[0] else None
    r = s.size("r" + tag) if pattern[1] else None
    o = s.rg.Cylinder(length=s.c(0) if hl is None else 2 * hl, radius=s.c(0) if r is None else r, rotation=R, center=c)
    return Sh("cylinder", o, c, R, lambda y, tol=0, strict=False: cyl_mem(s, hl, r, y, tol, strict), hl=hl, r=r)

def capsule(s, tag="", pattern=(1, 1)):
    C = cylinder(s, tag, pattern)
    return Sh("capsule", s.rg.Capsule(C.obj), C.c, C.R, lambda y, tol=0, strict=False: cap_mem(s, C.hl, C.r, y, tol, strict, C.R), hl=C.hl, r=C.r, cyl=C.obj)

def polyhedron(s, tag="", n=3):
    """a polyhedron with any number of faces and vertices (its two forms taken as given)"""
    if s.sym:
        nf = s.count("nf" + tag); nv = s.count("nv" + tag)
        A = s.many("A" + tag, nf, (n,)); b = s.many("b" + tag, nf); V = s.many("V" + tag, nv, (n,))
        P = s.rg.ConvexPolyhedron(face_form=s.rg.FaceForm(A, b), span_form=s.rg.SpanForm(V))
        # the vertices satisfy the face inequalities
        s.assume(s.forall_row(V, lambda v: s.le(A @ v, b)))
    else:
        P = s.rg.ConvexPolyhedron.from_vertices(s.many("V" + tag, s.count("nv" + tag, lo=n + 1), (n,)), prune=True)
        A, b, V = P.A, P.b, P.vertices
    def mem(y, tol=0, strict=False): return (s.lt if strict else s.le)(A @ y, b + tol)
    return Sh("polyhedron", P, s.zeros(n), s.eye(n), mem, A=A, b=b, V=V, n=n)

KINDS = ["box", "ellipsoid", "cylinder", "capsule", "polyhedron", "sphere"]
def make(s, kind, tag=""):
    """kind, optionally with a degeneracy pattern: 'ellipsoid110'"""
    name = kind.rstrip("01"); pat = tuple(int(x) for x in kind[len(name):])
    f = dict(box=box, ellipsoid=ellipsoid, cylinder=cylinder, capsule=capsule, polyhedron=polyhedron, sphere=sphere)[name]
    return f(s, tag, pat) if pat else f(s, tag)

ELL3 = ["ellipsoid" + "".join(map(str, p)) for p in itertools.product((1, 0), repeat=3)]
CYL = ["cylinder11", "cylinder10", "cylinder01", "cylinder00"]
CAP = ["capsule11", "capsule01"]

# ---- using a shape that came out of the code under contract
def inside(s, T, p):
    """T contains p"""
    if s.sym: return T.contains(p, tol=s.c(0))
    return bool(s.np.all(T.contains(p, tol=1e-6 * (1 + s.np.abs(p).max()))))
def outside_(s, T, p): return s.Not(inside(s, T, p))
def on_boundary(s, T, p):
    if s.sym: return T.on_surface(p, tol=s.c(0))
    return bool(s.np.all(T.on_surface(p, tol=1e-6 * (1 + s.np.abs(p).max()))))
def point_in(s, S, tag="y"):
    """local coordinates of an arbitrary point of S"""
    if s.sym:
        y = s.vec(tag, len(S.c))
        flat = []   # coordinates that membership forces to zero
        if S.kind == "ellipsoid": flat = [i for i, h in enumerate(S.hs) if h is None]
        elif S.kind == "cylinder": flat = ([2] if S.hl is None else []) + ([0, 1] if S.r is None else [])
        elif S.kind == "capsule" and S.r is None: flat = [0, 1]
        elif S.kind == "box": flat = [i for i, h in enumerate(S.h) if alg.is_const(h) and h == 0]
        if flat: y = s.arr([s.c(0) if i in flat else y[i] for i in range(len(S.c))])
        s.assume(S.mem(y))
        return y
    return local_sample(s, S, tag)
def local_sample(s, S, tag):
    np = s.np; r = s.rs; d = len(S.c)
    def mk():
        u = r.normal(size=d); u = u / np.linalg.norm(u) * (1 if r.random() < 0.5 else r.random())
        if S.kind in ("ellipsoid", "sphere"): return u * np.array(S.h)
        if S.kind == "box":
            w = r.uniform(-1, 1, size=3)
            if r.random() < 0.5: w = np.sign(w)
            return w * np.array(S.h)
        hl, rad = S.__dict__.get("hl") or 0, S.__dict__.get("r") or 0
        if S.kind == "cylinder":
            a = r.uniform(0, 6.3); k = rad * (1 if r.random() < 0.5 else r.random())
            return np.array([k * np.cos(a), k * np.sin(a), hl * r.choice([1, -1, r.uniform(-1, 1)])])
        if S.kind == "capsule": return u * rad + np.array([0, 0, hl * r.choice([1, -1, r.uniform(-1, 1)])])
        w = r.exponential(size=len(S.V)); return (w / w.sum()) @ S.V
    return np.array(s._get(tag, mk))
def norm2(v): return sum((x * x for x in v[1:]), v[0] * v[0])

class Abstract:
    """a shape about which nothing is known except that contains() decides membership point by point"""
    def __init__(self, s, name):
        self.s = s; self.name = name
        if not s.sym:
            self.n = s._get(name + ".n", lambda: s.rs.normal(size=3)); self.d = s._get(name + ".d", lambda: s.rs.normal() * 0.7)
    def accepts(self, row):
        from engine import logic
        return logic.ufun("in_" + self.name, *list(row)) > 0
    def spec(self, p): return self.accepts(p) if self.s.sym else bool(np.dot(p, self.n) <= self.d)
    def contains(self, points, tol=1e-8):
        if not self.s.sym: return np.asarray(points) @ self.n <= self.d
        return sym_map(points, self.accepts)

def sym_map(points, f):
    """elementwise predicate over the last axis of a symbolic array"""
    from engine.arr import Arr
    P = points
    if P.ndim == 1: return f(list(P.a))
    o = np.empty(P.a.shape[:-1], dtype=object)
    for ix in np.ndindex(*o.shape): o[ix] = f(list(P.a[ix]))
    return Arr(o, P.ax[:-1], "b")

class AbstractBound:
    """a bounding shape: random_points() returns that many drawn points, a flat one if a single point is asked for"""
    def __init__(self, s): self.s = s; self.calls = 0; self.out = []; self.last = None
    def drawn(self, row):
        from engine import logic
        return logic.ufun("drawn", *list(row)) > 0
    def spec(self, p): return self.drawn(p) if self.s.sym else any(np.array_equal(p, q) for q in self.out)
    def random_points(self, shape=1, rng=None):
        self.calls += 1
        if not self.s.sym:
            n = int(shape) if np.isscalar(shape) else shape
            X = rng.normal(size=(n, 3)) if np.isscalar(n) else rng.normal(size=tuple(n) + (3,))
            self.out += list(X.reshape(-1, 3))
            return X[0] if np.isscalar(n) and n == 1 else X
        from engine import stubs
        one = bool(shape == 1)
        X = stubs._rows(self.s.w, rng, "drawn", (1,) if one else (shape,), 3, lambda row, tk, j: [self.drawn(row)])
        self.last = X
        return X[0] if one else X

def contract_contains(s, S):
    """contains() of one shape replaced by a predicate of the point (what it implies is the contract verified in C09)"""
    from engine import logic
    S.obj.accepts = lambda row: logic.ufun("contains_" + S.kind, *list(row)) > 0
    S.obj.contains = lambda points, tol=1e-8: sym_map(points, S.obj.accepts)
    s.pkg.stubs_used.add("rigeo.shape.*.contains (contract verified in C09)")

def accepted_by(row, shapes):
    r = False
    for x in shapes:
        if not hasattr(x, "accepts"): return False
        r = x.accepts(list(row)) | r
    return r
