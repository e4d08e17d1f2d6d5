"""C24: is_same() and allclose_unordered() decide sameness."""
import itertools
from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3, CYL, CAP

S_ = "rigeo.shape."
COV = [S_ + "ellipsoid.Ellipsoid.is_same", S_ + "cylinder.Cylinder.is_same", S_ + "capsule.Capsule.is_same", S_ + "poly.ConvexPolyhedron.is_same"]
KINDS = ["box", "box110", "box100", "box000"] + ELL3 + ["sphere", "ellipsoid11", "ellipsoid10", "ellipsoid1"] + CYL + CAP + ["polyhedron"]
FACE = ("rigeo.polydd.SpanForm.to_face_form",)

def rebuilt(s, S):
    o = S.obj; rg = s.rg
    if S.kind == "box": return rg.Box(o.half_extents, center=o.center, rotation=o.rotation)
    if S.kind in ("ellipsoid", "sphere"): return rg.Ellipsoid(o.half_extents, rotation=o.rotation, center=o.center)
    if S.kind == "cylinder": return rg.Cylinder(length=o.length, radius=o.radius, rotation=o.rotation, center=o.center)
    if S.kind == "capsule": return rg.Capsule(rebuilt(s, sh.Sh("cylinder", o.cylinder, None, None, None)))
    return rg.ConvexPolyhedron(rg.FaceForm(o.A, o.b), rg.SpanForm(o.vertices)) if S.kind == "polyhedron" else None

@contract("C24", "a shape is the same as itself", cases=KINDS, covers=COV)
def _(s, case):
    S = sh.make(s, case)
    s.ensure("itself", s.truth(S.obj.is_same(S.obj)))
    R = rebuilt(s, S)
    if R is not None:
        s.ensure("its rebuilt copy", s.truth(S.obj.is_same(R)))
        s.ensure("rebuilt copy, the other way", s.truth(R.is_same(S.obj)))

@contract("C24", "a shape moved and moved back is the same", cases=[k for k in KINDS if k not in ("ellipsoid11", "ellipsoid10", "ellipsoid1")], covers=COV, stubs=FACE)
def _(s, case):
    S = sh.make(s, case); Q = s.rot("Q"); t = s.vec("t")
    T = S.obj.transform(rotation=Q, translation=t).transform(rotation=Q.T, translation=-(Q.T @ t))
    s.ensure("moved and back", s.truth(S.obj.is_same(T)))
    s.ensure("moved and back, the other way", s.truth(T.is_same(S.obj)))

OTHER = [("ellipsoid111", "box"), ("ellipsoid110", "cylinder11"), ("ellipsoid111", "capsule11"), ("sphere", "polyhedron"), ("box", "cylinder11"), ("box", "capsule11"), ("cylinder11", "capsule11"), ("cylinder11", "polyhedron"),
         ("capsule11", "polyhedron"), ("cylinder01", "capsule01")]

@contract("C24", "shapes of different kinds are told apart", cases=OTHER, covers=COV)
def _(s, case):
    S = sh.make(s, case[0], "a"); T = sh.make(s, case[1], "b")
    s.ensure("not the same", s.Not(s.truth(S.obj.is_same(T.obj))))
    s.ensure("not the same, the other way", s.Not(s.truth(T.obj.is_same(S.obj))))
    if S.kind == "cylinder" and T.kind == "capsule":
        s.ensure("a capsule and its core", s.Not(s.truth(T.obj.is_same(T.obj.cylinder))))
        s.ensure("a capsule and its core, the other way", s.Not(s.truth(T.obj.cylinder.is_same(T.obj))))

def near(s, x, y, tol):
    """every entry of x within tol of y plus the default relative tolerance"""
    return s.And(*[s.le(s.np.abs(a - b), tol + s.q(1, 10**5) * s.np.abs(b)) for a, b in zip(entries(x), entries(y))])

@contract("C24", "inertial parameters", covers=["rigeo.inertial.InertialParameters.is_same"])
def _(s):
    s.twins("'")
    def params(t):
        return s.rg.InertialParameters(mass=s.nneg("m" + t), com=s.vec("c" + t, 3), H=s.symmat("H" + t, 3))
    a = params(""); b = params("'"); tol = s.q(1, 10**8)
    s.ensure("itself", s.truth(a.is_same(a)))
    s.ensure("a rebuilt copy", s.truth(a.is_same(s.rg.InertialParameters(mass=a.mass, com=a.com, H=a.H))))
    R = s.rot("Q", 3); t_ = a.transform(rotation=R)
    r = s.truth(a.is_same(t_)); ok = near(s, a.J, t_.J, tol); ok2 = near(s, t_.J, a.J, tol)
    s.ensure("turned parameters are told apart", s.implies(s.And(s.Not(ok), s.Not(ok2)), s.Not(r)))
    r = s.truth(a.is_same(b)); r2 = s.truth(b.is_same(a))
    ok = near(s, a.J, b.J, tol); ok2 = near(s, b.J, a.J, tol)
    s.ensure("close parameters are the same", s.implies(s.And(ok, ok2), s.And(r, r2)))
    s.ensure("different parameters are told apart", s.implies(s.And(s.Not(ok), s.Not(ok2)), s.And(s.Not(r), s.Not(r2))))

def entries(x): return list(x.flat) if hasattr(x, "flat") else [x]

def within(s, x, y, tol, strict_rel):
    """every entry differs by at most the tolerance (strict_rel: plus the relative one, of either operand)"""
    fs = []
    for a, b in zip(entries(x), entries(y)):
        r = s.q(1, 10**5) if strict_rel else 0
        fs.append(s.Or(*[s.And(s.le(a - b, d), s.le(b - a, d)) for d in (tol + r * s.np.abs(a), tol + r * s.np.abs(b))]) if strict_rel else s.And(s.le(a - b, tol), s.le(b - a, tol)))
    return s.And(*fs)

@contract("C24", "different shapes of the same type are told apart", cases=["ellipsoid111", "ellipsoid110", "ellipsoid100", "sphere", "ellipsoid11", "cylinder11", "cylinder10", "cylinder01", "capsule11", "capsule01"], covers=COV)
def _(s, case):
    s.twins("'"); S = sh.make(s, case); T = sh.make(s, case, "'"); tol = s.nneg("tol")
    a = s.truth(S.obj.is_same(T.obj, tol=tol)); b = s.truth(T.obj.is_same(S.obj, tol=tol))
    if S.kind in ("ellipsoid", "sphere"):
        size = lambda o: [o.E, o.center]
    elif S.kind == "cylinder": size = lambda o: [o.length, o.radius, o.center]
    else: size = lambda o: [o.inner_length, o.radius, o.center]
    for what, x, y in zip(("size and orientation", "position") if len(size(S.obj)) == 2 else ("length", "radius", "position"), size(S.obj), size(T.obj)):
        far = s.Not(within(s, x, y, tol, True))
        s.ensure(f"different {what}", s.implies(far, s.Not(a)))
        s.ensure(f"different {what}, the other way", s.implies(far, s.Not(b)))
    if S.kind in ("cylinder", "capsule"):
        u, v = S.R[:, 2], T.R[:, 2]
        far = s.And(s.Not(within(s, u, v, tol, True)), s.Not(within(s, u, -v, tol, True)))
        s.ensure("different axis", s.implies(far, s.Not(a)))
        s.ensure("different axis, the other way", s.implies(far, s.Not(b)))
    near = s.And(*[within(s, x, y, tol, False) for x, y in zip(size(S.obj), size(T.obj))])
    if S.kind in ("cylinder", "capsule"): near = s.And(near, within(s, S.R, T.R, tol, False))
    s.ensure("shapes within the tolerance are the same", s.implies(near, s.And(a, b)))

@contract("C24", "different boxes and polyhedra are told apart", cases=["box", "box110", "polyhedron"], covers=COV)
def _(s, case):
    s.twins("'"); S = sh.make(s, case); T = sh.make(s, case, "'"); tol = s.tolr("tol")
    a = s.truth(S.obj.is_same(T.obj, tol=tol)); b = s.truth(T.obj.is_same(S.obj, tol=tol))
    def verts(S, V):
        if S.kind == "polyhedron": return lambda f: s.forall_row(S.V, f)
        return lambda f: s.And(*[f(S.world(s.arr([e[i] * S.h[i] for i in range(3)]))) for e in itertools.product((-1, 1), repeat=3)])
    within_ = lambda S, T: verts(T, None)(lambda v: S.mem(S.R.T @ (v - S.c), tol))
    near = s.And(within_(S, T), within_(T, S))
    s.ensure("a corner outside the other by more than the tolerance", s.implies(s.Not(near), s.Not(a)))
    s.ensure("all corners within the tolerance", s.implies(near, a))
    s.ensure("symmetric", s.iff(a, b))

def is_close(s, x, y, tol):
    return s.And(*[s.le(s.np.abs(u - v), tol + s.q(1, 10**5) * s.np.abs(v)) for u, v in zip(x, y)])

@contract("C24", "unordered comparison", cases=[(n, d) for n in (1, 2, 3, 4) for d in (1, 2, 3)], covers=["rigeo.test_util.allclose_unordered"],
          scope="number of rows up to 4 (the loop carries the set of rows already matched)")
def _(s, case):
    n, d = case
    s.twins("'"); A = s.arr([[s.real(f"a{i}{j}") for j in range(d)] for i in range(n)]); tol = s.nneg("tol")
    perm = list(range(n)) if s.sym else list(s.rs.permutation(n))
    B = s.arr([[s.real(f"a'{perm[i]}{j}") for j in range(d)] for i in range(n)])
    r = s.truth(s.rg.allclose_unordered(A, B, atol=tol))
    match = s.Or(*[s.And(*[is_close(s, A[i], B[p[i]], tol) for i in range(n)]) for p in itertools.permutations(range(n))])
    s.ensure("accepted only if the rows can be matched one to one", s.implies(r, match))

@contract("C24", "unordered comparison of permuted rows", cases=[(n, d, k) for n in (1, 2, 3, 4) for d in (1, 2) for k in range(min(n, 2))], covers=["rigeo.test_util.allclose_unordered"],
          scope="number of rows up to 4 (the loop carries the set of rows already matched)")
def _(s, case):
    n, d, twin = case; tol = s.nneg("tol")       # with twin=1 the first two rows are identical
    A = s.arr([[s.real(f"a{i}{j}") for j in range(d)] for i in range(n)])
    for p in itertools.permutations(range(n)):
        rows = [A[0] if i == twin else A[i] for i in range(n)]
        B = s.arr([list(rows[p[i]]) for i in range(n)]); C = s.arr([list(x) for x in rows])
        apart = s.And(*[s.Not(is_close(s, rows[i], rows[j], tol)) for i in range(n) for j in range(n) if i != j and {i, j} != {0, twin}])
        s.assume(apart)
        s.ensure("rows in another order", s.truth(s.rg.allclose_unordered(C, B, atol=tol)))

@contract("C24", "unordered comparison of many rows", covers=["rigeo.test_util.allclose_unordered"], bounded="any number of rows beyond 4: sampled", samples=150)
def _(s):
    from scipy.optimize import linear_sum_assignment
    r = s.rs; n = int(s._get("n", lambda: r.integers(4, 14))); d = int(s._get("d", lambda: r.integers(1, 5)))
    A = s._get("A", lambda: r.choice([0.0, 1.0, 2.0, 3.0], size=(n, d))); p = s._get("p", lambda: r.permutation(n).astype(float)).astype(int)
    B = s._get("B", lambda: A[p] + (r.random((n, 1)) < 0.06) * r.choice([1.0, -1.0, 1e-3], size=(n, d)))
    B2 = s._get("B2", lambda: B[r.integers(0, n, size=n)])
    for what, X in (("", A[p]), ("changed ", B), ("repeated ", B2)):
        close = s.np.array([[s.np.allclose(a, b) for b in X] for a in A])
        i, j = linear_sum_assignment(~close)
        s.ensure(what + "rows", bool(s.rg.allclose_unordered(A, X)) == bool(close[i, j].all()))
