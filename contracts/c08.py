from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3, CYL
from . import c06
from .c03 import params

COV = ["rigeo.shape.box.Box.transform", "rigeo.shape.poly.ConvexPolyhedron.transform", "rigeo.shape.ellipsoid.Ellipsoid.transform",
       "rigeo.shape.cylinder.Cylinder.transform", "rigeo.shape.capsule.Capsule.transform", "rigeo.util.clean_transform"]
FACE = ("rigeo.polydd.SpanForm.to_face_form",)

def same_size(s, tag, a, b):
    s.ensure(tag + "same type", type(a) is type(b))
    if hasattr(a, "half_extents"): s.ensure_eq(tag + "half extents", b.half_extents, a.half_extents)
    elif hasattr(a, "cylinder"): s.ensure_eq(tag + "sizes", s.arr([b.inner_length, b.radius]), s.arr([a.inner_length, a.radius]))
    elif hasattr(a, "radius"): s.ensure_eq(tag + "sizes", s.arr([b.length, b.radius]), s.arr([a.length, a.radius]))

def moved(s, tag, S, T, Q, t, y, tol):
    """T is S moved by (Q, t)"""
    if S.kind == "polyhedron":
        same_poly(s, tag, S, T, Q, t, y)
        return
    M = sh.Sh(S.kind, T, Q @ S.c + t, Q @ S.R, S.mem if S.kind != "capsule" else cap(s, S, Q @ S.R), h=getattr(S, "h", None))
    c06.decides(s, tag, T.contains(M.world(y), tol=tol), M, y, tol)
    same_size(s, tag, S.obj, T)

def cap(s, S, R):
    return lambda y, tol=0, strict=False: sh.cap_mem(s, S.hl, S.r, y, tol, strict, R)

def same_poly(s, tag, S, T, Q, t, p):
    x = Q @ p + t
    if s.sym:
        s.hull_cuts(p, T.A @ Q, T.b - T.A @ t, hull=(S.A, S.b, S.V))
        s.hull_cuts(x, S.A @ Q.T, S.b + S.A @ (Q.T @ t))
    c = T.contains(x, tol=s.c(0))
    s.ensure(tag + "points are moved", s.implies(S.mem(p), c))
    s.ensure(tag + "nothing else is contained", s.implies(s.Not(S.mem(p)), s.Not(c)))
    s.ensure(tag + "same type", type(T) is type(S.obj))
    V = T.vertices
    s.ensure(tag + "vertices", s.same_shape(V, (S.obj.nv, S.n)))
    s.ensure_eq(tag + "vertices move along", V, S.V @ Q.T + t)

HOW = ["both", "rotation", "translation", "none", "omitted"]
def args(s, how, n=3):
    Q = s.rot("Q", n) if how in ("both", "rotation") else s.eye(n)
    t = s.vec("t", n) if how in ("both", "translation") else s.zeros(n)
    kw = {}
    if how in ("both", "rotation"): kw["rotation"] = Q
    if how in ("both", "translation"): kw["translation"] = t
    if how == "none": kw = dict(rotation=None, translation=None)
    return Q, t, kw

def points(s, d): return s.vec("y", d)

@contract("C08", "transform", cases=[(k, "both") for k in ["box", "box110", "sphere"] + ELL3 + CYL + ["capsule11", "capsule01", "capsule10"]] +
          [(k, h) for k in ("box", "ellipsoid111", "ellipsoid100", "cylinder11", "capsule11") for h in HOW[1:]] +
          [("ellipsoid" + p, h) for p in ("11", "10", "1") for h in HOW], covers=COV)
def _(s, case):
    kind, how = case
    S = sh.make(s, kind); d = len(S.c)
    Q, t, kw = args(s, how, d)
    moved(s, "", S, S.obj.transform(**kw), Q, t, s.vec("y", d), s.tolr("tol"))

@contract("C08", "transform a polyhedron", cases=[(d, h) for d in (1, 2, 3) for h in (HOW if d == 3 else HOW[:1] + HOW[4:])], covers=COV, stubs=FACE, samples=40)
def _(s, case):
    d, how = case
    S = sh.polyhedron(s, n=d)
    Q, t, kw = args(s, how, d)
    moved(s, "", S, S.obj.transform(**kw), Q, t, s.vec("y", d), s.tolr("tol"))

@contract("C08", "positional arguments", cases=["box", "ellipsoid111", "cylinder11", "capsule11"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind); Q, t, _ = args(s, "both")
    y = s.vec("y"); tol = s.tolr("tol")
    moved(s, "", S, S.obj.transform(Q, t), Q, t, y, tol)

@contract("C08", "rotation about the centre", cases=["box", "box110"] + ELL3 + ["ellipsoid11"], covers=["rigeo.shape.box.Box.rotate_about_center", "rigeo.shape.ellipsoid.Ellipsoid.rotate_about_center"])
def _(s, kind):
    S = sh.make(s, kind); d = len(S.c)
    Q = s.rot("Q", d)
    T = S.obj.rotate_about_center(Q)
    moved(s, "", S, T, Q, S.c - Q @ S.c, s.vec("y", d), s.tolr("tol"))
    s.ensure_eq("centre stays", T.center, S.c)

@contract("C08", "transforming twice", cases=["box", "ellipsoid110", "cylinder11", "capsule11"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind); Q, t, _ = args(s, "both"); P = s.rot("P"); u = s.vec("u")
    moved(s, "", S, S.obj.transform(Q, t).transform(P, u), P @ Q, P @ t + u, s.vec("y"), s.tolr("tol"))

@contract("C08", "transforming a rigid body", cases=HOW, covers=["rigeo.rigidbody.RigidBody.transform"])
def _(s, how):
    Ss = [sh.make(s, "box", "a"), sh.make(s, "cylinder11", "b"), sh.make(s, "ellipsoid110", "e")]
    p = params(s, "p")
    Q, t, kw = args(s, how)
    b = s.rg.RigidBody([S.obj for S in Ss], p).transform(**kw)
    s.ensure("as many shapes", len(b.shapes) == 3)
    y = s.vec("y"); tol = s.tolr("tol")
    for i, (S, T) in enumerate(zip(Ss, b.shapes)): moved(s, f"shape {i}: ", S, T, Q, t, y, tol)
    M = s.eye(4); M[:3, :3] = Q; M[:3, 3] = t
    s.ensure_eq("J moves along", b.params.J, M @ p.J @ M.T)
    s.ensure_eq("vec moves along", b.params.mass, p.mass)

@contract("C08", "transforming a massless body", covers=["rigeo.rigidbody.RigidBody.transform"])
def _(s):
    S = sh.make(s, "capsule11"); Q, t, kw = args(s, "both")
    b = s.rg.RigidBody(S.obj).transform(**kw)
    s.ensure("one shape", len(b.shapes) == 1)
    moved(s, "", S, b.shapes[0], Q, t, s.vec("y"), s.tolr("tol"))
    s.ensure_eq("no mass", b.params.J, s.zeros(4, 4))
