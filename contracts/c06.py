from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3, CYL

ALL = ["box", "box110", "box000"] + ELL3 + CYL + ["capsule11", "capsule01", "capsule10", "polyhedron"]
COV = ["rigeo.shape.box.Box.__init__", "rigeo.shape.poly.ConvexPolyhedron.contains", "rigeo.shape.ellipsoid.Ellipsoid.contains",
       "rigeo.shape.cylinder.Cylinder.contains", "rigeo.shape.capsule.Capsule.contains", "rigeo.shape.ellipsoid._inv_with_zeros"]

def decides(s, tag, got, S, y, tol):
    s.ensure(tag + "points of the shape are accepted", s.implies(S.mem(y), got))
    s.ensure(tag + "points off by less than the tolerance are accepted", s.implies(S.mem(y, tol, strict=True), got))
    s.ensure(tag + "points off by more than the tolerance are rejected", s.implies(s.Not(S.mem(y, tol)), s.Not(got)))

@contract("C06", "single point", cases=ALL, covers=COV)
def _(s, kind):
    S = sh.make(s, kind)
    y = s.vec("y", 3); tol = s.tolr("tol")
    r = S.obj.contains(S.world(y), tol=tol)
    s.ensure("one answer", s.same_shape(r, ()))
    decides(s, "", r, S, y, tol)

@contract("C06", "the default tolerance is 1e-8", cases=["box", "ellipsoid111", "ellipsoid110", "cylinder11", "capsule11", "polyhedron"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind); y = s.vec("y", 3)
    decides(s, "", S.obj.contains(S.world(y)), S, y, s.q(1, 10**8))

@contract("C06", "batch of points", cases=ALL, covers=COV)
def _(s, kind):
    S = sh.make(s, kind)
    n = s.count("n"); Y = s.many("y", n, (3,)); tol = s.tolr("tol")
    r = S.obj.contains(Y @ S.R.T + S.c, tol=tol)
    s.ensure("one answer per point", s.same_shape(r, (n,)))
    if s.sym: decides(s, "", s.seq_item(r), S, s.seq_item(Y), tol)
    else:
        for i in range(n): decides(s, "", r[i], S, Y[i], tol)

@contract("C06", "few points", cases=["box", "ellipsoid111", "ellipsoid110", "cylinder11", "capsule11", "polyhedron"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind); tol = s.tolr("tol")
    for n in (1, 2):
        ys = [s.vec(f"y{i}_") for i in range(n)]
        r = S.obj.contains(s.arr([S.world(y) for y in ys]), tol=tol)
        s.ensure(f"{n} points: one answer per point", s.same_shape(r, (n,)))
        for i in range(n): decides(s, f"{n} points: ", r[i], S, ys[i], tol)

@contract("C06", "other dimensions", cases=["ellipsoid1", "ellipsoid0", "ellipsoid11", "ellipsoid10", "ellipsoid00", "poly2", "poly1"], covers=COV)
def _(s, kind):
    S = sh.polyhedron(s, n=int(kind[-1])) if kind.startswith("poly") else sh.make(s, kind)
    d = len(S.c)
    y = s.vec("y", d); tol = s.tolr("tol")
    decides(s, "", S.obj.contains(S.world(y), tol=tol), S, y, tol)
    n = s.count("n"); Y = s.many("Y", n, (d,))
    r = S.obj.contains(Y @ S.R.T + S.c, tol=tol)
    s.ensure("one answer per point", s.same_shape(r, (n,)))
    if s.sym: decides(s, "batch ", s.seq_item(r), S, s.seq_item(Y), tol)
    else:
        for i in range(n): decides(s, "batch ", r[i], S, Y[i], tol)

@contract("C06", "containment of polyhedra", cases=["box", "ellipsoid111", "ellipsoid110", "cylinder11", "capsule11", "polyhedron"],
          covers=COV + ["rigeo.shape.base.Shape.contains_polyhedron"])
def _(s, kind):
    S = sh.make(s, kind)
    P = sh.polyhedron(s, "p"); tol = s.tolr("tol")
    got = S.obj.contains_polyhedron(P.obj, tol=tol)
    loc = lambda v: S.R.T @ (v - S.c)
    s.ensure("accepted when every vertex is in the shape", s.implies(s.forall_row(P.V, lambda v: S.mem(loc(v))), got))
    s.ensure("rejected when a vertex is off by more than the tolerance", s.implies(s.Not(s.forall_row(P.V, lambda v: S.mem(loc(v), tol))), s.Not(got)))
    s.ensure("default tolerance", s.implies(s.forall_row(P.V, lambda v: S.mem(loc(v))), S.obj.contains_polyhedron(P.obj)))
    s.ensure("default tolerance, rejected", s.implies(s.Not(s.forall_row(P.V, lambda v: S.mem(loc(v), s.q(1, 10**8)))), s.Not(S.obj.contains_polyhedron(P.obj))))

@contract("C06", "a capsule is everything within the radius of its axis segment", cases=["capsule11", "capsule01"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind)
    h = s.c(0) if S.hl is None else S.hl
    t = s.real("t"); s.assume(sh.between(s, t, h))
    y = s.vec("y", 3)
    d = y[0] * y[0] + y[1] * y[1] + (y[2] - t) * (y[2] - t)
    s.ensure("accepted", s.implies(s.le(d, S.r * S.r), S.obj.contains(S.world(y), tol=s.tolr("tol"))))

HOW = ["pose", "rotation", "centre", "neither"]
@contract("C06", "however the shape is made", cases=[(k, h) for k in ("box", "cube", "box from sides", "ellipsoid", "cylinder", "capsule") for h in HOW] + [(k, h) for k in ("sphere", "sphere in the plane", "box from corners") for h in ("centre",)] + [("sphere", "neither")],
          covers=COV + ["rigeo.shape.box.Box.cube", "rigeo.shape.box.Box.from_side_lengths", "rigeo.shape.box.Box.from_two_vertices", "rigeo.shape.ellipsoid.Ellipsoid.sphere", "rigeo.shape.ellipsoid.Ellipsoid.__init__", "rigeo.shape.cylinder.Cylinder.__init__"])
def _(s, case):
    kind, how = case; g = s.rg; d = 2 if kind == "sphere in the plane" else 3
    R = s.rot("R") if how in ("pose", "rotation") else s.eye(d); c = s.vec("c", d) if how in ("pose", "centre") else s.zeros(d)
    kw = {**({"rotation": R} if how in ("pose", "rotation") else {}), **({"center": c} if how in ("pose", "centre") else {})}
    tol = s.tolr("tol"); y = s.vec("y", d)
    if kind in ("box", "cube", "box from sides"):
        h = [s.nneg("h")] * 3 if kind == "cube" else [s.nneg(f"h{i}") for i in range(3)]
        o = g.Box.cube(h[0], **kw) if kind == "cube" else g.Box.from_side_lengths([2 * x for x in h], **kw) if kind == "box from sides" else g.Box(s.arr(h), **kw)
        mem = lambda y, tol=0, strict=False: sh.box_mem(s, h, y, tol, strict)
    elif kind == "box from corners":
        h = [s.nneg(f"h{i}") for i in range(3)]; e = s.arr(h); o = g.Box.from_two_vertices(c + e, c - e)
        mem = lambda y, tol=0, strict=False: sh.box_mem(s, h, y, tol, strict)
    elif kind == "ellipsoid": hs = s.extents("h", (1, 1, 1)); o = g.Ellipsoid(hs, **kw); mem = lambda y, tol=0, strict=False: sh.ell_mem(s, list(hs), y, tol, strict)
    elif kind.startswith("sphere"): r = s.size("r"); o = g.Ellipsoid.sphere(r, **kw); mem = lambda y, tol=0, strict=False: sh.ell_mem(s, [r] * d, y, tol, strict)
    else:
        hl, r = s.size("hl"), s.size("r"); o = g.Cylinder(2 * hl, r, **kw)
        if kind == "capsule": o = g.Capsule(o)
        f = sh.cap_mem if kind == "capsule" else sh.cyl_mem
        mem = lambda y, tol=0, strict=False: f(s, hl, r, y, tol, strict)
    S = sh.Sh(kind, o, c, R, mem)
    decides(s, "", o.contains(R @ y + c, tol=tol), S, y, tol)
