from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3

BOX = ["box", "box110", "box100", "box000"]
COV = ["rigeo.shape.box.Box.on_surface", "rigeo.shape.ellipsoid.Ellipsoid.on_surface", "rigeo.shape.ellipsoid.Ellipsoid.contains"]

def decides(s, tag, got, S, y, tol):
    if S.kind == "box":
        near = lambda t, strict=False: s.Or(*[(sh.sbetween if strict else sh.between)(s, abs(y[i]) - S.h[i], t) for i in range(3)])
        s.ensure(tag + "boundary points are accepted", s.implies(s.And(S.mem(y), near(s.c(0))), got))
        s.ensure(tag + "points within the tolerance are accepted", s.implies(s.And(S.mem(y, tol, strict=True), near(tol, True)), got))
        s.ensure(tag + "exterior points are rejected", s.implies(s.Not(S.mem(y, tol)), s.Not(got)))
        s.ensure(tag + "interior points are rejected", s.implies(s.Not(near(tol)), s.Not(got)))
    elif all(h is not None for h in S.hs):
        q = sum(((y[i] * y[i]) / (S.hs[i] * S.hs[i]) for i in range(len(S.hs))), s.c(0)) - 1
        s.ensure(tag + "boundary points are accepted", s.implies(s.eq(q, s.c(0)), got))
        s.ensure(tag + "points within the tolerance are accepted", s.implies(sh.sbetween(s, q, tol), got))
        s.ensure(tag + "points off by more than the tolerance are rejected", s.implies(s.Not(sh.between(s, q, tol)), s.Not(got)))
    else:
        s.ensure(tag + "points of a degenerate ellipsoid are surface points", s.implies(S.mem(y), got))
        s.ensure(tag + "points within the tolerance are accepted", s.implies(S.mem(y, tol, strict=True), got))
        s.ensure(tag + "other points are rejected", s.implies(s.Not(S.mem(y, tol)), s.Not(got)))

def boundary_point(s, S, y):
    """move the sample onto the boundary (concrete runs only; any y is a valid symbolic input)"""
    if s.sym: return y
    k = s.int("move", lo=0, hi=3)
    if k == 0: return y
    y = y.copy()
    if S.kind == "box":
        y = s.np.clip(y, -1, 1) * S.h
        i = s.int("face", lo=0, hi=2); y[i] = S.h[i] * (-1) ** k
        if s.int("off", lo=0, hi=3) == 0: y[i] = y[i] * (1 + s.rs.choice([-1, 1]) * 10.0 ** s.rs.uniform(-6, -3))
        return y
    h = s.arr([0 if a is None else a for a in S.hs])
    n = s.np.linalg.norm(y)
    if s.int("off", lo=0, hi=3) == 0: n = n * (1 + s.rs.choice([-1, 1]) * 10.0 ** s.rs.uniform(-6, -3))
    return h * y / n if n > 0 else y

@contract("C07", "single point", cases=BOX + ELL3, covers=COV)
def _(s, kind):
    S = sh.make(s, kind)
    y = boundary_point(s, S, s.vec("y", 3)); tol = s.tolr("tol")
    r = S.obj.on_surface(S.world(y), tol=tol)
    s.ensure("one answer", s.same_shape(r, ()))
    decides(s, "", r, S, y, tol)

@contract("C07", "the default tolerance is 1e-8", cases=["box", "ellipsoid111", "ellipsoid110"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind); y = boundary_point(s, S, s.vec("y", 3))
    decides(s, "", S.obj.on_surface(S.world(y)), S, y, s.q(1, 10**8))

@contract("C07", "batch of points", cases=BOX + ELL3, covers=COV)
def _(s, kind):
    S = sh.make(s, kind)
    n = s.count("n"); Y = s.many("y", n, (3,)); tol = s.tolr("tol")
    if not s.sym: Y = s.arr([boundary_point(s, S, y) for y in Y])
    r = S.obj.on_surface(Y @ S.R.T + S.c, tol=tol)
    s.ensure("one answer per point", s.same_shape(r, (n,)))
    if s.sym: decides(s, "", s.seq_item(r), S, s.seq_item(Y), tol)
    else:
        for i in range(n): decides(s, "", r[i], S, Y[i], tol)

@contract("C07", "few points", cases=["box", "ellipsoid111", "ellipsoid110"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind); tol = s.tolr("tol")
    for n in (1, 2):
        ys = [s.vec(f"y{i}_") for i in range(n)]
        r = S.obj.on_surface(s.arr([S.world(y) for y in ys]), tol=tol)
        s.ensure(f"{n} points: one answer per point", s.same_shape(r, (n,)))
        for i in range(n): decides(s, f"{n} points: ", r[i], S, ys[i], tol)

@contract("C07", "ellipses and intervals", cases=["ellipsoid1", "ellipsoid11", "ellipsoid10", "ellipsoid00"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind); d = len(S.c)
    y = s.vec("y", d); tol = s.tolr("tol")
    decides(s, "", S.obj.on_surface(S.world(y), tol=tol), S, y, tol)
