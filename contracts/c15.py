from engine.ctx import contract
from . import shapes as sh
from .c02 import T4
import itertools

def moved(s, S, m, H, p, tag=""):
    """p describes mass m with second moment H about the centre, in the frame of S"""
    J0 = s.zeros(4, 4); J0[:3, :3] = H; J0[3, 3] = m
    T = T4(s, S.R, S.c); J = T @ J0 @ T.T
    s.ensure_eq(tag + "mass", p.mass, m)
    s.ensure_eq(tag + "the centre is the centre of mass", m * p.com, m * S.c)
    s.ensure_eq(tag + "first moment", p.h, m * S.c)
    s.ensure_eq(tag + "pseudo-inertia is the exact integral", p.J, J)
    s.ensure_eq(tag + "second moment about the centre of mass", p.Hc, S.R @ H @ S.R.T)

def mono(s, a, k):
    """integral of t^k over [-a, a]"""
    if k % 2: return s.c(0)
    r = s.c(1)
    for _ in range(k + 1): r = r * a
    return r * s.q(2, k + 1)

def integrate(s, h, free, at, e):
    """integral of y^e (y: local coordinates) over the coordinates in `free`, the others held at +-1 times h"""
    r = s.c(1)
    for i in range(3):
        if i in free: r = r * mono(s, h[i], e[i])
        else:
            for _ in range(e[i]): r = r * (at[i] * h[i])
    return r

def pieces(k):
    """faces (k = 2), edges (k = 1), interior (k = 3), as (free coordinates, signs of the others)"""
    for free in itertools.combinations(range(3), k):
        rest = [i for i in range(3) if i not in free]
        for sg in itertools.product((1, -1), repeat=len(rest)): yield free, dict(zip(rest, sg))

def distributed(s, h, k, m):
    """second moment of mass m spread evenly over the k-dimensional pieces of the box"""
    tot = sum((integrate(s, h, f, at, (0, 0, 0)) for f, at in pieces(k)), s.c(0))
    H = s.zeros(3, 3)
    for i in range(3):
        for j in range(3):
            e = [0, 0, 0]; e[i] += 1; e[j] += 1
            H[i, j] = m * sum((integrate(s, h, f, at, e) for f, at in pieces(k)), s.c(0)) / tot
    return H

BP = "rigeo.shape.box.Box."
@contract("C15", "uniform box", cases=["box"], covers=[BP + "uniform_density_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.nneg("m")
    moved(s, S, m, distributed(s, S.h, 3, m), S.obj.uniform_density_params(m))

@contract("C15", "uniform flat box", cases=["box110", "box101", "box011", "box100", "box010", "box001", "box000"], covers=[BP + "uniform_density_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.nneg("m")
    H = s.zeros(3, 3)
    for i in range(3): H[i, i] = m * S.h[i] * S.h[i] / 3      # each extent is independent of the others
    moved(s, S, m, H, S.obj.uniform_density_params(m))

@contract("C15", "hollow box", cases=["box", "box110", "box101", "box011"], covers=[BP + "hollow_density_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.nneg("m")
    moved(s, S, m, distributed(s, S.h, 2, m), S.obj.hollow_density_params(m))

@contract("C15", "wireframe box", cases=["box", "box110", "box101", "box011", "box100", "box010", "box001"], covers=[BP + "wireframe_density_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.nneg("m")
    moved(s, S, m, distributed(s, S.h, 1, m), S.obj.wireframe_density_params(m))

@contract("C15", "uniform ellipsoid", cases=["ellipsoid111", "sphere"], covers=["rigeo.shape.ellipsoid.Ellipsoid.uniform_density_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.nneg("m")
    # y = diag(h) u, u in the unit ball: mean of u_i u_j = delta_ij (int_0^1 r^4 dr / int_0^1 r^2 dr) / 3
    H = s.zeros(3, 3); k = s.q(1, 5) / s.q(1, 3) / 3
    for i in range(3): H[i, i] = m * k * S.h[i] * S.h[i]
    moved(s, S, m, H, S.obj.uniform_density_params(m))

@contract("C15", "hollow ellipsoid", cases=["ellipsoid111", "sphere"], covers=["rigeo.shape.ellipsoid.Ellipsoid.hollow_density_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.nneg("m")
    x = S.h; H = s.zeros(3, 3)
    # derivative along (1, 1, 1) of volume x0 x1 x2 and of the second moment x0 x1 x2 xi^2 / 5 of the solid
    V = x[0] * x[1] * x[2]; dV = x[1] * x[2] + x[0] * x[2] + x[0] * x[1]
    for i in range(3): H[i, i] = m * (dV * x[i] * x[i] + V * 2 * x[i]) * s.q(1, 5) / dV
    p = S.obj.hollow_density_params(m)
    moved(s, S, m, H, p)
    if kind == "sphere":
        # uniform surface mass: mean of u_i u_j over the unit sphere is delta_ij / 3
        K = s.zeros(3, 3)
        for i in range(3): K[i, i] = m * S.r * S.r / 3
        moved(s, S, m, K, p, "sphere: ")

@contract("C15", "uniform cylinder", cases=["cylinder11", "cylinder10", "cylinder01", "cylinder00"], covers=["rigeo.shape.cylinder.Cylinder.uniform_density_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.nneg("m")
    hl = s.c(0) if S.hl is None else S.hl; r = s.c(0) if S.r is None else S.r
    # disc: mean of u_i u_j over the unit disc is delta_ij (int r^3 dr / int r dr) / 2; axis: mean of t^2 over [-1, 1] is 1/3
    H = s.zeros(3, 3); H[0, 0] = H[1, 1] = m * s.q(1, 4) / s.q(1, 2) / 2 * r * r; H[2, 2] = m * hl * hl / 3
    moved(s, S, m, H, S.obj.uniform_density_params(m))

@contract("C15", "equal masses at the vertices", cases=["polyhedron", "box"], covers=["rigeo.shape.poly.ConvexPolyhedron.vertex_point_mass_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.nneg("m")
    p = S.obj.vertex_point_mass_params(m)
    if kind == "box":
        moved(s, S, m, distributed(s, S.h, 0, m), p); return
    n = S.V.shape[0]
    J = s.zeros(4, 4)
    outer = lambda v: [[v[i] * v[j] for j in range(3)] for i in range(3)]
    sm = s.sum_rows(lambda v: v, S.V)
    J[:3, :3] = s.sum_rows(lambda v: s.arr(outer(v)), S.V) * m / n
    J[:3, 3] = J[3, :3] = sm * m / n; J[3, 3] = m
    s.ensure_eq("mass", p.mass, m)
    s.ensure_eq("pseudo-inertia is the exact sum", p.J, J)
    s.ensure_eq("centre of mass", p.mass * p.com, m * sm / n)

@contract("C15", "given masses at the vertices", cases=["polyhedron", "box"], covers=["rigeo.shape.poly.ConvexPolyhedron.vertex_point_mass_params"])
def _(s, kind):
    S = sh.make(s, kind); V = S.obj.vertices; n = S.obj.nv
    if kind == "box": ms = s.arr([s.pos(f"m{i}") for i in range(8)])
    else: ms = s.many("m", n, sign="pos")
    p = S.obj.vertex_point_mass_params(ms)
    at = lambda f: s.sum_rows(f, ms, V) if kind != "box" else sum((f(a, v) for a, v in list(zip(ms, V))[1:]), f(ms[0], V[0]))
    s.ensure_eq("mass", p.mass, at(lambda a, v: a))
    s.ensure_eq("first moment", p.h, at(lambda a, v: a * v))
    s.ensure_eq("second moment", p.H, at(lambda a, v: a * s.arr([[v[i] * v[j] for j in range(3)] for i in range(3)])))

@contract("C15", "negative mass is refused", cases=["box", "ellipsoid111", "cylinder11"], covers=[BP + "uniform_density_params"])
def _(s, kind):
    S = sh.make(s, kind); m = s.pos("m")
    for f in ("uniform_density_params", "hollow_density_params", "wireframe_density_params"):
        g = getattr(S.obj, f, None)
        if g is not None: s.ensure("refused", s.raises(AssertionError, lambda: g(-m)))
