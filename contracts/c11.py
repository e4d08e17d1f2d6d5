from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3, CYL
import itertools

BOXES = ["box", "box110", "box101", "box011", "box100", "box010", "box001", "box000"]
KW = {"default": {}, "sphere": dict(sphere=True), "solver": dict(sphere=False, solver="CLARABEL", rcond=None), "sphere, solver": dict(rcond=0.01, sphere=True, solver="CLARABEL")}

def pose_and_box_point(s, S, B):
    """the local coordinates (in the frame of S) of an arbitrary point of the box B"""
    s.ensure("is a box", type(B) is s.rg.Box)
    s.ensure_eq("same centre", B.center, S.c)
    s.ensure_eq("same rotation", B.rotation, S.R)
    s.ensure("half extents are not negative", s.le(0, B.half_extents))
    if s.sym:
        z = s.vec("z", 3)
        z = s.arr([s.c(0) if isinstance(g, (int, float)) and g == 0 else x for x, g in zip(z, B.half_extents)])
        s.assume(sh.box_mem(s, B.half_extents, z))
    else:
        u = s.rs.uniform(-1, 1, size=3)
        z = s.np.array(s._get("z", lambda: (s.np.sign(u) if s.rs.random() < 0.5 else u))) * B.half_extents
    return z

def all_of(s, S, B, z):
    """every point of the box belongs to S"""
    p = B.center + B.rotation @ z
    s.ensure("every point belongs to the shape", S.mem(S.R.T @ (p - S.c), tol=0 if s.sym else 1e-9))

def corners(s, S, B):
    return [B.center + B.rotation @ s.arr([g * h for g, h in zip(sg, B.half_extents)]) for sg in itertools.product((1, -1), repeat=3)]

@contract("C11", "box inscribed in an ellipsoid", cases=["sphere"] + ELL3, covers=["rigeo.shape.ellipsoid.Ellipsoid.mib"])
def _(s, kind):
    S = sh.make(s, kind); B = S.obj.mib()
    z = pose_and_box_point(s, S, B)
    hs = S.hs if S.kind == "ellipsoid" else list(S.h)
    if s.sym:
        for x, g, h in zip(z, B.half_extents, hs):
            if h is None: continue
            s.rule_mul((g - x, g + x)); s.rule_mul((h * h, 1 - 3 * x * x / (h * h)))
    all_of(s, S, B, z)
    if all(h is not None for h in hs):
        for v in corners(s, S, B): s.ensure("the vertices are on the boundary", sh.on_boundary(s, S.obj, v))

@contract("C11", "box inscribed in a cylinder", cases=CYL, covers=["rigeo.shape.cylinder.Cylinder.mib"])
def _(s, kind):
    S = sh.make(s, kind); B = S.obj.mib()
    z = pose_and_box_point(s, S, B)
    g = B.half_extents
    if s.sym:
        for i in range(3): s.rule_mul((g[i] - z[i], g[i] + z[i]))
        if S.r is not None: s.rule_mul((S.r * S.r, 1 - (z[0] * z[0] + z[1] * z[1]) / (S.r * S.r)))
        if S.hl is not None: s.rule_mul((S.hl * S.hl, 1 - z[2] * z[2] / (S.hl * S.hl)))
    all_of(s, S, B, z)
    r = s.c(0) if S.r is None else S.r; hl = s.c(0) if S.hl is None else S.hl
    for v in corners(s, S, B):
        w = S.R.T @ (v - S.c)
        s.ensure_eq("the vertices are on the end circles: radius", w[0] * w[0] + w[1] * w[1], r * r)
        s.ensure_eq("the vertices are on the end circles: height", w[2] * w[2], hl * hl)

@contract("C11", "ellipsoid inscribed in a box", cases=[(k, h) for k in BOXES for h in (KW if k == "box" else ("default", "sphere"))], covers=["rigeo.shape.box.Box.mie"])
def _(s, case):
    kind, how = case
    sphere = how.startswith("sphere")
    S = sh.make(s, kind); E = S.obj.mie(**KW[how])
    s.ensure("is an ellipsoid", type(E) is s.rg.Ellipsoid)
    s.ensure_eq("same centre", E.center, S.c)
    g = E.half_extents
    s.ensure("half extents are not negative", s.le(0, g))
    o = s.c(0)
    if sphere:
        s.ensure("is a sphere", s.And(s.eq(g[0], g[1]), s.eq(g[0], g[2])))
        R = s.eye(3); deg = kind != "box"
        hs = [None if deg else g[0]] * 3
    else:
        s.ensure_eq("same rotation", E.rotation, S.R)
        R = S.R; hs = [None if isinstance(h, (int, float)) and h == 0 else h for h in (S.h if s.sym else [0 if k == "0" else 1 for k in (kind[3:] or "111")])]
        if not s.sym: hs = [None if h is None else gi for h, gi in zip(hs, g)]
    # an arbitrary point of the ellipsoid, in the coordinates of the box
    if s.sym:
        w = s.vec("w", 3)
        w = s.arr([o if h is None else x for x, h in zip(w, hs)])
        s.assume(sh.ell_mem(s, [None if h is None else gi for h, gi in zip(hs, g)], w))
        p = E.center + (E.rotation @ w if not sphere else w)
        for h, gi, x in zip(hs, g, w):
            if h is None: continue
            s.rule_square(*[x / gi for x in w]); s.rule_mul((gi * gi, 1 - x * x / (gi * gi))); s.rule_abs((x, gi))
        if sphere and not deg:
            # |row of R' . w| <= |w|
            s.rule_square(g[0]); s.rule_mul((g[0] * g[0], 1 - (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) / (g[0] * g[0])))
            for k in range(3):
                a = S.R[:, k]; x = a[0] * w[0] + a[1] * w[1] + a[2] * w[2]
                s.rule_square(*[a[i] * w[j] - a[j] * w[i] for i in range(3) for j in range(i + 1, 3)])
                s.rule_abs((x, g[0]))
    else:
        u = s.rs.normal(size=3); u = u / s.np.linalg.norm(u) * (1 if s.rs.random() < 0.5 else s.rs.random())
        p = E.center + E.rotation @ (s.np.array(s._get("w", lambda: u)) * g)
    s.ensure("every point belongs to the box", S.mem(S.R.T @ (p - S.c), tol=0 if s.sym else 1e-9))
    if not sphere:
        for k in range(3):
            for sg in (1, -1):
                y = s.arr([sg * S.h[k] if i == k else o for i in range(3)])
                v = S.world(y)
                s.ensure("touches every face: a point of the face", sh.inside(s, E, v))
                if s.sym or hs[k] is not None: s.ensure("touches every face", sh.on_boundary(s, S.obj, v))
    else:
        # the ends of the radius along the shortest side are on the face there
        s.ensure("touches the nearest faces", s.Or(*[s.eq(g[0], h) for h in S.h]))
        for k in range(3):
            for sg in (1, -1):
                v = S.c + sg * g[0] * S.R[:, k]
                s.ensure("the axis ends belong to the sphere", sh.inside(s, E, v))
