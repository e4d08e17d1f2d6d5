from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3, CYL
from .c03 import params
import itertools

AABB = ["rigeo.shape.poly.ConvexPolyhedron.aabb", "rigeo.shape.ellipsoid.Ellipsoid.aabb", "rigeo.shape.cylinder.Cylinder.aabb", "rigeo.shape.capsule.Capsule.aabb",
        "rigeo.shape.box.Box.from_points_to_bound", "rigeo.shape.box.Box.from_two_vertices"]

def encloses(s, tag, T, p):
    s.ensure(tag + "contains every point", sh.inside(s, T, p))

def cauchy(s, a, u, E2):
    """hints: (a.u)^2 <= |a|^2 |u|^2"""
    s.rule_square(*a, *[a[i] * u[j] - a[j] * u[i] for i in range(len(a)) for j in range(i + 1, len(a))])

def touched(s, tag, T, ws):
    """each face of the box T holds one of the points"""
    for k in range(6):
        s.ensure(f"{tag}face {k} is touched", s.Or(*[s.eq(T.A[k] @ w, T.b[k]) for w in ws]))

def aabb_ok(s, tag, S, B, y):
    """B is the smallest axis-aligned box around S"""
    s.ensure(tag + "is a box", type(B) is s.rg.Box)
    s.ensure_eq(tag + "axis-aligned", B.rotation, s.eye(3))
    p = S.world(y); R = S.R
    hl = getattr(S, "hl", None); r = getattr(S, "r", None)
    hl = s.c(0) if hl is None else hl; r = s.c(0) if r is None else r
    sup = None
    if S.kind == "box":
        if s.sym:
            for i in range(3):
                for j in range(3):
                    for g in (S.h[j] - y[j], S.h[j] + y[j]): s.rule_mul((R[i, j], g), (-R[i, j], g))
        V = [S.world(s.arr([a * x for a, x in zip(sg, S.h)])) for sg in itertools.product((1, -1), repeat=3)]
        touched(s, tag, B, V)
    elif S.kind == "polyhedron":
        if s.sym: s.hull_cuts(p, B.A, B.b, hull=(S.A, S.b, S.V))
        for k in range(6):
            s.ensure(f"{tag}face {k} is touched", s.Not(s.forall_row(S.V, lambda v: s.Not(s.eq(B.A[k] @ v, B.b[k])))))
    else:
        if S.kind in ("ellipsoid", "sphere"):
            h = [s.c(0) if x is None else x for x in (S.hs if S.kind == "ellipsoid" else S.h)]
            nz = [j for j in range(3) if not (S.kind == "ellipsoid" and S.hs[j] is None)]
            a = [[R[i, j] * h[j] for j in nz] for i in range(3)]
            sup = [s.np.sqrt(sum((x * x for x in a[i]), s.c(0))) for i in range(3)]
            if s.sym and nz:
                u = [y[j] / h[j] for j in nz]; q = sum((x * x for x in u), s.c(0))
                for i in range(3):
                    cauchy(s, a[i], u, None); s.rule_mul((sup[i] * sup[i], 1 - q)); s.rule_abs((sum(x * z for x, z in zip(a[i], u)), sup[i]))
        elif S.kind == "cylinder":
            s1 = [s.np.sqrt(R[i, 0] * R[i, 0] + R[i, 1] * R[i, 1]) for i in range(3)]
            sup = [hl * abs(R[i, 2]) + r * s1[i] for i in range(3)]
            if s.sym: cyl_hints(s, S, y, hl, r, s1)
        else:
            sup = [hl * abs(R[i, 2]) + r for i in range(3)]
            if s.sym: cap_hints(s, S, y, hl, r)
    if sup is not None:
        if s.sym:
            for i in range(3): s.rule_mul(*[(hl, g * R[i, 2] + f * abs(R[i, 2])) for g in (1, -1) for f in (0, 1, -1)])
        for i in range(3):
            s.ensure_eq(f"{tag}upper face {i}", B.center[i] + B.half_extents[i], S.c[i] + sup[i])
            s.ensure_eq(f"{tag}lower face {i}", B.center[i] - B.half_extents[i], S.c[i] - sup[i])
    encloses(s, tag, B, p)

def cyl_hints(s, S, y, hl, r, s1):
    R = S.R
    for i in range(3):
        a = [R[i, 0], R[i, 1]]; x = R[i, 0] * y[0] + R[i, 1] * y[1]
        cauchy(s, a, [y[0], y[1]], None)
        q = y[0] * y[0] + y[1] * y[1]
        s.rule_mul((s1[i] * s1[i], r * r - q)); s.rule_abs((x, r * s1[i]))
        if S.r is not None: s.rule_mul((r * r, 1 - q / (r * r)))
        for g in (hl - y[2], hl + y[2]): s.rule_mul((R[i, 2], g), (-R[i, 2], g))
    if S.hl is not None: s.rule_abs((y[2], hl)); s.rule_mul((hl * hl, 1 - y[2] * y[2] / (hl * hl)))

def cap_hints(s, S, y, hl, r):
    R = S.R
    s1 = [s.np.sqrt(R[i, 0] * R[i, 0] + R[i, 1] * R[i, 1]) for i in range(3)]
    cyl_hints(s, S, y, hl, r, s1)
    for i in range(3):
        s.rule_mul((r, 1 - s1[i])); s.rule_abs((s1[i], s.c(1))); s.rule_square(R[i, 2])
        for e in (hl, -hl):
            z = [y[0], y[1], y[2] - e]
            x = sum((R[i, k] * z[k] for k in range(3)), s.c(0))
            cauchy(s, [R[i, k] for k in range(3)], z, None)
            q = z[0] * z[0] + z[1] * z[1] + z[2] * z[2]
            if S.r is not None: s.rule_mul((r * r, 1 - q / (r * r)))
            s.rule_abs((x, r))

@contract("C10", "axis-aligned bounding box", cases=["box", "box110", "box100", "sphere"] + ELL3 + CYL + ["capsule11", "capsule01", "polyhedron"], covers=AABB)
def _(s, kind):
    S = sh.make(s, kind)
    if s.sym:
        # the squares under the roots
        h = getattr(S, "hs", None) or ([S.r] * 2 + [S.hl] if S.kind in ("cylinder", "capsule") else None)
        if h: s.rule_square(*[S.R[i, j] * h[j] for i in range(3) for j in range(3) if h[j] is not None], *S.R.a.flat)
    aabb_ok(s, "", S, S.obj.aabb(), sh.point_in(s, S))

@contract("C10", "box around points", covers=["rigeo.shape.box.Box.from_points_to_bound", "rigeo.shape.box.Box.from_two_vertices"])
def _(s):
    n = s.count("n"); X = s.many("x", n, (3,))
    B = s.rg.Box.from_points_to_bound(X)
    s.ensure_eq("axis-aligned", B.rotation, s.eye(3))
    s.ensure("contains every point", s.forall_row(X, lambda x: sh.inside(s, B, x)))
    for k in range(6): s.ensure(f"face {k} is touched", s.Not(s.forall_row(X, lambda v: s.Not(s.eq(B.A[k] @ v, B.b[k])))))

@contract("C10", "box with two opposed vertices", covers=["rigeo.shape.box.Box.from_two_vertices"])
def _(s):
    u, v = s.vec("u"), s.vec("v")
    B = s.rg.Box.from_two_vertices(u, v)
    encloses(s, "first vertex: ", B, u); encloses(s, "second vertex: ", B, v)
    s.ensure_eq("axis-aligned", B.rotation, s.eye(3))
    touched(s, "", B, [u, v])

@contract("C10", "oriented bounding box", cases=["sphere"] + ELL3 + CYL + ["capsule11", "capsule01"],
          covers=["rigeo.shape.ellipsoid.Ellipsoid.mbb", "rigeo.shape.cylinder.Cylinder.mbb", "rigeo.shape.capsule.Capsule.mbb"])
def _(s, kind):
    S = sh.make(s, kind); y = sh.point_in(s, S)
    B = S.obj.mbb()
    s.ensure("is a box", type(B) is s.rg.Box)
    o = s.c(0)
    if S.kind in ("ellipsoid", "sphere"):
        ws = [s.arr([g * S.h[i] if k == i else o for k in range(3)]) for i in range(3) for g in (1, -1)]
        if s.sym:
            hs = S.hs if S.kind == "ellipsoid" else list(S.h)
            for h, x in zip(hs, y):
                if h is None: continue
                s.rule_abs((x, h)); s.rule_mul((h * h, 1 - x * x / (h * h)))
            s.rule_square(*[x / h for h, x in zip(hs, y) if h is not None])
    else:
        hl = o if S.hl is None else S.hl; r = o if S.r is None else S.r
        top = hl + r if S.kind == "capsule" else hl
        ws = [s.arr([g * r, o, o]) for g in (1, -1)] + [s.arr([o, g * r, o]) for g in (1, -1)] + [s.arr([o, o, g * top]) for g in (1, -1)]
        if s.sym:
            zs = [y[2]] + ([y[2] - hl, y[2] + hl] if S.kind == "capsule" else [])
            s.rule_square(*y, *zs)
            if S.r is not None:
                s.rule_abs((y[0], r), (y[1], r)); s.rule_abs(*[(z, r) for z in zs])
                for z in zs: s.rule_mul((r * r, 1 - (y[0] * y[0] + y[1] * y[1] + z * z) / (r * r)))
                s.rule_mul((r * r, 1 - (y[0] * y[0] + y[1] * y[1]) / (r * r)))
            if S.hl is not None: s.rule_abs((y[2], hl)); s.rule_mul((hl * hl, 1 - y[2] * y[2] / (hl * hl)))
    for w in ws:
        if not (S.kind == "capsule" and S.r is None): s.ensure("touching points belong to the shape", S.mem(w))
    touched(s, "", B, [S.world(w) for w in ws])
    encloses(s, "", B, S.world(y))

MBE = ["rigeo.shape.box.Box.mbe", "rigeo.shape.ellipsoid.Ellipsoid.mbe", "rigeo.shape.cylinder.Cylinder.mbe", "rigeo.shape.cylinder.Cylinder.mib"]
KW = {"default": {}, "ellipsoid": dict(sphere=False), "sphere": dict(sphere=True), "solver": dict(solver="CLARABEL", rcond=None)}

def smallest(s, tag, S, E):
    """no larger than the smallest ellipsoid around S (its volume, in the dimensions S has)"""
    sq = lambda h: s.c(0) if h is None else h * h
    if S.kind == "box": a = [h * h for h in S.h]; k = 3
    elif S.kind == "cylinder": a = [sq(S.r), sq(S.r), sq(S.hl)]; k = 2 * (S.r is not None) + (S.hl is not None)
    else: a = [sq(h) for h in (S.hs if S.kind == "ellipsoid" else S.h)]; k = sum(1 for h in (S.hs if S.kind == "ellipsoid" else S.h) if h is not None)
    if S.kind == "cylinder" and k < 3: return          # flat: every ellipsoid in its span has no volume
    c = {("box", 3): s.c(27), ("cylinder", 3): s.q(27, 4)}.get((S.kind, k), s.c(1))
    def vol2(a):
        t = s.c(0)
        for g in itertools.combinations(a, k):
            p = s.c(1)
            for x in g: p = p * x
            t = t + p
        return t
    s.ensure(tag + "no larger than the smallest", s.le(vol2([x * x for x in E.half_extents]), c * vol2(a)))

def bounds(s, tag, S, E, y, sphere):
    """E is the smallest ellipsoid (sphere) around S"""
    s.ensure(tag + "is an ellipsoid", type(E) is s.rg.Ellipsoid)
    p = S.world(y)
    if not sphere: smallest(s, tag, S, E)
    if sphere: s.ensure(tag + "is a sphere", s.And(s.eq(E.half_extents[0], E.half_extents[1]), s.eq(E.half_extents[0], E.half_extents[2])))
    if S.kind == "box":
        if s.sym:
            for x, h in zip(y, S.h):
                s.rule_mul((h - x, h + x))
                if not (isinstance(h, (int, s.c(1).__class__)) and h == 0): s.rule_mul((1 / (h * h), h * h - x * x))
            R2 = sh.norm2(S.h)
            if not (isinstance(R2, s.c(1).__class__) and R2 == 0): s.rule_mul((1 / R2, R2 - sh.norm2(y)))
        for sg in itertools.product((1, -1), repeat=3):
            s.ensure(tag + "touches the vertices", sh.on_boundary(s, E, S.world(s.arr([a * x for a, x in zip(sg, S.h)]))))
    elif S.kind == "cylinder":
        hl = s.c(0) if S.hl is None else S.hl; r = s.c(0) if S.r is None else S.r
        q = y[0] * y[0] + y[1] * y[1]
        if s.sym:
            if S.r is not None: s.rule_mul((r * r, 1 - q / (r * r)))
            if S.hl is not None: s.rule_mul((hl * hl, 1 - y[2] * y[2] / (hl * hl)))
            if S.r is not None or S.hl is not None: s.rule_mul((1 / (r * r + hl * hl), r * r - q + hl * hl - y[2] * y[2]))
        u = s.rot("phi", 2)[:, 0]
        for g in (1, -1): s.ensure(tag + "touches the end circles", sh.on_boundary(s, E, S.world(s.arr([r * u[0], r * u[1], g * hl]))))
    else:
        hs = S.hs if S.kind == "ellipsoid" else list(S.h)
        if sphere:
            M = E.half_extents[0]
            s.ensure(tag + "touches the longest axis", s.Or(*[s.eq(M, s.c(0) if h is None else h) for h in hs]))
            if s.sym and not all(h is None for h in hs):
                for h, x in zip(hs, y):
                    if h is None: continue
                    s.rule_square(x / h); s.rule_mul((M - h, M + h), ((x / h) * (x / h), M * M - h * h))
                    s.rule_mul(((x / h) * (x / h), (M - h) * (M + h)))
                t = sum((x * x / (h * h) for h, x in zip(hs, y) if h is not None), s.c(0))
                s.rule_mul((M * M, 1 - t)); s.rule_mul((1 / (M * M), M * M - sum((x * x for h, x in zip(hs, y) if h is not None), s.c(0))))
        else:
            w = [s.arr([h if k == i else s.c(0) for k in range(3)]) for i, h in enumerate(hs) if h is not None]
            for x in w: s.ensure(tag + "touches the axis ends", sh.on_boundary(s, E, S.world(x)))
    encloses(s, tag, E, p)

@contract("C10", "bounding ellipsoid", cases=[(k, h) for k in ["box", "box110", "box100", "box000", "sphere"] + ELL3 + CYL for h in (KW if k in ("box", "ellipsoid111", "cylinder11") else ("default", "sphere"))], covers=MBE)
def _(s, case):
    kind, how = case
    S = sh.make(s, kind); y = sh.point_in(s, S)
    E = S.obj.mbe(**KW[how])
    bounds(s, "", S, E, y, how == "sphere")

@contract("C10", "bounding ellipsoids of a rigid body", cases=["default", "sphere", "solver"], covers=["rigeo.rigidbody.RigidBody.mbes"] + MBE)
def _(s, how):
    Ss = [sh.make(s, "box", "a"), sh.make(s, "cylinder11", "b"), sh.make(s, "ellipsoid111", "e")]
    p = params(s, "p")
    b = s.rg.RigidBody([S.obj for S in Ss], p)
    kw = {k: v for k, v in KW[how].items() if k != "rcond"}
    B = b.mbes(**kw)
    s.ensure("as many shapes", len(B.shapes) == 3)
    s.ensure_eq("same inertia", B.params.J, p.J)
    for i, (S, E) in enumerate(zip(Ss, B.shapes)):
        bounds(s, f"shape {i}: ", S, E, sh.point_in(s, S, f"y{i}_"), how == "sphere")
