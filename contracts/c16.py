"""C16: no realizability constraint excludes a body whose mass lies in the shape.
A point mass anywhere in the shape satisfies the constraints; what satisfies them is closed under addition and, for a margin eps, loses
only what has a pseudo-inertia below eps times identity.  Together: every point-mass system, hence every density, in the shape."""
from engine.ctx import contract
from . import shapes as sh
from .c17 import pim, body, FORMS

S_ = "rigeo.shape."; CON = "rigeo.constraint."; RB = "rigeo.rigidbody.RigidBody.moment_sdp_constraints"

# ---------------------------------------------------------------- constraint families: kind -> (call, covers)
def sdp(d): return lambda s, o, V, e: o.moment_sdp_constraints(V, eps=e, d=d)
def vert(s, o, V, e): return o.moment_vertex_constraints(V, eps=e)
def custom(s, o, V, e): return o.moment_custom_vertex_constraints(V, eps=e)
def trace(s, o, V, e): return o.moment_constraints(V, eps=e)

def grev(d): return [e for e in _mono(3, d)]
def _mono(n, d):
    """exponents of degree at most d, in the library's order (checked in C18)"""
    import itertools
    e = [(0,) * n] + [tuple(1 if i == k else 0 for i in range(n)) for k in range(n)]
    return [tuple(sum(x) for x in zip(*g)) for g in itertools.combinations_with_replacement(e, d)]
def monos(s, x, d):
    out = []
    for e in _mono(len(x), d):
        v = s.c(1)
        for xi, k in zip(x, e):
            for _ in range(k): v = v * xi
        out.append(v)
    return out
def outer(s, m, v): return s.arr([[m * a * b for b in v] for a in v])

def point(s, S, tag=""):
    """a point of the shape in its own coordinates and in the world; the mass"""
    y = sh.point_in(s, S, "y" + tag)
    return y, S.world(y), s.nneg("mass" + tag)

def dirac(s, m, x): return outer(s, m, [x[0], x[1], x[2], s.c(1)])
def as_form(s, J, form):
    if form == "matrix": return J
    H = J[:3, :3]; t = H[0, 0] + H[1, 1] + H[2, 2]
    return s.arr([J[3, 3], J[0, 3], J[1, 3], J[2, 3], t - H[0, 0], -H[0, 1], -H[0, 2], t - H[1, 1], -H[1, 2], t - H[2, 2]])

def accepted(s, name, S, cs, k, W, lemmas=None):
    s.feasible(name, cs, witness=W, mark=k, lemmas=lemmas)

def by_shape(s, size, val, zero=False):
    """the moment matrix gets its value, everything else is defined by the equations"""
    def W(vs):
        out = []; done = False
        for v in vs:
            if v.shape == (size, size) and not done: out.append(val); done = True
            else: out.append(None)
        return out
    return W

CASES = [("polyhedron", 2, "matrix"), ("polyhedron", 1, "matrix"), ("polyhedron", 2, "vector"), ("box", 2, "matrix"), ("box", 1, "vector"), ("box110", 2, "matrix"),
         ("cylinder11", 2, "matrix"), ("cylinder11", 1, "vector"), ("cylinder01", 2, "matrix"), ("cylinder10", 2, "matrix")]
@contract("C16", "a point mass satisfies the moment constraints", cases=CASES, covers=[S_ + "poly.ConvexPolyhedron.moment_sdp_constraints", S_ + "cylinder.Cylinder.moment_sdp_constraints", CON + "pim_must_equal_param_var"], samples=10)
def _(s, case):
    kind, d, form = case
    S = sh.make(s, kind); y, x, m = point(s, S); J = dirac(s, m, x)
    k = s.mark(); V = s.cvar(as_form(s, J, form))
    cs = S.obj.moment_sdp_constraints(V, eps=0, d=d)
    p = y if S.kind == "cylinder" else x        # the coordinates the moments are taken in
    b = monos(s, p, d); W = by_shape(s, len(b), outer(s, m, b))
    def lem(M):
        n = M.shape[0]
        if n == len(b): s.psd_outer("moments", M, [(m, b)])
        if n == 4:
            s.psd_outer("J", M, [(m, [x[0], x[1], x[2], s.c(1)])])
        for dd in (0, 1):
            v = monos(s, p, dd)
            if n == len(v):
                # value of the polynomial is the corner of the matrix over the mass
                def loc():
                    for e in poly_value(s, S, y, x, M, m):
                        s.rule_mul((m, e)); s.psd_outer("localized", M, [(m * e, v)])
                s.under(S.A.ax[0] if S.kind == "polyhedron" else None, loc)
    accepted(s, "accepted", S, cs, k, W, lem)

def poly_value(s, S, y, x, M, m):
    """the non-negative quantities that define the shape"""
    if S.kind == "polyhedron": return [s.seq_item(S.b) - s.seq_item(S.A) @ x]
    if S.kind == "box": return [S.h[i] + g * y[i] for i in range(3) for g in (1, -1)]
    hl = s.c(0) if S.hl is None else S.hl; r = s.c(0) if S.r is None else S.r
    out = [hl + y[2], hl - y[2]]; q = r * r - y[0] * y[0] - y[1] * y[1]
    if S.r is not None: s.rule_mul((r * r, 1 - (y[0] * y[0] + y[1] * y[1]) / (r * r)))
    if S.hl is not None: s.rule_mul((hl * hl, 1 - y[2] * y[2] / (hl * hl))); s.rule_abs((y[2], hl))
    return out + [q]

# ---------------------------------------------------------------- vertex constraints
def box_weights(s, S, y):
    """weights of the vertices, in the library's order, whose mean is y"""
    import itertools
    out = []
    for sg in itertools.product((1, -1), repeat=3):
        w = s.c(1)
        for g, yi, h in zip(sg, y, S.h):
            w = w * (s.q(1, 2) if flat(s, h) else s.q(1, 2) + g * yi / (2 * h))
        out.append(w)
    return s.arr(out)
def flat(s, h): return s.sym and not hasattr(h, "d") and h == 0

def box_rules(s, S, y, m):
    """the weights are not negative; neither is h^2 - y^2"""
    for i in range(3):
        h = S.h[i]
        if flat(s, h): continue
        s.rule_mul((h, s.q(1, 2) - y[i] / (2 * h)), (h, s.q(1, 2) + y[i] / (2 * h)))
        s.rule_mul((h - y[i], h + y[i])); s.rule_mul((m, h * h - y[i] * y[i]))
    import itertools
    for sg in itertools.product((1, -1), repeat=3):
        w = m
        for g, yi, h in zip(sg, y, S.h):
            e = s.q(1, 2) if flat(s, h) else s.q(1, 2) + g * yi / (2 * h)
            s.rule_mul((w, e)); w = w * e

@contract("C16", "a point mass satisfies the vertex constraints", cases=[(k, f) for k in ("polyhedron", "box", "box110", "box000") for f in FORMS], covers=[S_ + "poly.ConvexPolyhedron.moment_vertex_constraints"], samples=12)
def _(s, case):
    kind, form = case
    S = sh.make(s, kind); one = s.c(1)
    if kind == "polyhedron" and s.sym:
        # a weighted mean of the vertices
        m = s.nneg("mass"); w = s.many("w", S.obj.nv, (), sign="nneg")
        tot = s.sum_rows(lambda a: a, w); s.assume(s.eq(tot, one))
        x = s.arr([s.sum_rows(lambda a, v, i=i: a * v[i], w, S.V) for i in range(3)])
        J = dirac(s, m, x)
        for a in list(x) + [one]:
            for b in list(x) + [one]: s.rule_eq((m * a * b, tot, one))
        s.under(w.ax[0], lambda: s.rule_mul((m, s.seq_item(w))))
        W = lambda vs: [m * w if v.shape == S.V.shape[:1] else None for v in vs]
        def lem(M):
            if M.shape[0] == 4: s.psd_outer("J", M, [(m, list(x) + [one])])
            if M.shape[0] == 3: s.psd_outer("spread", M, [(w, m * s.seq_item(w), s.seq_item(S.V) - x)])
    else:
        y, x, m = point(s, S); J = dirac(s, m, x)
        if s.sym and kind != "box000": box_rules(s, S, y, m)
        mu = m * box_weights(s, S, y) if kind != "polyhedron" and s.sym else None
        W = lambda vs: [mu if v.shape == (8,) else None for v in vs]
        def lem(M):
            if M.shape[0] == 4: s.psd_outer("J", M, [(m, list(x) + [one])])
            if M.shape[0] == 3: s.psd_outer("spread", M, [(m * (S.h[i] * S.h[i] - y[i] * y[i]), list(S.R[:, i])) for i in range(3)])
    k = s.mark(); V = s.cvar(as_form(s, J, form))
    accepted(s, "accepted", S, S.obj.moment_vertex_constraints(V, eps=0), k, W, lem)

@contract("C16", "a point mass satisfies the custom box constraints", cases=[(k, f) for k in ("box", "box110", "box000") for f in FORMS], covers=[S_ + "box.Box.moment_custom_vertex_constraints"], samples=12)
def _(s, case):
    kind, form = case
    S = sh.make(s, kind); y, x, m = point(s, S); J = dirac(s, m, x)
    if s.sym and kind != "box000": box_rules(s, S, y, m)
    mu = m * box_weights(s, S, y) if s.sym else None
    k = s.mark(); V = s.cvar(as_form(s, J, form))
    accepted(s, "accepted", S, S.obj.moment_custom_vertex_constraints(V, eps=0), k, lambda vs: [mu if v.shape == (8,) else None for v in vs],
             lambda M: s.psd_outer("J", M, [(m, list(x) + [s.c(1)])]) if M.shape[0] == 4 else None)

# ---------------------------------------------------------------- cylinders and ellipsoids
@contract("C16", "a point mass satisfies the custom cylinder constraints", cases=[(k, f) for k in ("cylinder11", "cylinder01", "cylinder10", "cylinder00") for f in FORMS],
          covers=[S_ + "cylinder.Cylinder.moment_custom_vertex_constraints", S_ + "ellipsoid.Ellipsoid.moment_constraints", S_ + "ellipsoid.Ellipsoid._QV_degenerate"], samples=12)
def _(s, case):
    kind, form = case
    S = sh.make(s, kind); y, x, m = point(s, S); J = dirac(s, m, x); one = s.c(1)
    hl = s.c(0) if S.hl is None else S.hl
    t = s.q(1, 2) if S.hl is None or not s.sym else s.q(1, 2) + y[2] / (2 * hl)
    ws = [m * t, m * (1 - t)]
    us = [[y[0], y[1], hl, one], [y[0], y[1], -hl, one]]
    rs = [[y[0], y[1], one] if S.r is not None else [one]] * 2
    if s.sym:
        if S.hl is not None:
            s.rule_mul((hl * hl, 1 - y[2] * y[2] / (hl * hl))); s.rule_abs((y[2], hl)); s.rule_mul((hl, t), (hl, 1 - t), (m, t), (m, 1 - t), (m, hl * hl - y[2] * y[2]))
        if S.r is not None:
            e = 1 - (y[0] * y[0] + y[1] * y[1]) / (S.r * S.r); s.rule_mul((ws[0], e), (ws[1], e))
    def W(vs):
        out = []; j = i = 0
        for v in vs:
            if v.shape == (4, 4) and j < 2: out.append(outer(s, ws[j], us[j])); j += 1
            elif v.ndim == 2 and v.shape[0] == len(rs[0]) and i < 2: out.append(outer(s, ws[i], rs[i])); i += 1
            else: out.append(None)
        return out
    def lem(M):
        if M.shape[0] == 4:
            s.psd_outer("J", M, [(m, list(x) + [one])])
            for w, u in zip(ws, us): s.psd_outer("disk", M, [(w, u)])
        if M.shape[0] == len(rs[0]):
            for w, u in zip(ws, rs): s.psd_outer("disk", M, [(w, u)])
    k = s.mark(); V = s.cvar(as_form(s, J, form))
    accepted(s, "accepted", S, S.obj.moment_custom_vertex_constraints(V, eps=0), k, W, lem)

@contract("C16", "a point mass satisfies the ellipsoid constraints", cases=[(k, f) for k in sh.ELL3 + ["sphere"] for f in (FORMS if k in ("ellipsoid111", "ellipsoid110", "sphere") else FORMS[:1])],
          covers=[S_ + "ellipsoid.Ellipsoid.moment_constraints", S_ + "ellipsoid.Ellipsoid._QV_degenerate", S_ + "ellipsoid.Ellipsoid.Q"], samples=12)
def _(s, case):
    kind, form = case
    S = sh.make(s, kind); y, x, m = point(s, S); J = dirac(s, m, x); one = s.c(1)
    hs = [S.r] * 3 if kind == "sphere" else S.hs
    nz = [i for i in range(3) if hs[i] is not None]
    z = [y[i] for i in nz] + [one]
    s.rule_mul((m, one - sum((y[i] * y[i] / (hs[i] * hs[i]) for i in nz), s.c(0))))
    def lem(M):
        if M.shape[0] == 4: s.psd_outer("J", M, [(m, list(x) + [one])])
        if M.shape[0] == len(z): s.psd_outer("local", M, [(m, z)])
    k = s.mark(); V = s.cvar(as_form(s, J, form))
    accepted(s, "accepted", S, S.obj.moment_constraints(V, eps=0), k, lambda vs: [outer(s, m, z) if v.shape == (len(z),) * 2 else None for v in vs], lem)

def conditions(s, S, hs, J, eps):
    """what the pseudo-inertia of mass in the ellipsoid meets: margin; no spread along the flat axes; second moments below the mass"""
    m, h, q = body(s, S, J); e = m; flat0 = []
    for i in range(3):
        if hs[i] is not None: e = e - q(i) / (hs[i] * hs[i])
        else: flat0.append(s.eq(q(i), q(i) * 0))
    return e, flat0

@contract("C16", "parameters that an ellipsoid can carry are accepted", cases=sh.ELL3 + ["sphere"], covers=[S_ + "ellipsoid.Ellipsoid.can_realize", S_ + "ellipsoid.Ellipsoid._Q_degenerate", "rigeo.inertial.InertialParameters.consistent"])
def _(s, kind):
    S = sh.make(s, kind); hs = [S.r] * 3 if kind == "sphere" else S.hs
    if s.sym: m = s.pos("m"); J = s.symmat("J", 4); J[3, 3] = m; eps = s.nneg("eps")
    else:
        J = point_system(s, S); k = s._get("k", lambda: s.rs.choice([0.0, 0.0, 0.1, 0.9]))
        eps = k * max(0.0, s.np.linalg.eigvalsh(J)[0])
        if any(h is None for h in hs) and eps == 0: eps = -1e-9     # rounding
    p = s.rg.InertialParameters.from_pim(J)
    e, flat0 = conditions(s, S, hs, J, eps)
    s.ensure("accepted", s.implies(s.And(s.psd(J - eps * s.eye(4)), s.le(0, e), *flat0), s.truth(S.obj.can_realize(p, eps=eps))))

def point_system(s, S):
    k = int(s._get("k0", lambda: s.rs.integers(1, 6)))
    A = s.np.array([list(S.c + s._get("f", lambda: s.rs.choice([0.5, 0.99, 0.999])) * (S.world(sh.local_sample(s, S, f"y{i}")) - S.c)) + [1.0] for i in range(k)])
    return A.T @ (s.np.array([s._get(f"m{i}", lambda: s.rs.random() * 3) for i in range(k)])[:, None] * A)

@contract("C16", "an ellipsoid can carry point masses inside it", cases=sh.ELL3 + ["sphere"], covers=["rigeo.inertial.InertialParameters.from_point_masses", "rigeo.inertial.InertialParameters.__init__"])
def _(s, kind):
    S = sh.make(s, kind); hs = [S.r] * 3 if kind == "sphere" else S.hs; one = s.c(1)
    n = s.count("n")
    mass = s.many("mass", n, (), sign="pos"); Y = s.many("y", n, (3,))
    if not s.sym: Y = s.np.array([sh.local_sample(s, S, f"y{i}") for i in range(len(mass))])
    z = lambda y: [s.c(0) if hs[i] is None else y[i] for i in range(3)]
    q = lambda y: one - sum((y[i] * y[i] / (hs[i] * hs[i]) for i in range(3) if hs[i] is not None), s.c(0))
    if s.sym: s.assume(s.forall_row(Y, lambda y: s.le(0, q(z(y)))))
    u = lambda y: list(S.c + S.R @ s.arr(z(y))) + [one]
    P = S.c + (Y * s.arr([s.c(0 if h is None else 1) for h in hs])) @ S.R.T
    J = s.arr([[s.sum_rows(lambda m, y, i=i, j=j: m * u(y)[i] * u(y)[j], mass, Y) for j in range(4)] for i in range(4)])
    s.ensure_eq("moments of the system", s.rg.InertialParameters.from_point_masses(masses=mass, points=P).J, J)
    s.rule_sum(lambda m, y: (m, q(z(y))), mass, Y)
    if s.sym: s.psd_outer("J", J, [(mass, s.seq_item(mass), u(s.seq_item(Y)))])
    e, flat0 = conditions(s, S, hs, J, 0)
    s.ensure("consistent", s.psd(J))
    s.ensure("second moments", s.le(0, e))
    s.ensure("no spread along flat axes", s.And(*flat0))

# ---------------------------------------------------------------- sums and margins
FAM = {"consistency": (None, lambda s, o, V, e: s.rg.constraint.pim_must_equal_param_var(V, e)[1])}
for k_, d_ in (("polyhedron", 2), ("polyhedron", 1), ("box", 2), ("cylinder11", 2), ("cylinder01", 2), ("cylinder10", 1)): FAM[f"{k_} moments {d_}"] = (k_, sdp(d_))
for k_ in ("polyhedron", "box", "box110"): FAM[f"{k_} vertices"] = (k_, vert)
for k_ in ("box", "box110", "cylinder11", "cylinder01", "cylinder10"): FAM[f"{k_} custom"] = (k_, custom)
for k_ in ("ellipsoid111", "ellipsoid110", "ellipsoid001", "ellipsoid000", "sphere"): FAM[f"{k_} trace"] = (k_, trace)
def body_of(*more):
    return lambda s, o, V, e: s.rg.RigidBody([o, *[s.rg.Ellipsoid(h) for h in more]]).moment_sdp_constraints(V, eps=e, d=1)
FAM["body of one"] = ("box", body_of()); FAM["body of two"] = ("box", body_of([2, 1, 1])); FAM["body of two ellipsoids"] = ("ellipsoid111", body_of([2, 1, 0]))
COVER = [CON + "pim_must_equal_param_var", CON + "pim_must_equal_vec", CON + "schur", RB, S_ + "poly.ConvexPolyhedron.moment_sdp_constraints", S_ + "poly.ConvexPolyhedron.moment_vertex_constraints", S_ + "box.Box.moment_custom_vertex_constraints",
         S_ + "cylinder.Cylinder.moment_sdp_constraints", S_ + "cylinder.Cylinder.moment_custom_vertex_constraints", S_ + "ellipsoid.Ellipsoid.moment_constraints"]
FORMED = [(f, "matrix") for f in FAM] + [(f, "vector") for f in ("consistency", "polyhedron moments 2", "polyhedron vertices", "box custom", "cylinder11 custom", "ellipsoid111 trace", "body of two")]

def some(s, S, form, tag):
    """generic parameters; for a run: point masses in the shape"""
    if s.sym: return s.vec("p" + tag, 10) if form == "vector" else s.symmat("J" + tag, 4)
    if S is None:
        L = s.mat("L" + tag, 4); return as_form(s, L @ L.T, form)
    k = int(s._get("k" + tag, lambda: s.rs.integers(1, 8)))
    J = sum(dirac(s, float(s._get(f"m{tag}{i}", lambda: s.rs.random() * 3)), S.world(sh.point_in(s, S, f"y{tag}{i}"))) for i in range(k))
    return as_form(s, J, form)

@contract("C16", "sums of accepted bodies are accepted", cases=FORMED, covers=COVER, samples=4)
def _(s, case):
    fam, form = case; kind, call = FAM[fam]
    S = sh.make(s, kind) if kind else None; o = S.obj if S else None
    a = some(s, S, form, "a"); b = some(s, S, form, "b")
    f = lambda V: call(s, o, V, 0)
    s.closed("sum accepted", f, [(f, a), (f, b)], a + b)

@contract("C16", "a margin only excludes what is below the margin", cases=FORMED, covers=COVER, samples=4)
def _(s, case):
    fam, form = case; kind, call = FAM[fam]
    S = sh.make(s, kind) if kind else None; o = S.obj if S else None
    a = some(s, S, form, "a"); J = pim(s, a, form)
    eps = s.nneg("eps") if s.sym else s._get("k", lambda: s.rs.random()) * max(0.0, s.np.linalg.eigvalsh(J)[0])
    s.assume(s.psd(J - eps * s.eye(4)))
    s.closed("accepted with the margin", lambda V: call(s, o, V, eps), [(lambda V: call(s, o, V, 0), a)], a)

# ---------------------------------------------------------------- bodies
@contract("C16", "a point mass in one shape of a body", cases=[(("box", "ellipsoid111"), 0), (("box", "ellipsoid111"), 1), (("cylinder11", "polyhedron"), 0), (("cylinder11", "polyhedron"), 1), (("ellipsoid110", "ellipsoid111"), 0), (("ellipsoid110", "ellipsoid111"), 1)],
          covers=[RB], samples=8)
def _(s, case):
    kinds, at = case
    Ss = [sh.make(s, k, str(i)) for i, k in enumerate(kinds)]
    S = Ss[at]; y, x, m = point(s, S); J = dirac(s, m, x); Z = s.zeros(4, 4); one = s.c(1)
    poly_value(s, S, y, x, J, m) if S.kind == "cylinder" else None
    vals = {(4, 4): [J if i == at else Z for i in range(2)], (10, 10): []}; cand = [(m, [x[0], x[1], x[2], one])]
    for i, T in enumerate(Ss):
        if T.kind == "ellipsoid":
            nz = [k for k in range(3) if T.hs[k] is not None]; z = [y[k] for k in nz] + [one]
            if len(nz) < 3: vals[(len(z),) * 2] = [outer(s, m, z) if i == at else s.zeros(len(z), len(z))]
            if i == at: s.rule_mul((m, one - sum((y[k] * y[k] / (T.hs[k] * T.hs[k]) for k in nz), s.c(0)))); cand.append((m, z))
        else:
            p = y if T.kind == "cylinder" else x; b = monos(s, p, 2)
            vals[(10, 10)].append(outer(s, m, b) if i == at else s.zeros(10, 10))
            if i == at: cand += [(m, b)]
    def W(vs):
        left = {k: list(v) for k, v in vals.items()}
        return [left[v.shape].pop(0) if left.get(v.shape) else None for v in vs]
    def lem(M):
        n = M.shape[0]; s.psd_outer("none", M, [])
        for c, v in cand:
            if len(v) == n: s.psd_outer("mass", M, [(c, v)])
        if S.kind != "ellipsoid":
            v = monos(s, y if S.kind == "cylinder" else x, 1)
            if n == len(v):
                def loc():
                    for e in poly_value(s, S, y, x, M, m):
                        s.rule_mul((m, e)); s.psd_outer("localized", M, [(m * e, v)])
                s.under(S.A.ax[0] if S.kind == "polyhedron" else None, loc)
    k = s.mark(); V = s.cvar(J)
    s.feasible("accepted", s.rg.RigidBody([T.obj for T in Ss]).moment_sdp_constraints(V, eps=0), witness=W, mark=k, lemmas=lem)
