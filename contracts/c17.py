"""C17: whatever satisfies the realizability constraints is physically consistent (with the margin asked for) and within the shape's bounds."""
from engine.ctx import contract
from . import shapes as sh

S_ = "rigeo.shape."; CON = "rigeo.constraint."
FORMS = ["matrix", "vector"]

def basis(s):
    """J = sum of theta_k E_k (mass, h, Ixx, Ixy, Ixz, Iyy, Iyz, Izz): H = tr(I)/2 - I"""
    q = s.q(1, 2); out = []
    def E(*es):
        M = s.zeros(4, 4)
        for i, j, v in es: M[i, j] = v
        return M
    out.append(E((3, 3, 1)))
    for k in range(3): out.append(E((k, 3, 1), (3, k, 1)))
    for a, b in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)):
        out.append(E(*[(k, k, -q if k == a else q) for k in range(3)]) if a == b else E((a, b, -1), (b, a, -1)))
    return out

def pim(s, V, form):
    if form == "matrix": return V
    return sum((V[i] * E for i, E in list(enumerate(basis(s)))[1:]), V[0] * basis(s)[0])

def shp(form): return (4, 4) if form == "matrix" else (10,)

def consistent(s, form, eps):
    J = lambda V: pim(s, V, form)
    return [("pseudo-inertia is symmetric", "zero", lambda V: J(V) - J(V).T),
            ("pseudo-inertia is at least eps times identity", "psd", lambda V: J(V) - eps * s.eye(4))]

def body(s, S, J):
    """mass, first moment and second moments in the shape's own frame"""
    m = J[3, 3]; h = J[:3, 3]; c = S.c; R = S.R
    h0 = R.T @ (h - m * c)
    def sec(i):
        r = R[:, i]; d = r @ c
        return r @ J[:3, :3] @ r - 2 * d * (r @ h) + d * d * m
    return m, h0, sec

def local(s, S, form, f):
    def g(V):
        m, h0, sec = body(s, S, pim(s, V, form))
        return f(m, h0, sec)
    return g

def margin(s):
    eps = s.nneg("eps")
    if not s.sym: eps = min(eps, 0.3) if s.rs.random() < 0.8 else 0.0
    return eps

def run(s, S, form, call, goals, hints=None):
    eps = margin(s)
    s.implied(shp(form), lambda V: call(V, eps), consistent(s, form, eps) + goals, hints=hints)

# ---------------------------------------------------------------- the building blocks
@contract("C17", "consistency constraints", covers=[CON + "pim_psd"])
def _(s):
    eps = margin(s)
    s.implied((4, 4), lambda V: s.rg.constraint.pim_psd(V, eps=eps), consistent(s, "matrix", eps))

@contract("C17", "consistency constraints of a parameter variable", cases=FORMS, covers=[CON + "pim_must_equal_param_var", CON + "pim_psd", CON + "pim_must_equal_vec", CON + "pim_sum_vec_matrices"])
def _(s, form):
    eps = margin(s)
    s.implied(shp(form), lambda V: s.rg.constraint.pim_must_equal_param_var(V, eps)[1], consistent(s, form, eps))

def near_margin(s, form, eps):
    """an arbitrary symmetric pseudo-inertia (concretely: often just at least eps times identity) and its variable form"""
    if s.sym:
        x = s.symmat("J", 4) if form == "matrix" else s.vec("p", 10)
        return pim(s, x, form), x
    def mk():
        G = s.rs.normal(size=(4, 4)) * (s.rs.random(4) < 0.8)
        return s.rs.choice([1.0, 1.0, 0.1]) * G @ G.T + (eps + s.rs.choice([0.01, 1e-3, -0.01, -0.1])) * s.np.eye(4)
    J = s.np.array(s._get("J", mk)); H = J[:3, :3]; I = s.np.trace(H) * s.np.eye(3) - H
    return J, J if form == "matrix" else s.np.concatenate([[J[3, 3]], J[:3, 3], I[s.np.triu_indices(3)]])

@contract("C17", "no more than consistency", cases=FORMS, covers=[CON + "pim_must_equal_param_var", CON + "pim_psd"])
def _(s, form):
    eps = margin(s)
    J, x = near_margin(s, form, eps)
    s.assume(s.psd(J - eps * s.eye(4)))
    k = s.mark(); V = s.cvar(x)
    s.feasible("accepted", s.rg.constraint.pim_must_equal_param_var(V, eps)[1], mark=k)

@contract("C17", "matrix of a 10-vector", covers=[CON + "pim_must_equal_vec", CON + "pim_must_equal_param_var", CON + "pim_sum_vec_matrices", "rigeo.inertial.InertialParameters.from_vec"])
def _(s):
    x = s.vec("p", 10); V = s.cvar(x); J = pim(s, x, "vector")
    s.ensure_eq("pim_must_equal_vec", s.expr_value(s.rg.constraint.pim_must_equal_vec(V)), J)
    s.ensure_eq("pim_must_equal_param_var", s.expr_value(s.rg.constraint.pim_must_equal_param_var(V, 0)[0]), J)
    xm = s.arr([s.pos("mass")] + [x[i] for i in range(1, 10)])
    s.ensure_eq("as the parameters have it", s.rg.InertialParameters.from_vec(xm).J, pim(s, xm, "vector"))
    A = s.rg.constraint.pim_sum_vec_matrices()
    s.ensure("ten matrices", len(A) == 10)
    s.ensure_eq("sum of the matrices", sum((x[i] * A[i] for i in range(1, 10)), x[0] * A[0]), J)
    M = s.mat("M", 4)
    s.ensure_eq("a matrix is taken as it is", s.expr_value(s.rg.constraint.pim_must_equal_param_var(s.cvar(M), 0)[0]), M)

# ---------------------------------------------------------------- shapes
def faces(s, S, form):
    def g(V):
        J = pim(s, V, form); A = S.obj.A; b = S.obj.b
        return J[3, 3] * b - A @ J[:3, 3]
    return [("centre of mass satisfies the faces", "ge", g)]

def corner(s):
    """M psd => its first diagonal entry is not negative"""
    return lambda cs, vs, V: [s.under(ax, lambda: s.psd_at(M, s.arr([1] + [0] * (M.shape[0] - 1)))) for ax, M in s.psd_mats(cs, vs)]

CASES = [(k, f, d) for k in ("polyhedron", "box", "box110") for f, d in (("matrix", 2), ("vector", 2), ("matrix", 1))]
@contract("C17", "moment constraints of a polyhedron", cases=CASES, covers=[S_ + "poly.ConvexPolyhedron.moment_sdp_constraints"], samples=12)
def _(s, case):
    kind, form, d = case
    S = sh.make(s, kind)
    run(s, S, form, lambda V, eps: S.obj.moment_sdp_constraints(V, eps=eps, d=d), faces(s, S, form), corner(s))

@contract("C17", "vertex constraints", cases=[(k, f) for k in ("polyhedron", "box", "box110") for f in FORMS], covers=[S_ + "poly.ConvexPolyhedron.moment_vertex_constraints"], samples=20)
def _(s, case):
    kind, form = case
    S = sh.make(s, kind)
    def hints(cs, vs, V):
        if kind != "polyhedron":
            s.eq_mult(cs, *S.R.a.flat, *S.obj.b.a.flat)
            return s.nneg_mult(vs, *S.h)
        a = s.seq_item(S.A); b = s.seq_item(S.b)
        def f():
            s.eq_mult(cs, *a, b)
            for v in vs:
                if v.attrs["nonneg"] and v.ndim == 1 and v.v.ax == S.V.ax[:1]: s.rule_sum(lambda w, x: (w, b - a @ x), v.v, S.V)
        s.under(S.A.ax[0], f)
    run(s, S, form, lambda V, eps: S.obj.moment_vertex_constraints(V, eps=eps), faces(s, S, form), hints)

def bounds(s, S, form, ext):
    """|h_i| <= m ext_i and H_ii <= m ext_i^2 in the shape's axes"""
    out = []
    for i in range(3):
        e = ext[i]
        out.append((f"centre of mass below {i}", "ge", local(s, S, form, lambda m, h, q, i=i, e=e: m * e - h[i])))
        out.append((f"centre of mass above {i}", "ge", local(s, S, form, lambda m, h, q, i=i, e=e: m * e + h[i])))
    return out
def spread(s, S, form, axes, bound, name):
    return [(name, "ge", local(s, S, form, lambda m, h, q: m * bound - sum(q(i) for i in axes[1:]) - q(axes[0])))]

@contract("C17", "custom vertex constraints of a box", cases=[(k, f) for k in ("box", "box110") for f in FORMS], covers=[S_ + "box.Box.moment_custom_vertex_constraints"], samples=20)
def _(s, case):
    kind, form = case
    S = sh.make(s, kind)
    goals = bounds(s, S, form, S.h)
    for i in range(3): goals += spread(s, S, form, [i], S.h[i] * S.h[i], f"second moment {i}")
    def hints(cs, vs, V):
        s.eq_mult(cs, *S.h, *[x * x for x in S.h])
        s.nneg_mult(vs, *S.h, *[x * x for x in S.h])
    run(s, S, form, lambda V, eps: S.obj.moment_custom_vertex_constraints(V, eps=eps), goals, hints)

def ext_cyl(s, S):
    hl = s.c(0) if S.hl is None else S.hl; r = s.c(0) if S.r is None else S.r
    return hl, r

def cyl_goals(s, S, form, second=True):
    hl, r = ext_cyl(s, S)
    g = [("centre of mass below the top", "ge", local(s, S, form, lambda m, h, q: m * hl - h[2])),
         ("centre of mass above the bottom", "ge", local(s, S, form, lambda m, h, q: m * hl + h[2]))]
    g += spread(s, S, form, [0, 1], r * r, "transverse second moments")
    if second and S.hl is not None: g += spread(s, S, form, [2], hl * hl, "longitudinal second moment")
    return g

@contract("C17", "moment constraints of a cylinder", cases=[("cylinder11", "matrix", 2), ("cylinder11", "vector", 2), ("cylinder11", "matrix", 1), ("cylinder01", "matrix", 2), ("cylinder10", "matrix", 2)],
          covers=[S_ + "cylinder.Cylinder.moment_sdp_constraints"], samples=12)
def _(s, case):
    kind, form, d = case
    S = sh.make(s, kind); hl, r = ext_cyl(s, S)
    def hints(cs, vs, V):
        corner(s)(cs, vs, V)
        s.eq_mult(cs, hl, r * r)
        if d == 2 and S.hl is not None:
            for ax, M in s.psd_mats(cs, vs):
                if s.same_shape(M, (4, 4)):
                    for g in (1, -1):
                        v = s.arr([hl, 0, 0, g]); s.psd_at(M, v)
                        # the equations tying M to the moments, combined as in v' M v
    run(s, S, form, lambda V, eps: S.obj.moment_sdp_constraints(V, eps=eps, d=d), cyl_goals(s, S, form, False), hints)

@contract("C17", "custom constraints of a cylinder", cases=[(k, f) for k in ("cylinder11", "cylinder01", "cylinder10") for f in FORMS],
          covers=[S_ + "cylinder.Cylinder.moment_custom_vertex_constraints", S_ + "ellipsoid.Ellipsoid.moment_constraints", S_ + "ellipsoid.Ellipsoid._QV_degenerate"], samples=20)
def _(s, case):
    kind, form = case
    S = sh.make(s, kind); hl, r = ext_cyl(s, S)
    def hints(cs, vs, V):
        s.eq_mult(cs, hl, hl * hl, r * r)
        for ax, M in s.psd_mats(cs, vs):
            n = M.shape[0]
            for i in range(n): s.psd_at(M, s.arr([1 if j == i else 0 for j in range(n)]))
            if S.r is not None and n == 3: s.rule_mul((r * r, M[2, 2] - (M[0, 0] + M[1, 1]) / (r * r)))
    run(s, S, form, lambda V, eps: S.obj.moment_custom_vertex_constraints(V, eps=eps), cyl_goals(s, S, form), hints)

def home(s, S):
    """world to shape coordinates"""
    T = s.eye(4); T[:3, :3] = S.R.T; T[:3, 3] = -(S.R.T @ S.c)
    return T

def trace_goal(s, S, form):
    """sum of the second moments over the squared half extents is at most the mass; nothing is spread along a zero extent"""
    nz = [i for i in range(3) if S.hs[i] is not None]
    def g(m, h, q):
        e = m
        for i in nz: e = e - q(i) / (S.hs[i] * S.hs[i])
        return e
    out = [("bounding ellipsoid condition", "ge", local(s, S, form, g))]
    for i in range(3):
        if S.hs[i] is None:
            out += [(f"no spread along zero axis {i}", "zero", local(s, S, form, lambda m, h, q, i=i: q(i))), (f"no offset along zero axis {i}", "zero", local(s, S, form, lambda m, h, q, i=i: h[i]))]
    return out

@contract("C17", "ellipsoid constraints", cases=[(k, f) for k in sh.ELL3 for f in (FORMS if k in ("ellipsoid111", "ellipsoid110") else FORMS[:1])],
          covers=[S_ + "ellipsoid.Ellipsoid.moment_constraints", S_ + "ellipsoid.Ellipsoid._QV_degenerate", S_ + "ellipsoid.Ellipsoid.Q"], samples=20)
def _(s, case):
    kind, form = case
    S = sh.make(s, kind)
    run(s, S, form, lambda V, eps: S.obj.moment_constraints(V, eps=eps), trace_goal(s, S, form), lambda cs, vs, V: s.eq_cong(cs, home(s, S), *[1 / (x * x) for x in S.hs if x is not None]))

# ---------------------------------------------------------------- a 10-vector means the matrix it encodes
MAKERS = {"consistency": lambda s, o, V, e: s.rg.constraint.pim_must_equal_param_var(V, e)[1]}
for k in ("box", "polyhedron"):
    MAKERS[k + " moments"] = lambda s, o, V, e: o.moment_sdp_constraints(V, eps=e)
    MAKERS[k + " vertices"] = lambda s, o, V, e: o.moment_vertex_constraints(V, eps=e)
MAKERS["box custom"] = MAKERS["cylinder custom"] = lambda s, o, V, e: o.moment_custom_vertex_constraints(V, eps=e)
MAKERS["cylinder moments"] = MAKERS["box moments"]
MAKERS["ellipsoid trace"] = MAKERS["ellipsoid110 trace"] = lambda s, o, V, e: o.moment_constraints(V, eps=e)
MAKERS["body of one"] = lambda s, o, V, e: s.rg.RigidBody(o).moment_sdp_constraints(V, eps=e)
MAKERS["body of two"] = lambda s, o, V, e: s.rg.RigidBody([o, s.rg.Ellipsoid([2, 1, 1])]).moment_sdp_constraints(V, eps=e)

@contract("C17", "vector or matrix", cases=list(MAKERS), covers=[CON + "pim_must_equal_param_var", CON + "pim_must_equal_vec", "rigeo.rigidbody.RigidBody.moment_sdp_constraints"], samples=12)
def _(s, case):
    o = None if case == "consistency" else sh.make(s, "box" if case.startswith("body") else case.split()[0]).obj
    eps = margin(s); x = s.vec("p", 10)
    k = s.mark(); a = MAKERS[case](s, o, s.cvar(x), eps); va = s.new_vars(k)
    k = s.mark(); b = MAKERS[case](s, o, s.cvar(pim(s, x, "vector")), eps); vb = s.new_vars(k)
    s.same_cons("same meaning", a, va, b, vb)

def sdp_(o, V, **k): return o.moment_sdp_constraints(V, **k)
DEFAULTS = {"psd": (None, lambda s, o, V, **k: s.rg.constraint.pim_psd(V, **k))}
for k in ("box", "polyhedron", "cylinder11"):
    DEFAULTS[k + " moments"] = (k, lambda s, o, V, **k: o.moment_sdp_constraints(V, **k))
    if k in ("box", "polyhedron"): DEFAULTS[k + " vertices"] = (k, lambda s, o, V, **k: o.moment_vertex_constraints(V, **k))
    if k in ("box", "cylinder11"): DEFAULTS[k + " custom"] = (k, lambda s, o, V, **k: o.moment_custom_vertex_constraints(V, **k))
for k in ("ellipsoid111", "ellipsoid110", "sphere"): DEFAULTS[k + " trace"] = (k, lambda s, o, V, **k: o.moment_constraints(V, **k))
DEFAULTS["body of one"] = ("box", lambda s, o, V, **k: s.rg.RigidBody(o).moment_sdp_constraints(V, **k))
DEFAULTS["body of one ellipsoid"] = ("ellipsoid111", lambda s, o, V, **k: s.rg.RigidBody(o).moment_sdp_constraints(V, **k))
DEFAULTS["body of two"] = ("box", lambda s, o, V, **k: s.rg.RigidBody([o, s.rg.Ellipsoid([2, 1, 1])]).moment_sdp_constraints(V, **k))

@contract("C17", "no margin unless one is asked for", cases=list(DEFAULTS), covers=[CON + "pim_psd", CON + "pim_must_equal_param_var", S_ + "poly.ConvexPolyhedron.moment_sdp_constraints", S_ + "poly.ConvexPolyhedron.moment_vertex_constraints",
          S_ + "box.Box.moment_custom_vertex_constraints", S_ + "cylinder.Cylinder.moment_sdp_constraints", S_ + "cylinder.Cylinder.moment_custom_vertex_constraints", S_ + "ellipsoid.Ellipsoid.moment_constraints", "rigeo.rigidbody.RigidBody.moment_sdp_constraints"], samples=3)
def _(s, case):
    kind, call = DEFAULTS[case]
    o = sh.make(s, kind).obj if kind else None; J = s.symmat("J", 4)
    k = s.mark(); a = call(s, o, s.cvar(J)); va = s.new_vars(k)
    k = s.mark(); b = call(s, o, s.cvar(J), eps=0); vb = s.new_vars(k)
    s.same_cons("same as a margin of zero", a, va, b, vb)

@contract("C17", "feasibility problem", cases=[(k, f) for k in ("polyhedron", "box", "cylinder11", "cylinder01") for f in ("default", "margin", "margin and degree")],
          covers=[S_ + "poly.ConvexPolyhedron.moment_sdp_feasibility_problem", S_ + "cylinder.Cylinder.moment_sdp_feasibility_problem"], samples=4)
def _(s, case):
    kind, f = case; o = sh.make(s, kind).obj; J = s.symmat("J", 4)
    kw = {} if f == "default" else {"eps": margin(s), **({"d": 1} if "degree" in f else {})}
    k = s.mark(); p = o.moment_sdp_feasibility_problem(s.cvar(J), **kw); va = s.new_vars(k)
    k = s.mark(); b = o.moment_sdp_constraints(s.cvar(J), **kw); vb = s.new_vars(k)
    s.same_cons("the moment constraints, nothing else", p.constraints, va, b, vb)
    z = p.objective.expr
    s.ensure("nothing is optimised", s.eq(z.v, s.zeros(*z.shape)) if s.sym else z.is_constant(), weak=True)

# ---------------------------------------------------------------- checking given parameters
@contract("C17", "accepted parameters are consistent", cases=sh.ELL3, covers=[S_ + "ellipsoid.Ellipsoid.can_realize", "rigeo.inertial.InertialParameters.consistent"])
def _(s, kind):
    S = sh.make(s, kind); eps = margin(s)
    if s.sym: m = s.pos("m"); J = s.symmat("J", 4); J[3, 3] = m
    else: J, _ = near_margin(s, "matrix", eps); s.assume(J[3, 3] >= 0)
    p = s.rg.InertialParameters.from_pim(J)
    r = s.truth(S.obj.can_realize(p, eps=eps))
    s.ensure("at least eps times identity", s.implies(r, s.psd(J - eps * s.eye(4))))
    m, h, q = body(s, S, J)
    e = m
    for i in range(3):
        if S.hs[i] is not None: e = e - q(i) / (S.hs[i] * S.hs[i])
    s.ensure("bounding ellipsoid condition", s.implies(r, s.le(0, e)))
    if all(x is not None for x in S.hs):
        s.ensure("nothing else is required", s.implies(s.And(s.psd(J - eps * s.eye(4)), s.le(0, e)), r))
    s.ensure("no margin unless one is asked for", s.iff(s.truth(S.obj.can_realize(p)), s.truth(S.obj.can_realize(p, eps=0))))

# ---------------------------------------------------------------- bodies
@contract("C17", "a body of one shape", cases=["box", "cylinder11", "ellipsoid111", "ellipsoid100", "polyhedron"], covers=["rigeo.rigidbody.RigidBody.moment_sdp_constraints"], samples=12)
def _(s, kind):
    S = sh.make(s, kind); eps = margin(s); V = s.cvar(s.mat("J", 4))
    k = s.mark(); a = s.rg.RigidBody(S.obj).moment_sdp_constraints(V, eps=eps, d=1); va = s.new_vars(k)
    k = s.mark(); b = S.obj.moment_constraints(V, eps=eps) if kind.startswith("ell") else S.obj.moment_sdp_constraints(V, eps=eps, d=1); vb = s.new_vars(k)
    s.same_cons("the shape's own constraints", a, va, b, vb)

def half_space(s, Ss):
    """a half-space n.x <= beta that holds all the shapes: non-negative multipliers of each shape's faces (Farkas)"""
    if not s.sym:
        n = s.vec("n"); return n, max(float(s.np.max(S.obj.vertices @ n)) for S in Ss), []
    n = s.vec("n"); be = s.real("beta"); mult = []
    for i, S in enumerate(Ss):
        l = s.arr([s.nneg(f"l{i}_{k}") for k in range(S.obj.nf)])
        s.assume(s.eq(n, S.obj.A.T @ l)); s.assume(s.le(l @ S.obj.b, be))
        mult.append(l)
    return n, be, mult

@contract("C17", "a body of several shapes", cases=FORMS, covers=["rigeo.rigidbody.RigidBody.moment_sdp_constraints"], samples=12)
def _(s, form):
    Ss = [sh.make(s, "box", "a"), sh.make(s, "box", "b")]
    n, be, mult = half_space(s, Ss)
    def hints(cs, vs, V):
        corner(s)(cs, vs, V)
        for ax, M in s.psd_mats(cs, vs):
            if ax is None and s.same_shape(M, (4, 4)):
                s.psd_at(M, s.arr([0, 0, 0, 1]))
                for S, l in zip(Ss, mult):
                    A = S.obj.A; b = S.obj.b; g = A.T @ l; h = M[:3, 3]
                    s.rule_eq(*[(h[j], n[j], g[j]) for j in range(3)])
                    s.rule_mul((M[3, 3], be - l @ b), *[(l[k], M[3, 3] * b[k] - A[k] @ h) for k in range(len(l))])
        s.eq_mult(cs, be, *n)
    run(s, None, form, lambda V, eps: s.rg.RigidBody([S.obj for S in Ss]).moment_sdp_constraints(V, eps=eps, d=1),
        [("centre of mass in every half-space that holds the body", "ge", lambda V: pim(s, V, form)[3, 3] * be - n @ pim(s, V, form)[:3, 3])], hints)
