"""C22: bounding and inscribed ellipsoids, for a solver that returns an optimum."""
from engine.ctx import contract
from . import shapes as sh

E = "rigeo.shape.ellipsoid."
COV = [E + "mbe_of_points", E + "Ellipsoid.from_shape_matrix"]
SIZES = (10**-8, 10**8)

# ---------------------------------------------------------------- assumed contracts: the solver, orth/null_space
def spectral_matrices(s, power=1):
    """a symmetric matrix variable whose log-determinant is optimised is positive definite: V diag(w) V' with w > 0 (within the sizes that the library supports)"""
    from engine import np_shim
    mats = []
    def factory(k, shape, attrs):
        if not (attrs["PSD"] or attrs["symmetric"]) or len(shape) != 2: return None
        n = int(shape[0])
        V = s.orth(f"V{len(mats)}_", n)
        w = [s.pos(f"w{len(mats)}_{i}") for i in range(n)]
        for x in w: s.assume(s.And(s.lt(s.q(1, 10**8), x), s.lt(x, s.c(10**8))))
        for x in w[1:]:      # for positive numbers: equal powers, equal numbers, equal inverses
            s.w.roots = s.w.__dict__.get("roots", []) + [(w[0], x, power)]
        w = [x ** power for x in w]
        np_shim.register_spectral(w, V)
        M = V @ s.np.diag(s.arr(w)) @ V.T
        mats.append(M)
        return M
    s.w.var_factory = factory
    return mats

def optimum(s, mats=(), status=None, hints=None):
    from engine import logic, alg
    from engine.alg import Unsupported, ATOMS
    def hook(problem):
        e = problem.objective.expr.v.a.flat[0]
        if mats is not None and len(mats):
            dets = [a for a in (e.atoms() if hasattr(e, "atoms") else []) if ATOMS[a].kind == "ufun"]
            if len(mats) != 1 or not dets: raise Unsupported("an optimisation problem of another kind")
        problem.status = "optimal"
        if status is not None and not bool(status):
            problem.status = "infeasible"; return
        cs = problem.constraints
        if hints: hints(cs)
        s.w.add(problem.formula())
        s.solved = problem
    s.w.solve_hook = hook

class Basis:
    """the columns of M span the first k columns of the orthogonal matrix Q"""
    def __init__(self, Q, k): self.Q = Q; self.k = k
    def zero(self, X):
        from engine import alg
        return all(alg.is_zero(e) if not isinstance(e, (int,)) else e == 0 for e in (X.a.flat if hasattr(X, "a") else [X]))
    def inside(self, M): return M.ndim == 2 and M.a.shape[0] == self.Q.a.shape[0] and (self.k == self.Q.a.shape[1] or self.zero(self.Q[:, self.k:].T @ M))
    def orth(self, M):
        return self.Q[:, :self.k].copy() if self.inside(M) else None
    def null(self, M):
        """M has the rows of the first k columns of Q, up to a rotation among them"""
        if M.a.shape == (self.k, self.Q.a.shape[0]) and self.inside(M.T):
            G = M @ M.T
            if self.zero(G - G.T) and self.zero(G - sh.np.eye(self.k).astype(object) if False else self.diff(G)): return self.Q[:, self.k:].copy()
        return None
    def diff(self, G):
        from engine import np_shim
        return G - np_shim.eye(self.k)

def flat_points(s, d, k, lo=None):
    """any number of points c + Q_k z of affine rank k in R^d"""
    n = s.count("n", lo=k + 1); Z = s.many("z", n, (k,)); c = s.vec("c", d)
    Q = s.orth("Q", d)
    if s.sym: s.w.bases = [Basis(Q, k)]
    else:
        sv = s.np.linalg.svd(Z - Z[0], compute_uv=False)
        s.assume(len(sv) >= k and sv[k - 1] > 0.05)
    return n, Z, Z @ Q[:, :k].T + c, c, Q

def local(s, ell, p): return ell.rotation.T @ (p - ell.center)

def member(s, ell, p, tol=None):
    """p satisfies the defining inequalities of the ellipsoid, from its half extents, rotation and center"""
    if s.sym:
        y = local(s, ell, p); q = s.c(0); fs = []
        for h, x in zip(ell.half_extents, y):
            from engine.alg import is_const
            if is_const(h) and h == 0: fs.append(s.eq(x, s.c(0)))
            else: q = q + (x * x) / (h * h)
        return s.And(s.le(q, s.c(1)), *fs)
    y = local(s, ell, p); t = 2e-3
    fs = []; q = 0.0; scale = 1 + abs(p).max() + ell.half_extents.max()
    for h, x in zip(ell.half_extents, y):
        if h < 1e-9: fs.append(abs(x) <= t * scale)
        else: q += (x / h) ** 2
    return bool(q <= 1 + 2 * t and all(fs))

def is_sphere(s, ell, k):
    hs = [h for h in ell.half_extents]
    if s.sym:
        from engine.alg import is_const
        hs = [h for h in hs if not (is_const(h) and h == 0)]
        for a, b, p in s.w.__dict__.get("roots", []):
            s.assume(s.implies(s.eq(a ** p, b ** p), s.eq(a, b))); s.assume(s.implies(s.eq(a, b), s.eq(1 / a, 1 / b)))
        return s.And(len(hs) == k, *[s.eq(h, hs[0]) for h in hs[1:]])
    hs = sorted(hs)[::-1]
    return bool(all(abs(h - hs[0]) <= 1e-3 * hs[0] for h in hs[:k]))

def rotation_ok(s, ell):
    d = len(ell.center)
    s.ensure("the axes are orthonormal", s.eq(ell.rotation.T @ ell.rotation, s.eye(d)))

def solver_errors(s, f):
    if s.sym: return f()
    found = []; solve = s.cp.Problem.solve
    def recorded(self, *a, **k):
        r = solve(self, *a, **k); found.append(self.status); return r
    s.cp.Problem.solve = recorded
    try: return f()
    except s.cp.error.SolverError: return None
    except (TypeError, AttributeError) as e:      # the solver gave up: no values
        if "NoneType" not in str(e): raise
        if found: s.ensure("the problem has an optimum", found[-1] not in ("unbounded", "infeasible"))
    finally: s.cp.Problem.solve = solve

def option(sph): return {"sphere": dict(sphere=True), "ellipsoid": {}, "ellipsoid, said": dict(sphere=False)}[sph]

# ---- how large the optimum is, computed independently (concrete runs)
def mvee_axes(np, P):
    """product of the half extents of the smallest ellipsoid around the points (Khachiyan's algorithm)"""
    n, k = P.shape; L = np.vstack((P.T, np.ones(n))); u = np.ones(n) / n
    for _ in range(3000):
        M = np.einsum("ij,ij->j", L, np.linalg.solve(L @ (u[:, None] * L.T), L)); j = int(M.argmax())
        if M[j] <= (k + 1) * 1.001: break
        st = (M[j] - k - 1) / ((k + 1) * (M[j] - 1)); u *= 1 - st; u[j] += st
    c = P.T @ u
    return float(np.sqrt(max(np.linalg.det(k * ((P.T * u) @ P - np.outer(c, c))), 0)))

def ball_radius(np, P):
    """radius of the smallest ball around the points (Badoiu and Clarkson)"""
    c = P.mean(axis=0)
    for i in range(1, 3000):
        d = np.linalg.norm(P - c, axis=1); c = c + (P[d.argmax()] - c) / (i + 1)
    return float(np.linalg.norm(P - c, axis=1).max())

def no_larger(s, ell, P, k, sph, slack):
    """ell (k non-zero half extents) is not larger than the smallest ellipsoid (or ball) around the points"""
    if s.sym: return
    np = s.np; hs = np.sort(ell.half_extents)[::-1][:k]
    if not np.all(np.isfinite(hs)) or hs[0] > 1e3: return
    if sph == "sphere": s.ensure("no larger than the smallest sphere", bool(hs[0] <= slack * ball_radius(np, P)))
    else:
        v = mvee_axes(np, P)
        if v > 1e-4: s.ensure("no larger than the smallest ellipsoid", bool(np.prod(hs) <= slack ** k * v))

def size_of_optimum(s, ell, k, power, name, inverse=False):
    """the half extents are those of the optimum"""
    if not s.sym: return
    from engine.alg import is_const
    hs = [h for h in ell.half_extents if not (is_const(h) and h == 0)]
    w = s.w.spectral[-1][0]
    r = s.c(1)
    for h, x in zip(hs, w): r = r * h ** power * (1 / x if inverse else x)
    s.ensure(name, s.And(len(hs) == k, s.eq(r, s.c(1))), weak=True)

CASES = [(3, 3), (3, 2), (3, 1), (2, 2), (2, 1), (1, 1)]
@contract("C22", "bounding ellipsoid of points", cases=[(d, k, sph) for d, k in CASES for sph in ("ellipsoid", "sphere")], covers=COV, samples=16)
def _(s, case):
    d, k, sph = case
    n, Z, X, c, Q = flat_points(s, d, k)
    if s.sym:
        mats = spectral_matrices(s)
        def hints(cs):
            if sph == "sphere": s.eq_cong(cs, mats_V(s).T)
        optimum(s, mats, hints=hints)
    ell = solver_errors(s, lambda: s.rg.mbe_of_points(X, **option(sph), **({} if s.sym else dict(solver="CLARABEL"))))
    if ell is None:            # any solver copes with these points, in the same subspace
        X = s.np.vstack((Q[:, :k].T, -Q[:, :k].T)) + c
        nice = solver_errors(s, lambda: s.rg.mbe_of_points(X, **option(sph), solver="CLARABEL"))
        s.ensure("regular points have a bounding ellipsoid", nice is not None)
        if nice is not None: s.ensure("contains regular points", bool(all(member(s, nice, x) for x in X)))
        return
    rotation_ok(s, ell)
    if s.sym: s.ensure("contains every point", s.forall_row(X, lambda x: member(s, ell, x)))
    else: s.ensure("contains every point", bool(all(member(s, ell, x) for x in X)))
    if sph == "sphere": s.ensure("is a sphere", is_sphere(s, ell, k))
    no_larger(s, ell, Z, k, sph, 1.03); size_of_optimum(s, ell, k, 1, "not larger than the optimum")

def mats_V(s): return s.w.spectral[-1][1]

# ---------------------------------------------------------------- ellipsoids
def norm2(v): return sh.norm2(v)

def psd_at(s, cs, v):
    """v' M v >= 0 for the positive semidefinite matrices of the constraints"""
    for ax, M in s.psd_mats(cs):
        if M.a.shape[0] == len(v): s.under(ax, lambda: s.psd_at(M, s.arr(v)))

def ellipsoid_of(s, c, R, h): return s.rg.Ellipsoid(h, rotation=R, center=c)

@contract("C22", "bounding ellipsoid of ellipsoids", cases=[(d, sph) for d in (3, 2, 1) for sph in ("ellipsoid", "sphere")], covers=[E + "mbe_of_ellipsoids", E + "_mbee_con_mat", E + "Ellipsoid.from_shape_matrix"], samples=16)
def _(s, case):
    d, sph = case
    n = s.count("n"); C = s.many("c", n, (d,)); R = s.many_rot("R", n, d); H = s.many("h", n, (d,), sign="pos")
    big = lambda h: s.And(*[s.And(s.lt(s.q(1, 10**8), x), s.lt(x, s.c(10**8))) for x in h])
    s.assume(s.forall_row(H, big))
    Es = s.each(lambda c, r, h: ellipsoid_of(s, c, r, h), C, R, H)
    if s.sym:
        y = s.vec("y", d); s.assume(s.le(norm2(y), s.c(1)))            # unit ball
        mats = spectral_matrices(s, power=2)
        row = [s.seq_item(X) for X in (C, R, H)]
        x = row[0] + row[1] @ (row[2] * y)
        def hints(cs):
            S = mats[0]; vs = s.new_vars(0)
            dv = [v for v in vs if v.v.a.shape == (d,) and not v.v.sym()]; ts = [v for v in vs if v.v.sym()]
            for v in dv:
                z = s.np.linalg.solve(S, v.v)
                psd_at(s, cs, list(x) + [s.c(1)] + list(z))
            for t in ts: s.under(C.ax[0], lambda: s.rule_mul((s.seq_item(t.v), 1 - norm2(y))))
            if sph == "sphere": s.eq_cong(cs, mats_V(s).T)
        optimum(s, mats, hints=hints)
    ell = solver_errors(s, lambda: s.rg.shape.ellipsoid.mbe_of_ellipsoids(Es, **option(sph), **({} if s.sym else dict(solver="CLARABEL"))))
    if ell is None: return
    rotation_ok(s, ell)
    if s.sym: s.ensure("contains every ellipsoid", member(s, ell, x))
    else:
        s.tol = 1e3
        for k in range(8):
            u = s.np.array(s._get(f"u{k}", lambda: s.rs.normal(size=d))); u = u / s.np.linalg.norm(u)
            s.ensure("contains every ellipsoid", bool(all(member(s, ell, c + r @ (h * u)) for c, r, h in zip(C, R, H))))
    if not s.sym: no_larger(s, ell, around(s, C, R, H), d, sph, 1.1)
    size_of_optimum(s, ell, d, 2, "not larger than the optimum")
    if sph == "sphere": s.ensure("is a sphere", is_sphere(s, ell, d))

def around(s, C, R, H):
    np = s.np; d = C.shape[1]; U = s.rs.normal(size=(300, d)); U = np.vstack((U, np.eye(d), -np.eye(d))); U = U / np.linalg.norm(U, axis=1)[:, None]
    return np.vstack([c + (U * h) @ r.T for c, r, h in zip(C, R, H)])

@contract("C22", "containment of an ellipsoid", cases=[3, 2, 1], covers=[E + "Ellipsoid.contains_ellipsoid"], samples=60)
def _(s, d):
    A = sh.ellipsoid(s, "1", (1,) * d); B = sh.ellipsoid(s, "2", (1,) * d)
    if s.sym:
        y = s.vec("y", d); s.assume(s.le(norm2(y), s.c(1))); x = B.c + B.R @ (B.h * y)
        def hints(cs):
            ts = [v for v in s.new_vars(0) if v.v.a.size == 1]
            psd_at(s, cs, list(x) + [s.c(1)])
            for t in ts: s.rule_mul((t.v.a.flat[0], 1 - norm2(y)))
        optimum(s, status=s.real("feasible") > 0, hints=hints)
        r = A.obj.contains_ellipsoid(B.obj)
        s.ensure("every point is contained", member(s, A.obj, x), hyps=[r])
        return
    if s.int("related", lo=0, hi=1):      # mostly a scaled copy
        k = s._get("scale", lambda: s.rs.choice([s.rs.uniform(0.2, 1.0), s.rs.uniform(0.85, 1.1), s.rs.uniform(1, 3)])); off = s.vec("off", d); off = off * (s._get("away", lambda: s.rs.choice([0.0, 0.3, 0.6, 0.96]) * max(0.05, 1 - k)) / max(1e-9, s.np.linalg.norm(off))); T = s.rg.Ellipsoid(A.h * k, rotation=A.R, center=A.c + A.R @ (A.h * off))
    else: T = B.obj
    r = solver_errors(s, lambda: A.obj.contains_ellipsoid(T, solver="CLARABEL"))
    if r is None: return
    np = s.np; s.ensure("a boolean", isinstance(r, (bool, np.bool_)))
    if T is not B.obj and k + np.linalg.norm(off) < 0.99: s.ensure("what is well inside is reported", bool(r))
    if r:
        for k in range(40):
            u = np.array(s._get(f"u{k}", lambda: s.rs.normal(size=d))); u = u / np.linalg.norm(u)
            s.ensure("every point is contained", member(s, A.obj, T.center + T.rotation @ (T.half_extents * u)))

@contract("C22", "bounding ellipsoid of a capsule", cases=[(k, sph) for k in ("capsule11", "capsule01") for sph in ("ellipsoid", "sphere")], covers=["rigeo.shape.capsule.Capsule.mbe", E + "mbe_of_ellipsoids", E + "_mbee_con_mat"], samples=20)
def _(s, case):
    kind, sph = case
    S = sh.make(s, kind)
    kw = option(sph)
    hl = s.c(0) if S.hl is None else S.hl; r = S.r
    ez = s.arr([s.c(0), s.c(0), s.c(1)])
    if s.sym:
        s.assume(s.And(s.lt(r, s.c(10**8)), s.lt(hl, s.c(10**8))))
        mats = spectral_matrices(s, power=2)
        v = s.vec("v"); s.assume(s.le(norm2(v), s.c(1))); th = s.nneg("th"); s.assume(s.le(th, s.c(1)))
        ends = [S.world(k * hl * ez + r * v) for k in (1, -1)]
        p = th * ends[0] + (1 - th) * ends[1]                 # the points of a capsule
        def hints(cs):
            vs = s.new_vars(0)
            if sph == "sphere": s.eq_cong(cs, mats_V(s).T)
            for x in ends:
                for d in [w for w in vs if w.v.a.shape == (3,)]:
                    z = s.np.linalg.solve(mats[0], d.v)
                    psd_at(s, cs, list(x) + [s.c(1)] + list(z))
                for t in [w for w in vs if w.v.a.size <= 2]:
                    for e in t.v.a.flat: s.rule_mul((e, 1 - norm2(v)))
        optimum(s, mats, hints=hints)
        ell = S.obj.mbe(**kw)
        M = ell.rotation @ s.np.diag(s.arr([1 / (h * h) for h in ell.half_extents])) @ ell.rotation.T
        q = lambda x: (x - ell.center) @ M @ (x - ell.center)
        for k, x in enumerate(ends): s.lemma(f"contains cap {k}", member(s, ell, x))
        # convexity: q(th a + (1 - th) b) = th q(a) + (1 - th) q(b) - th (1 - th) (a - b)' M (a - b)
        g = ell.rotation.T @ (ends[0] - ends[1])
        for h, x in zip(ell.half_extents, g): s.rule_square(x / h); s.rule_mul((th * (1 - th), x * x / (h * h)))
        s.rule_mul((th, 1 - th), (th, 1 - q(ends[0])), (1 - th, 1 - q(ends[1])))
        s.ensure("contains the capsule", member(s, ell, p))
    else:
        ell = solver_errors(s, lambda: S.obj.mbe(solver="CLARABEL", **kw))
        if ell is None: return
        for k in range(20): s.ensure("contains the capsule", member(s, ell, S.world(sh.local_sample(s, S, f"q{k}"))))
        np = s.np; r3 = np.array([r] * 3); no_larger(s, ell, around(s, np.array([S.c + S.R @ (k * hl * ez) for k in (1, -1)]), [np.eye(3)] * 2, [r3] * 2), 3, sph, 1.1)
    size_of_optimum(s, ell, 3, 2, "not larger than the optimum")
    rotation_ok(s, ell)
    if sph == "sphere": s.ensure("is a sphere", is_sphere(s, ell, 3))

# ---------------------------------------------------------------- inscribed ellipsoids
def touches(s, ell, A, b):
    np = s.np; nz = np.linalg.norm(A, axis=1) > 1e-9
    slack = (b - A @ ell.center - np.linalg.norm((A @ ell.rotation) * ell.half_extents, axis=1))[nz] / np.linalg.norm(A, axis=1)[nz]
    s.ensure("touches a face", bool(np.min(slack) <= 1e-2 * (0.1 + ell.half_extents.max())))

def cauchy(s, a, y, r):
    """|y| <= 1 and |a| <= r => a.y <= r (Cauchy-Schwarz)"""
    s.assume(s.implies(s.And(s.le(norm2(y), s.c(1)), s.le(s.c(0), r), s.le(norm2(a), r * r)), s.le(a @ y, r)))

@contract("C22", "inscribed ellipsoid of half spaces", cases=[(d, sph) for d in (3, 2, 1) for sph in ("ellipsoid", "sphere")], covers=[E + "mie_inequality_form", E + "Ellipsoid.from_shape_matrix"], samples=16)
def _(s, case):
    d, sph = case
    kw = option(sph)
    n = s.count("n")
    if s.sym:
        A = s.many("A", n, (d,)); b = s.many("b", n)
        mats = spectral_matrices(s)
        y = s.vec("y", d); s.assume(s.le(norm2(y), s.c(1)))
        a = s.seq_item(A); be = s.seq_item(b)
        def hints(cs):
            B = mats[0]
            V = mats_V(s); w = s.w.spectral[-1][0]
            u = V.T @ a; e = s.arr([w[i] * u[i] for i in range(d)])      # B a in the eigenbasis
            s.under(A.ax[0], lambda: cauchy(s, e, y, s.np.linalg.norm(B @ a)))
            if sph == "sphere": s.eq_cong(cs, V.T)
        optimum(s, mats, hints=hints)
        ell = s.rg.shape.ellipsoid.mie_inequality_form(A, b, **kw)
        x = ell.center + ell.rotation @ (ell.half_extents * y)
        s.ensure("inside every face", s.le(a @ x, be))
    else:
        np = s.np; m = n + d + 1
        A = s.many("A", m, (d,)); A = A / np.linalg.norm(A, axis=1)[:, None]; b = s.many("b", m, sign="pos"); c = s.vec("c", d)
        A = np.vstack((A, np.eye(d), -np.eye(d))); b = np.concatenate((b, 3 * np.ones(2 * d))) + A @ c
        ell = solver_errors(s, lambda: s.rg.shape.ellipsoid.mie_inequality_form(A, b, solver="CLARABEL", **kw))
        if ell is None: return
        for a, be in zip(A, b):
            top = a @ ell.center + np.linalg.norm(ell.half_extents * (ell.rotation.T @ a))
            s.ensure("inside every face", bool(top <= be + 1e-4 * (1 + abs(be))))
        touches(s, ell, A, b)
        if sph != "sphere": stationary(s, ell, A, b, np.eye(d))
    size_of_optimum(s, ell, d, 1, "not smaller than the optimum", inverse=True)
    rotation_ok(s, ell)
    if sph == "sphere": s.ensure("is a sphere", is_sphere(s, ell, d))

def stationary(s, ell, A, b, R):
    """no ellipsoid nearby that satisfies the linearised face conditions has a larger volume (the problem is concave, so the optimum passes);
    R: orthonormal basis of the plane"""
    from scipy.optimize import linprog
    np = s.np; k = R.shape[1]; G = R.T @ ell.rotation
    B = G @ np.diag(ell.half_extents) @ G.T; a = A @ R; ix = [(i, j) for i in range(k) for j in range(i, k)]
    if ell.half_extents.max() > 50 or np.linalg.eigvalsh(B)[0] < 1e-2: return
    W = np.linalg.inv(B); up = lambda M: np.array([M[i, j] if i == j else M[i, j] + M[j, i] for i, j in ix])
    rows, rhs = [], []
    for u, be, full in zip(a, b, A):
        n = np.linalg.norm(B @ u)
        if n < 1e-9: continue
        rows.append(np.concatenate((up(np.outer(B @ u, u) / n), u))); rhs.append(be - full @ ell.center - n)
    d = 0.1 * np.linalg.eigvalsh(B)[0]
    r = linprog(-np.concatenate((up(W), np.zeros(k))), A_ub=np.array(rows), b_ub=np.maximum(rhs, 0), bounds=[(-d, d)] * (len(ix) + k))
    if r.status == 0: s.ensure("as large as possible", bool(-r.fun <= 0.03))

# ---------------------------------------------------------------- polyhedra, possibly flat
def flat_polyhedron(s, d, k):
    n, Z, X, c, Q = flat_points(s, d, k)
    if not s.sym: return s.rg.ConvexPolyhedron.from_vertices(X), n, Z, X, c, Q
    nf = s.count("nf"); A = s.many("A", nf, (d,)); b = s.many("b", nf)
    s.assume(s.forall_row(X, lambda v: s.le(A @ v, b)))
    return s.rg.ConvexPolyhedron(face_form=s.rg.FaceForm(A, b), span_form=s.rg.SpanForm(X)), n, Z, X, c, Q

@contract("C22", "bounding ellipsoid of a polyhedron", cases=[(d, k, sph) for d, k in CASES if d == 3 or k == d for sph in ("ellipsoid", "sphere")], covers=["rigeo.shape.poly.ConvexPolyhedron.mbe", E + "mbe_of_points"], samples=12)
def _(s, case):
    d, k, sph = case
    P, n, Z, X, c, Q = flat_polyhedron(s, d, k)
    if s.sym:
        mats = spectral_matrices(s)
        def hints(cs):
            if sph == "sphere": s.eq_cong(cs, mats_V(s).T)
        optimum(s, mats, hints=hints)
    ell = solver_errors(s, lambda: P.mbe(**option(sph), **({} if s.sym else dict(solver="CLARABEL"))))
    if ell is None: return
    rotation_ok(s, ell)
    if s.sym: s.ensure("contains every vertex", s.forall_row(X, lambda x: member(s, ell, x)))
    else: s.ensure("contains every vertex", bool(all(member(s, ell, x) for x in X)))
    if sph == "sphere": s.ensure("is a sphere", is_sphere(s, ell, k))

@contract("C22", "inscribed ellipsoid of a polyhedron", cases=[(d, k, sph) for d, k in CASES if d == 3 or k == d for sph in ("ellipsoid", "sphere")],
          covers=["rigeo.shape.poly.ConvexPolyhedron.mie", E + "mie_inequality_form"], stubs=["rigeo.polydd.SpanForm.to_face_form"], samples=12)
def _(s, case):
    d, k, sph = case
    P, n, Z, X, c, Q = flat_polyhedron(s, d, k)
    if s.sym:
        mats = spectral_matrices(s)
        y = s.vec("y", k); s.assume(s.le(norm2(y), s.c(1)))
        def hints(cs):
            V = mats_V(s); w = s.w.spectral[-1][0]
            for h in s.w.hulls:
                def f():
                    a = s.seq_item(h.A); u = V.T @ a
                    cauchy(s, s.arr([w[i] * u[i] for i in range(k)]), y, s.np.linalg.norm(mats[0] @ a))
                s.under(h.A.ax[0], f)
            if sph == "sphere": s.eq_cong(cs, V.T)
        optimum(s, mats, hints=hints)
    ell = solver_errors(s, lambda: P.mie(**option(sph), **({} if s.sym else dict(solver="CLARABEL"))))
    if ell is None: return
    rotation_ok(s, ell)
    if s.sym:
        x = ell.center + ell.rotation @ (ell.half_extents * s.arr(list(y) + [s.c(0)] * (d - k)))
        from engine.alg import is_const
        s.ensure("of the polyhedron's dimension", all(is_const(h) and h == 0 for h in ell.half_extents[k:]))
        h = s.w.hulls[-1]
        R = Q[:, :k]; xi = R.T @ (x - X[0])
        s.lemma("inside the plane of the polyhedron", s.eq(x, X[0] + R @ xi))
        s.lemma("inside every projected face", h.member(xi))
        A, b = P.A, P.b
        s.hull_cuts(xi, A @ R, b - A @ X[0])
        s.ensure("inside every face", s.le(A @ x, b))
    else:
        np = s.np
        s.assume(np.all(ell.half_extents[:k] < 50))
        for a, be in zip(P.A, P.b):
            top = a @ ell.center + np.linalg.norm(ell.half_extents * (ell.rotation.T @ a))
            s.ensure("inside every face", bool(top <= be + 1e-4 * (1 + abs(be) + np.abs(a).max())))
        R = Q[:, :k]; AR = P.A @ R; far = np.linalg.norm(AR, axis=1) > 1e-6          # the faces of a flat polyhedron within its plane
        touches(s, ell, P.A[far], P.b[far])
        if sph != "sphere": stationary(s, ell, P.A[far], P.b[far], R)
    size_of_optimum(s, ell, k, 1, "not smaller than the optimum", inverse=True)
    if sph == "sphere": s.ensure("is a sphere", is_sphere(s, ell, k))

# ---------------------------------------------------------------- affine images of the ball
@contract("C22", "ellipsoid from an affine map", cases=[3, 2, 1], covers=[E + "Ellipsoid.from_affine", E + "Ellipsoid.from_shape_matrix"])
def _(s, d):
    U = s.orth("U", d); V = s.orth("V", d); w = [s.pos(f"w{i}") for i in range(d)]; b = s.vec("b", d); x = s.vec("x", d)
    for e in w: s.assume(s.And(s.lt(s.q(1, 10**8), e), s.lt(e, s.c(10**8))))
    D = s.np.diag(s.arr(w)); A = U @ D @ V.T
    if s.sym:
        from engine import np_shim
        np_shim.register_spectral([e * e for e in w], V); np_shim.register_svd(U, w, V)
    else: s.assume(min(w) > 1e-2 * max(w))
    ell = s.rg.Ellipsoid.from_affine(A, b)
    rotation_ok(s, ell)
    # the quadratic forms agree: |A x + b|^2 = sum_i (R' (x - c))_i^2 / h_i^2
    y = ell.rotation.T @ (x - ell.center)
    s.ensure("the set of the points that the map sends into the unit ball", s.eq(sum((e / h) ** 2 for e, h in zip(y, ell.half_extents)), norm2(A @ x + b)))
