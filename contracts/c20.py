"""C20: vertex and face descriptions of a polyhedron denote one set.

Sets are compared through their points x (face forms) and through the half spaces a.y <= beta that contain them (vertices and
rays): closed convex sets with the same containing half spaces are equal.  cdd is assumed to convert correctly between the two
descriptions (`Cdd` below states the assumed contract)."""
import itertools
from engine.ctx import contract
from . import shapes as sh

def dot(s, a, v): return a @ v

def member(s, F, x):
    """x is in the face form F"""
    return s.forall_rows(lambda a, b: s.le(dot(s, a, x), b), F.A, F.b)

def bounds(s, S, a, beta):
    """the half space a.y <= beta contains the span form S (rays only: a cone from the origin)"""
    out = []
    if S.vertices is not None: out.append(s.forall_row(S.vertices, lambda v: s.le(dot(s, a, v), beta)))
    else: out.append(s.le(s.c(0), beta))
    if S.rays is not None: out.append(s.forall_row(S.rays, lambda r: s.le(dot(s, a, r), s.c(0))))
    return s.And(*out)

# ---------------------------------------------------------------- cdd matrices
def rows_of(s, M):
    """(rows, marks of the equalities / lines) of a cdd matrix"""
    if s.sym: return M.rows, M.L
    import numpy as np
    return np.array([M[i] for i in range(M.row_size)]).reshape(M.row_size, M.col_size), np.array([1 if i in M.lin_set else 0 for i in range(M.row_size)])

def lin(s, l): return s.le(s.c(1), l) if s.sym else bool(l)

def den_H(s, M, x):
    """x satisfies the rows b - A x >= 0 (= 0 for equalities)"""
    R, L = rows_of(s, M)
    def f(r, l):
        e = r[0] + dot(s, r[1:], x)
        return s.And(s.le(s.c(0), e), s.implies(lin(s, l), s.le(e, s.c(0))))
    return s.forall_rows(f, R, L)

def den_V(s, M, a, beta):
    """the half space contains the generators: points [1 v], rays [0 v], lines (marked)"""
    R, L = rows_of(s, M)
    def point(t): return s.lt(s.c(0), t) if s.sym else bool(t > 0.5)
    def f(r, l):
        e = dot(s, a, r[1:]); t = r[0]
        return s.And(s.implies(s.eq(t, s.c(1)) if s.sym else point(t), s.le(e, beta)), s.implies(s.Not(point(t)), s.le(e, s.c(0))),
                     s.implies(lin(s, l), s.le(s.c(0), e)))
    cone = s.forall_row(R, lambda r: s.Not(point(r[0])))
    return s.And(s.forall_rows(f, R, L), s.implies(cone, s.le(s.c(0), beta)))

class Cdd:
    """the assumed contract of cdd: `canonicalize` keeps the set, `get_inequalities` / `get_generators` describe the same set"""
    def __init__(self, s, points=(), halves=(), bounded=False):
        self.s = s; self.points = list(points); self.halves = list(halves); self.bounded = bounded; self.rel = []; self.canon = []
        if s.sym: s.w.cdd_hook = self.hook; s.w.cat_writes = True
    def fresh(self, d, rep):
        """a matrix cdd may return"""
        from engine import alg, logic, arr, shims, stubs
        s = self.s; W = s.w
        n = alg.var(W.fresh("rows"), sort="I", sign="nneg")
        M = shims.CddMatrix(stubs.batch(W, "row", n, (d + 1,)))
        fam = logic.Family(W.fresh("lin"), sort="I", sign="nneg")
        M.L.a[0] = fam.at([M.L.ax[0].tok]); M.rep_type = rep
        W.add(s.forall_row(M.L, lambda l: s.Or(s.eq(l, 0), s.eq(l, 1))))
        if rep == shims.RepType.GENERATOR:
            W.add(s.forall_rows(lambda r, l: s.And(s.Or(s.eq(r[0], 0), s.eq(r[0], 1)), s.implies(lin(s, l), s.eq(r[0], 0))), M.rows, M.L))
            if self.bounded: W.add(s.forall_row(M.rows, lambda r: s.eq(r[0], 1)))
        return M
    def hook(self, kind, M):
        from engine import shims
        from engine.alg import Unsupported
        s = self.s; W = s.w; H = shims.RepType.INEQUALITY; V = shims.RepType.GENERATOR
        d = M.col_size - 1
        if kind == "canonicalize":
            if M.rep_type not in (H, V): raise Unsupported("canonicalize of an unspecified representation")
            old = M.copy(); old.rep_type = M.rep_type
            N = self.fresh(d, M.rep_type)
            M.rows = N.rows; M.L = N.L
            N = M.copy()
            if M.rep_type == V:
                W.add(s.iff(s.eq(old.row_size, 0), s.eq(N.row_size, 0)))
                for t in (0, 1):      # points only / rays only (bounded sets and cones) stay so
                    W.add(s.implies(s.forall_row(old.rows, lambda r: s.eq(r[0], t)), s.forall_row(N.rows, lambda r: s.eq(r[0], t))))
            self.canon.append((old, N)); self.use()
            return None
        if kind == "inequalities" and M.rep_type == V:
            N = self.fresh(d, H); v, h = M, N
        elif kind == "generators" and M.rep_type == H:
            N = self.fresh(d, V); v, h = N, M
        elif kind in ("inequalities", "generators"): return M.copy()
        else: raise Unsupported("cdd " + kind)
        v = v.copy(); h = h.copy()
        # generators lie in the polyhedron
        def pair(hr, hl, vr, vl):
            e = hr[0] * vr[0] + dot(s, hr[1:], vr[1:])
            return s.And(s.le(0, e), s.implies(s.Or(lin(s, hl), lin(s, vl)), s.le(e, 0)))
        W.add(s.forall_rows(lambda hr, hl: s.forall_rows(lambda vr, vl: pair(hr, hl, vr, vl), v.rows, v.L), h.rows, h.L))
        cone = s.forall_row(v.rows, lambda r: s.eq(r[0], 0))
        W.add(s.implies(s.And(cone, s.lt(0, v.row_size)), s.forall_rows(lambda hr, hl: s.And(s.le(0, hr[0]), s.implies(lin(s, hl), s.le(hr[0], 0))), h.rows, h.L)))
        self.rel.append((v, h, kind)); self.use()
        return N
    def use(self):
        for x in self.points: self.at(x)
        for a, b in self.halves: self.half(a, b)
    def at(self, x):
        """instances of the assumptions at a point"""
        s = self.s
        if not s.sym: return
        for o, n in self.canon:
            if o.rep_type == 1: s.w.add(s.iff(den_H(s, o, x), den_H(s, n, x)))
        for v, h, kind in self.rel:
            s.w.add(s.implies(den_H(s, h, x), s.lt(0, v.row_size)))
            for a, b in self.halves: s.w.add(s.implies(s.And(den_H(s, h, x), den_V(s, v, a, b)), s.le(dot(s, a, x), b)))
    def half(self, a, b):
        s = self.s
        if not s.sym: return
        for o, n in self.canon:
            if o.rep_type == 2: s.w.add(s.iff(den_V(s, o, a, b), den_V(s, n, a, b)))
        for v, h, kind in self.rel:
            for x in self.points: s.w.add(s.implies(s.And(den_H(s, h, x), den_V(s, v, a, b)), s.le(dot(s, a, x), b)))
    def halves_of(self, F, x, k=None):
        """the assumptions (of the k-th conversion) for the half spaces that make up a face form"""
        s = self.s
        if not s.sym: return
        for v, h, kind in self.rel if k is None else self.rel[k:k + 1]:
            s.w.add(s.forall_rows(lambda a, b: s.implies(s.And(den_H(s, h, x), den_V(s, v, a, b)), s.le(dot(s, a, x), b)), F.A, F.b))

# ---------------------------------------------------------------- inputs
def ints(s, name, n, shape=(), lo=-2, hi=2):
    """a batch of n rows (small integers in concrete runs, where cdd works in floating point)"""
    if s.sym: return s.many(name, n, shape)
    import numpy as np
    X = np.array(s._get(name, lambda: s.rs.integers(lo, hi + 1, size=(n,) + tuple(shape)).astype(float)))
    if X.ndim == 2 and len(X) and name[0] != "v": X[(X == 0).all(axis=1), 0] = 1.0      # cddlib does not terminate on all-zero rows
    return X

def vec(s, name, d):
    if s.sym: return s.vec(name, d)
    import numpy as np
    return np.array(s._get(name, lambda: s.rs.integers(-4, 5, size=d) / float(s.rs.choice([1, 2, 4]))))

def num(s, name):
    if s.sym: return s.real(name)
    return float(s._get(name, lambda: float(s.rs.integers(-6, 13)) / 2))

def faces(s, tag, d, eqs=False, box=False):
    """a face form (of a bounded set if `box`)"""
    n = s.count("n" + tag, lo=1)
    A = ints(s, "A" + tag, n, (d,)); b = ints(s, "b" + tag, n, (), -1, 4)
    if not eqs: return s.rg.FaceForm(A, b) if hasattr(s.rg, "FaceForm") else pd(s).FaceForm(A, b)
    m = s.count("m" + tag, lo=1)
    return pd(s).FaceForm(A, b, ints(s, "E" + tag, m, (d,)), ints(s, "e" + tag, m))

def pd(s):
    if s.sym: return s.pkg.load("rigeo.polydd")
    import rigeo.polydd
    return rigeo.polydd

KINDS = ["v", "r", "vr", "s", "vs", "rs", "vrs"]
def spans(s, tag, d, kind):
    """(vertices, rays, span) of the given kind"""
    g = lambda k: ints(s, k + tag, s.count("n" + k + tag, lo=1), (d,)) if k in kind else None
    return g("v"), g("r"), g("s")

D = [1, 2, 3]
AX = ["rigeo.polydd.FaceForm.*", "rigeo.polydd.SpanForm.*"]
SC = "ambient dimension 1, 2, 3; any numbers of rows"

# ---------------------------------------------------------------- face forms
@contract("C20", "FaceForm: inequalities and equalities", cases=[(d, e) for d in D for e in (0, 1)], covers=["rigeo.polydd.FaceForm.__init__", "rigeo.polydd.FaceForm.nf", "rigeo.polydd.FaceForm.dim"], scope=SC)
def _(s, case):
    d, e = case
    x = vec(s, "x", d)
    n = s.count("n", lo=1); A = ints(s, "A", n, (d,)); b = ints(s, "b", n)
    if e:
        m = s.count("m", lo=1); E = ints(s, "E", m, (d,)); g = ints(s, "e", m)
        F = pd(s).FaceForm(A, b, E, g)
        spec = s.And(s.forall_rows(lambda a, be: s.le(dot(s, a, x), be), A, b), s.forall_rows(lambda a, be: s.eq(dot(s, a, x), be), E, g))
    else:
        F = pd(s).FaceForm(A, b)
        spec = s.forall_rows(lambda a, be: s.le(dot(s, a, x), be), A, b)
        s.ensure("one face per row", s.eq(F.nf, n))
    s.ensure("points of the face form", s.iff(member(s, F, x), spec))
    s.ensure("dimension", s.truth(F.dim == d))
    s.ensure("as many normals as offsets", s.And(s.eq(F.A.shape[0], F.b.shape[0]), s.eq(F.nf, F.A.shape[0])))

@contract("C20", "FaceForm.stack is the intersection", cases=[(d, k) for d in D for k in range(3)], covers=["rigeo.polydd.FaceForm.stack"], scope=SC)
def _(s, case):
    d, k = case
    x = vec(s, "x", d)
    P = faces(s, "1", d, eqs=k >= 1); Q = faces(s, "2", d, eqs=k >= 2)
    snap = s.snapshot(P, Q)
    F = P.stack(Q)
    s.ensure("the points in both", s.iff(member(s, F, x), s.And(member(s, P, x), member(s, Q, x))))
    s.ensure("as many normals as offsets", s.eq(F.A.shape[0], F.b.shape[0]))

@contract("C20", "FaceForm to cdd", cases=[(d, k) for d in D for k in range(2)], covers=["rigeo.polydd.FaceForm.to_cdd_matrix"], scope=SC)
def _(s, case):
    d, k = case
    x = vec(s, "x", d)
    P = faces(s, "1", d, eqs=k)
    M = P.to_cdd_matrix()
    s.ensure("same points", s.iff(den_H(s, M, x), member(s, P, x)))
    s.ensure("an H-representation", s.truth(M.rep_type == cdd(s).RepType.INEQUALITY))

def cdd(s):
    if s.sym:
        from engine import shims
        return shims.cdd
    import cdd as c
    return c

def any_matrix(s, C, d, rep):
    """any matrix cdd may return"""
    if s.sym: return C.fresh(d, {"H": cdd(s).RepType.INEQUALITY, "V": cdd(s).RepType.GENERATOR}[rep])
    import numpy as np
    n = s.count("rows", lo=0)
    R = ints(s, "R", n, (d + 1,)); L = np.array(s._get("L", lambda: s.rs.integers(0, 2, size=n)))[:n]
    if rep == "V":
        T = np.array(s._get("T", lambda: s.rs.integers(0, 2, size=n)))[:n]
        R[:, 0] = T; L = L * (1 - T)
    if s._get("plain", lambda: int(s.rs.integers(0, 3))) == 0: L = L * 0
    M = cdd(s).Matrix(R) if n else cdd(s).Matrix(np.ones((1, d + 1)))
    if not n: M = drop_rows(s, d)
    else: M.lin_set = frozenset(int(i) for i in np.flatnonzero(L))
    M.rep_type = {"H": cdd(s).RepType.INEQUALITY, "V": cdd(s).RepType.GENERATOR}[rep]
    return M

def drop_rows(s, d):
    """a matrix without rows: the redundant inequality 1 >= 0 is removed"""
    import numpy as np
    M = cdd(s).Matrix(np.eye(1, d + 1)); M.rep_type = cdd(s).RepType.INEQUALITY
    M.canonicalize()
    return M

@contract("C20", "FaceForm from cdd", cases=D, covers=["rigeo.polydd.FaceForm.from_cdd_matrix"], scope=SC)
def _(s, d):
    x = vec(s, "x", d)
    M = any_matrix(s, Cdd(s), d, "H")
    F = pd(s).FaceForm.from_cdd_matrix(M)
    s.ensure("same points, equalities included", s.iff(member(s, F, x), den_H(s, M, x)))
    s.ensure("dimension", s.truth(F.dim == d))
    s.ensure("as many normals as offsets", s.eq(F.A.shape[0], F.b.shape[0]))

@contract("C20", "FaceForm.canonical keeps the set", cases=[(d, k) for d in D for k in range(2)], covers=["rigeo.polydd.FaceForm.canonical"], scope=SC)
def _(s, case):
    d, k = case
    x = vec(s, "x", d)
    C = Cdd(s, [x])
    P = faces(s, "1", d, eqs=k)
    s.ensure("same points", s.iff(member(s, P.canonical(), x), member(s, P, x)))

@contract("C20", "FaceForm.transform", cases=[(d, k, o) for d in D for k in range(2) for o in ("rt", "r", "t", "")], covers=["rigeo.polydd.FaceForm.transform"], scope=SC)
def _(s, case):
    d, k, o = case
    x = vec(s, "x", d)
    P = faces(s, "1", d, eqs=k)
    R = s.orth("R", d); t = vec(s, "t", d); y = x; kw = {}
    if "r" in o: y = R @ y; kw["rotation"] = R
    if "t" in o: y = y + t; kw["translation"] = t
    s.ensure("moved points", s.iff(member(s, P.transform(**kw), y), member(s, P, x)))

# ---------------------------------------------------------------- span forms
@contract("C20", "SpanForm: vertices, rays and lines", cases=[(d, k) for d in D for k in KINDS], covers=["rigeo.polydd.SpanForm.__init__", "rigeo.polydd.SpanForm.nv", "rigeo.polydd.SpanForm.nr", "rigeo.polydd.SpanForm.dim", "rigeo.polydd.SpanForm.bounded", "rigeo.polydd.SpanForm.is_cone"], scope=SC)
def _(s, case):
    d, k = case
    a = vec(s, "a", d); beta = num(s, "beta")
    V, R, L = spans(s, "", d, k)
    S = pd(s).SpanForm(V, R, L)
    spec = [s.forall_row(V, lambda v: s.le(dot(s, a, v), beta)) if V is not None else s.le(s.c(0), beta)]
    if R is not None: spec.append(s.forall_row(R, lambda v: s.le(dot(s, a, v), s.c(0))))
    if L is not None: spec.append(s.forall_row(L, lambda v: s.eq(dot(s, a, v), s.c(0))))
    s.ensure("containing half spaces", s.iff(bounds(s, S, a, beta), s.And(*spec)))
    s.ensure("number of vertices", s.eq(S.nv, V.shape[0] if V is not None else 0))
    s.ensure("number of rays", s.eq(S.nr, S.rays.shape[0] if S.rays is not None else 0))
    s.ensure("dimension", s.truth(S.dim == d))
    s.ensure("bounded", s.truth(bool(S.bounded()) == (k == "v")))
    s.ensure("cone", s.truth(bool(S.is_cone()) == ("v" not in k)))

@contract("C20", "SpanForm to cdd", cases=[(d, k) for d in D for k in KINDS], covers=["rigeo.polydd.SpanForm.to_cdd_matrix"], scope=SC)
def _(s, case):
    d, k = case
    a = vec(s, "a", d); beta = num(s, "beta")
    C = Cdd(s)
    S = pd(s).SpanForm(*spans(s, "", d, k))
    M = S.to_cdd_matrix()
    s.ensure("same set", s.iff(den_V(s, M, a, beta), bounds(s, S, a, beta)))
    s.ensure("a V-representation", s.truth(M.rep_type == cdd(s).RepType.GENERATOR))

@contract("C20", "SpanForm from cdd", cases=D, covers=["rigeo.polydd.SpanForm.from_cdd_matrix"], scope=SC)
def _(s, d):
    a = vec(s, "a", d); beta = num(s, "beta")
    M = any_matrix(s, Cdd(s), d, "V")
    S = pd(s).SpanForm.from_cdd_matrix(M)
    if S is None: s.ensure("only the empty set is None", s.eq(M.row_size, 0)); return
    s.ensure("the empty set is None", s.lt(s.c(0), M.row_size) if s.sym else M.row_size > 0)
    s.ensure("same set, lines included", s.iff(bounds(s, S, a, beta), den_V(s, M, a, beta)))
    s.ensure("dimension", s.truth(S.dim == d))

@contract("C20", "SpanForm.canonical keeps the set", cases=[(d, k) for d in D for k in KINDS], covers=["rigeo.polydd.SpanForm.canonical"], scope=SC)
def _(s, case):
    d, k = case
    a = vec(s, "a", d); beta = num(s, "beta")
    C = Cdd(s, halves=[(a, beta)])
    S = pd(s).SpanForm(*spans(s, "", d, k))
    T = S.canonical()
    s.ensure("not empty", s.truth(T is not None))
    if T is not None: s.ensure("same set", s.iff(bounds(s, T, a, beta), bounds(s, S, a, beta)))

@contract("C20", "SpanForm.transform", cases=[(d, k, o) for d in D for k in ("v", "r", "vr", "vs") for o in ("rt", "r", "t", "")], covers=["rigeo.polydd.SpanForm.transform"], scope=SC)
def _(s, case):
    d, k, o = case
    a = vec(s, "a", d); beta = num(s, "beta")
    S = pd(s).SpanForm(*spans(s, "", d, k))
    R = s.orth("R", d); t = vec(s, "t", d); kw = {}
    a2, b2 = a, beta
    if "r" in o: kw["rotation"] = R; a2 = R @ a
    if "t" in o:
        kw["translation"] = t
        if "v" in k: b2 = beta + a2 @ t
    T = S.transform(**kw)
    s.ensure("same kinds of generators", s.truth((T.vertices is None) == (S.vertices is None) and (T.rays is None) == (S.rays is None)))
    s.ensure("moved set", s.iff(bounds(s, T, a2, b2), bounds(s, S, a, beta)))

# ---------------------------------------------------------------- conversions
def same_set(s, tag, C, S, F, x, a, beta):
    """the span form S and the face form F denote one set"""
    if S.vertices is not None:
        s.ensure(tag + "vertices satisfy the faces", s.forall_row(S.vertices, lambda v: member(s, F, v)), weak=False)
    else: s.ensure(tag + "the apex satisfies the faces", s.forall_row(F.b, lambda b: s.le(s.c(0), b)))
    if S.rays is not None:
        s.ensure(tag + "rays are directions of the faces", s.forall_row(S.rays, lambda r: s.forall_row(F.A, lambda f: s.le(dot(s, f, r), s.c(0)))))
    s.ensure(tag + "points within the faces are within every half space containing the generators", s.implies(s.And(member(s, F, x), bounds(s, S, a, beta)), s.le(dot(s, a, x), beta)))

KIN2 = [(d, k) for d in D for k in ("v", "r", "vr")] + [(1, "s"), (2, "vs")]
@contract("C20", "SpanForm.to_face_form", cases=KIN2, covers=["rigeo.polydd.SpanForm.to_face_form"], scope=SC)
def _(s, case):
    d, k = case
    x = vec(s, "x", d); a = vec(s, "a", d); beta = num(s, "beta")
    C = Cdd(s, [x], [(a, beta)])
    S = pd(s).SpanForm(*spans(s, "", d, k))
    F = S.to_face_form()
    s.ensure("dimension", s.truth(F.dim == d))
    same_set(s, "", C, S, F, x, a, beta)

@contract("C20", "FaceForm.to_span_form", cases=[(d, e) for d in D for e in (0, 1)], covers=["rigeo.polydd.FaceForm.to_span_form"], scope=SC)
def _(s, case):
    d, e = case
    x = vec(s, "x", d); a = vec(s, "a", d); beta = num(s, "beta")
    C = Cdd(s, [x], [(a, beta)])
    F = faces(s, "", d, eqs=e)
    S = F.to_span_form()
    if S is None:
        s.ensure("None only if empty", s.Not(member(s, F, x)))
        return
    s.ensure("dimension", s.truth(S.dim == d))
    same_set(s, "", C, S, F, x, a, beta)      # in particular the set has a point: a vertex, or the origin of a cone

@contract("C20", "faces to vertices and back", cases=[1], covers=["rigeo.polydd.FaceForm.to_span_form", "rigeo.polydd.SpanForm.to_face_form"], scope=SC)
def _(s, d):
    x = vec(s, "x", d)
    C = Cdd(s, [x])
    F = faces(s, "", d)
    S = F.to_span_form()
    if S is None: s.ensure("None only if empty", s.Not(member(s, F, x))); return
    G = S.to_face_form()
    C.halves_of(G, x, 0)
    s.ensure("no point is lost", s.implies(member(s, F, x), member(s, G, x)))
    C.halves_of(F, x, 1)
    s.ensure("no point is gained", s.implies(member(s, G, x), member(s, F, x)))

@contract("C20", "vertices to faces and back", cases=[(1, "v"), (1, "r"), (2, "v"), (1, "s")], covers=["rigeo.polydd.FaceForm.to_span_form", "rigeo.polydd.SpanForm.to_face_form"], scope=SC)
def _(s, case):
    d, k = case
    x = vec(s, "x", d); a = vec(s, "a", d); beta = num(s, "beta")
    C = Cdd(s, [x], [(a, beta)])
    S = pd(s).SpanForm(*spans(s, "", d, k))
    F = S.to_face_form()
    same_set(s, "there: ", C, S, F, x, a, beta)
    T = F.to_span_form()
    if T is None:
        # the set has a point, so this may not happen
        for y in [s.seq_item(S.vertices) if S.vertices is not None else s.zeros(d)]: C.at(y)
        s.unreachable("not empty"); return
    same_set(s, "back: ", C, T, F, x, a, beta)

# ---------------------------------------------------------------- convex hulls and polyhedra
@contract("C20", "convex_hull", cases=[(d, k) for d in D for k in (0, 1)], covers=["rigeo.polydd.convex_hull"], scope=SC)
def _(s, case):
    d, k = case
    a = vec(s, "a", d); beta = num(s, "beta")
    C = Cdd(s, halves=[(a, beta)])
    n = s.count("n", lo=1)
    P = ints(s, "v", n, (d,)) if k else s.arr([[s.real(f"p{i}") for i in range(d)]])
    V = s.rg.convex_hull(P)
    H = lambda X: s.forall_row(X, lambda v: s.le(dot(s, a, v), beta))
    s.ensure("has vertices", s.truth(V is not None))
    if V is None: return
    s.ensure("points of the same dimension", s.truth(V.ndim == 2 and V.shape[1] == d))
    s.ensure("same hull", s.iff(H(V), H(P)))

def absent(s, rows, row, kept):
    """the redundant row is not among the rows (up to scale), unless it was there for another reason"""
    np = s.np; u = lambda x: np.asarray(x, dtype=float) / max(1e-9, np.abs(x).max())
    return any(np.abs(u(r) - u(row)).max() < 1e-7 for r in kept) or not any(np.abs(u(r) - u(row)).max() < 1e-9 for r in rows)

@contract("C20", "nothing redundant is kept", cases=[(w, d) for w in ("canonical vertices", "convex hull", "pruned vertices", "canonical faces", "pruned faces") for d in D],
          covers=["rigeo.polydd.SpanForm.canonical", "rigeo.polydd.FaceForm.canonical", "rigeo.polydd.convex_hull", "rigeo.shape.poly.ConvexPolyhedron.from_vertices", "rigeo.shape.poly.ConvexPolyhedron.from_halfspaces"], scope=SC)
def _(s, case):
    what, d = case; np = s.np; C = Cdd(s, bounded=what == "pruned faces")
    n = s.count("n", lo=2)
    if what.endswith("faces"):
        if s.sym: A = s.many("A", n, (d,)); b = s.many("b", n)
        else:
            A = np.vstack((np.eye(d), -np.eye(d), ints(s, "A", n, (d,)))); b = np.hstack((4 * np.ones(2 * d), ints(s, "b", n, (), 1, 4)))
            i, j = (int(s._get(k, lambda: s.rs.integers(0, len(b)))) for k in "ij"); extra = np.hstack((b[i] + b[j] + 1, -A[i] - A[j]))
            A = np.vstack((A, -extra[1:])); b = np.hstack((b, extra[0]))
        F = pd(s).FaceForm(A, b).canonical() if what == "canonical faces" else s.rg.ConvexPolyhedron.from_halfspaces(A, b, prune=True).face_form
        if s.sym: s.ensure("nothing redundant is kept", s.truth(len(C.canon) >= 1), weak=True)
        else:
            rows = np.hstack((np.asarray(b)[:, None], -A))
            if np.abs(extra[1:]).max() > 0: s.ensure("nothing redundant is kept", bool(absent(s, np.hstack((F.b[:, None], -F.A)), extra, rows[:-1])))
        return
    if s.sym: V = s.many("v", n, (d,))
    else:
        V = ints(s, "v", n, (d,))[:int(s._get("few", lambda: s.rs.choice([1, 2, 99])))]; V = np.vstack((V, V.mean(axis=0)))
    W = pd(s).SpanForm(V).canonical().vertices if what == "canonical vertices" else s.rg.convex_hull(V) if what == "convex hull" else s.rg.ConvexPolyhedron.from_vertices(V, prune=True).vertices
    if s.sym: s.ensure("nothing redundant is kept", s.truth(len(C.canon) >= 1), weak=True)
    else:
        one = lambda X: np.hstack((np.ones((len(X), 1)), X))
        s.ensure("nothing redundant is kept", bool(absent(s, one(W), one(V)[-1], one(V[:-1]))))
        s.ensure("no vertex twice", all(np.abs(W[i] - W[j]).max() > 1e-9 for i in range(len(W)) for j in range(i)))

def poly(s, P):
    """the polyhedron's two forms"""
    return P.face_form, P.span_form

@contract("C20", "ConvexPolyhedron.from_vertices", cases=[(d, p) for d in D for p in (0, 1)], covers=["rigeo.shape.poly.ConvexPolyhedron.from_vertices", "rigeo.shape.poly.ConvexPolyhedron.__init__"], scope=SC)
def _(s, case):
    d, p = case
    x = vec(s, "x", d); a = vec(s, "a", d); beta = num(s, "beta")
    C = Cdd(s, [x], [(a, beta)])
    V = ints(s, "v", s.count("n", lo=1), (d,))
    P = s.rg.ConvexPolyhedron.from_vertices(V, prune=bool(p))
    s.ensure("dimension", s.truth(P.dim == d))
    s.ensure("the hull of the vertices", s.iff(s.forall_row(P.vertices, lambda v: s.le(dot(s, a, v), beta)), s.forall_row(V, lambda v: s.le(dot(s, a, v), beta))))
    s.ensure("no rays", s.truth(P.span_form.rays is None))
    same_set(s, "", C, P.span_form, P.face_form, x, a, beta)

@contract("C20", "ConvexPolyhedron.from_halfspaces", cases=[(d, p) for d in D for p in (0, 1)], covers=["rigeo.shape.poly.ConvexPolyhedron.from_halfspaces", "rigeo.shape.poly.ConvexPolyhedron.__init__"], scope=SC)
def _(s, case):
    d, p = case
    x = vec(s, "x", d); a = vec(s, "a", d); beta = num(s, "beta")
    C = Cdd(s, [x], [(a, beta)])
    n = s.count("n", lo=1); A = ints(s, "A", n, (d,)); b = ints(s, "b", n, (), 0, 4)
    o = s.zeros(d)
    s.assume(member(s, pd(s).FaceForm(A, b), o))                  # the origin is inside: not empty
    C.points.append(o)
    try: P = s.rg.ConvexPolyhedron.from_halfspaces(A, b, prune=bool(p))
    except ValueError: return                                      # unbounded, see below
    s.ensure("the points within the half spaces", s.iff(member(s, P.face_form, x), s.forall_rows(lambda f, t: s.le(dot(s, f, x), t), A, b)))
    s.ensure("no rays", s.truth(P.span_form.rays is None))
    same_set(s, "", C, P.span_form, P.face_form, x, a, beta)

@contract("C20", "unbounded sets are refused", cases=[(d, k) for d in D for k in ("r", "vr")], covers=["rigeo.shape.poly.ConvexPolyhedron.__init__", "rigeo.polydd.SpanForm.bounded"], scope=SC)
def _(s, case):
    d, k = case
    C = Cdd(s)
    S = pd(s).SpanForm(*spans(s, "", d, k))
    s.ensure("ValueError", s.truth(s.raises(ValueError, lambda: s.rg.ConvexPolyhedron(span_form=S))))
    F = pd(s).FaceForm(s.eye(d), s.zeros(d))
    s.ensure("ValueError with both forms", s.truth(s.raises(ValueError, lambda: s.rg.ConvexPolyhedron(face_form=F, span_form=S))))

def hedron(s, tag, d, eqs=False):
    """a bounded polyhedron given by both of its forms (the two are related by the contracts above)"""
    if s.sym:
        return s.rg.ConvexPolyhedron(face_form=faces(s, tag, d, eqs), span_form=pd(s).SpanForm(vertices=s.many("v" + tag, s.count("nv" + tag, lo=1), (d,))))
    import numpy as np
    V = ints(s, "v" + tag, s.count("nv" + tag, lo=1), (d,))
    S = pd(s).SpanForm(vertices=V)
    return s.rg.ConvexPolyhedron(span_form=S)

@contract("C20", "ConvexPolyhedron.intersect", cases=[(d, k) for d in D for k in (0, 1)], covers=["rigeo.shape.poly.ConvexPolyhedron.intersect", "rigeo.shape.poly.ConvexPolyhedron.__init__"], scope=SC)
def _(s, case):
    d, k = case
    x = vec(s, "x", d)
    P = hedron(s, "1", d, k); Q = hedron(s, "2", d)
    touch = not s.sym and s._get("touch", lambda: bool(s.rs.integers(0, 2)))
    if touch:                           # boxes that touch in a common vertex (in floating point every test is exact here)
        x = s.np.round(x); e = lambda n: s.np.array(s._get(n, lambda: s.rs.integers(1, 4, size=d)), dtype=float); g = s.np.array(s._get("sides", lambda: s.rs.choice([-1, 1], size=d)))
        corners = lambda a: s.np.array(list(itertools.product(*[(u, u + w) for u, w in zip(x, a)])))
        P, Q = (s.rg.ConvexPolyhedron.from_vertices(corners(v)) for v in (e("e1"), e("e2") * g))
    C = Cdd(s, [x], bounded=True)       # a subset of a bounded set is bounded
    both = s.And(member(s, P.face_form, x), member(s, Q.face_form, x))
    snap = s.snapshot(P.A, P.b, P.vertices, Q.A, Q.b, Q.vertices)
    I = P.intersect(Q)
    if touch: s.ensure("touching sets meet", I is not None)
    if I is None: s.ensure("None only if no point is in both", s.Not(both)); return
    s.ensure("bounded", s.truth(I.span_form.rays is None))
    C.halves_of(I.face_form, x, 0)
    s.ensure("no point is lost", s.implies(both, member(s, I.face_form, x)))
    C.halves_of(P.face_form, x, 1); C.halves_of(Q.face_form, x, 1)
    s.ensure("no point is gained", s.implies(member(s, I.face_form, x), both))
    if s.sym:
        s.ensure("vertices are in both", s.forall_row(I.vertices, lambda v: s.And(member(s, P.face_form, v), member(s, Q.face_form, v))))

@contract("C20", "ConvexPolyhedron.transform", cases=[(d, o) for d in D for o in ("rt", "r", "t", "")], covers=["rigeo.shape.poly.ConvexPolyhedron.transform"], scope=SC)
def _(s, case):
    d, o = case
    x = vec(s, "x", d); a = vec(s, "a", d); beta = num(s, "beta")
    P = hedron(s, "1", d)
    C = Cdd(s, [x], [(a, beta)])
    R = s.orth("R", d); t = vec(s, "t", d); kw = {}; move = lambda v: v
    if "r" in o: kw["rotation"] = R
    if "t" in o: kw["translation"] = t
    def move(v):
        if "r" in o: v = R @ v
        return v + t if "t" in o else v
    T = P.transform(**kw)
    s.ensure("moved vertices", s.iff(s.forall_row(T.vertices, lambda v: s.le(dot(s, a, v), beta)), s.forall_row(P.vertices, lambda v: s.le(dot(s, a, move(v)), beta))))
    same_set(s, "", C, T.span_form, T.face_form, x, a, beta)

@contract("C20", "ConvexPolyhedron.simplex", cases=[1, 2, 3, 4], covers=["rigeo.shape.poly.ConvexPolyhedron.simplex"], scope="dimension 1 to 4")
def _(s, d):
    e = s.arr([s.pos(f"e{i}") for i in range(d)])
    a = vec(s, "a", d); beta = num(s, "beta"); x = vec(s, "x", d)
    C = Cdd(s, [x], [(a, beta)])
    P = s.rg.ConvexPolyhedron.simplex(e)
    s.ensure("hull of the origin and the axis points", s.iff(s.forall_row(P.vertices, lambda v: s.le(dot(s, a, v), beta)), s.And(s.le(s.c(0), beta), *[s.le(a[i] * e[i], beta) for i in range(d)])))
    s.ensure("d + 1 vertices", s.truth(P.nv == d + 1))
    same_set(s, "", C, P.span_form, P.face_form, x, a, beta)
