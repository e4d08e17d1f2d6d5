"""C12: whatever the random generator delivers, the samples lie in the set that was asked for."""
import itertools
from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3, CYL

BALL = "rigeo.random.random_points_in_ball"; WEIGHTS = "rigeo.random.random_weight_vectors"
S_ = "rigeo.shape."; RND = "rigeo.random."
SHAPES = ["one", "many", "grid"]
CASES = lambda kinds: [(k, m) for k in kinds for m in SHAPES]

def want(s, mode):
    """(requested shape, shape of the result without the dimension axis)"""
    if mode == "one": return 1, ()
    n = s.count("n", lo=2)
    if mode == "many": return n, (n,)
    k = s.count("k", lo=2)
    return (n, k), (n, k)

def rows(s, X, depth, f):
    """f(point) for every sample (deductively: for a generic one)"""
    if depth == 0: return f(X)
    if s.sym: return rows(s, s.seq_item(X), depth - 1, f)
    return s.forall_row(X, lambda r: rows(s, r, depth - 1, f))

def local(S, p): return S.R.T @ (p - S.c)

def check(s, S, X, shp, d, mem, what="every sample is in the shape"):
    s.ensure("array of the requested shape", s.same_shape(X, shp + (d,)))
    if s.same_shape(X, shp + (d,)) is False: return
    s.ensure(what, rows(s, X, len(shp), lambda p: mem(local(S, p))))

def in_shape(h):
    def phi(row, loc): return h(row)
    return phi

BOXES = ["box", "box110", "box100", "box000"]
@contract("C12", "box samples", cases=CASES(BOXES), covers=[S_ + "box.Box.random_points"])
def _(s, case):
    S = sh.make(s, case[0]); arg, shp = want(s, case[1])
    check(s, S, S.obj.random_points(arg, rng=s.rng()), shp, 3, S.mem)

def on_face(s, h, y):
    return s.And(sh.box_mem(s, h, y), s.Or(*[s.Or(s.eq(y[i], h[i]), s.eq(y[i], -h[i])) for i in range(3)]))
def on_edge(s, h, y):
    at = [s.Or(s.eq(y[i], h[i]), s.eq(y[i], -h[i])) for i in range(3)]
    return s.And(sh.box_mem(s, h, y), s.Or(*[s.And(at[i], at[j]) for i, j in itertools.combinations(range(3), 2)]))

@contract("C12", "samples on the surface of a box", cases=CASES(["box", "box110"]), covers=[S_ + "box.Box.random_points_on_surface"])
def _(s, case):
    S = sh.make(s, case[0]); arg, shp = want(s, case[1])
    check(s, S, S.obj.random_points_on_surface(arg, rng=s.rng()), shp, 3, lambda y: on_face(s, S.h, y), "every sample is on the surface")

@contract("C12", "samples on the edges of a box", cases=CASES(["box", "box110", "box100"]), covers=[S_ + "box.Box.random_points_on_edges"])
def _(s, case):
    S = sh.make(s, case[0]); arg, shp = want(s, case[1])
    check(s, S, S.obj.random_points_on_edges(arg, rng=s.rng()), shp, 3, lambda y: on_edge(s, S.h, y), "every sample is on an edge")

@contract("C12", "ellipsoid samples", cases=CASES(ELL3 + ["sphere", "ellipsoid1", "ellipsoid11", "ellipsoid10"]),
          covers=[S_ + "ellipsoid.Ellipsoid.random_points"], stubs=[BALL])
def _(s, case):
    S = sh.make(s, case[0]); arg, shp = want(s, case[1])
    if s.sym:   # hint: the squares of the coordinates of a ball point in the ellipsoid's axes
        x = s.rg.random.random_points_in_ball(arg, dim=len(S.c), rng=s.rng())
        for _ in shp: x = s.seq_item(x)
        for e in S.R.T @ x: s.rule_square(e)
    check(s, S, S.obj.random_points(arg, rng=s.rng()), shp, len(S.c), S.mem)

@contract("C12", "cylinder samples", cases=CASES(CYL), covers=[S_ + "cylinder.Cylinder.random_points"], stubs=[BALL])
def _(s, case):
    S = sh.make(s, case[0]); arg, shp = want(s, case[1])
    check(s, S, S.obj.random_points(arg, rng=s.rng()), shp, 3, S.mem)

@contract("C12", "polyhedron samples", cases=CASES(["polyhedron"]), covers=[S_ + "poly.ConvexPolyhedron.random_points"], stubs=[WEIGHTS])
def _(s, case):
    S = sh.make(s, case[0]); arg, shp = want(s, case[1])
    X = S.obj.random_points(arg, rng=s.rng())
    if s.sym:   # hint: a weighted sum of b - a.v >= 0 over the vertices v, for every face (a, b)
        w = s.rg.random.random_weight_vectors((shp or (1,)) + (S.obj.nv,), rng=s.rng())
        for _ in shp or (1,): w = s.seq_item(w) if shp else w[0]
        a = s.seq_item(S.A); b = s.seq_item(S.b)
        s.under(S.A.ax[0], lambda: s.rule_sum(lambda wi, v: (wi, b - a @ v), w, S.V))
    check(s, S, X, shp, S.n, S.mem)

def on_ellipsoid(row, loc):
    y = row / loc["self"].half_extents
    return y @ y == 1

@contract("C12", "samples on the surface of an ellipsoid", cases=CASES(["ellipsoid111", "sphere", "ellipsoid11", "ellipsoid1"]), covers=[S_ + "ellipsoid.Ellipsoid.random_points_on_surface"], stubs=["rigeo.random.random_points_on_hypersphere"],
          hints={S_ + "ellipsoid.Ellipsoid.random_points_on_surface": on_ellipsoid})
def _(s, case):
    S = sh.make(s, case[0]); arg, shp = want(s, case[1]); h = S.h
    def mem(y):
        z = s.arr([y[i] / h[i] for i in range(len(h))])
        return s.eq(z @ z, 1)
    check(s, S, S.obj.random_points_on_surface(arg, rng=s.rng()), shp, len(S.c), mem, "every sample is on the surface")

@contract("C12", "capsule samples", cases=CASES(["capsule11", "capsule01"]), covers=[S_ + "capsule.Capsule.random_points", "rigeo.random.rejection_sample"],
          hints={"rigeo.random.rejection_sample": lambda row, loc: sh.accepted_by(row, loc["actual_shapes"])})
def _(s, case):
    S = sh.make(s, case[0]); arg, shp = want(s, case[1])
    if s.sym: sh.contract_contains(s, S)        # contains() by its contract (C09)
    try: X = S.obj.random_points(arg, rng=s.rng())
    except ValueError:
        if not s.sym: raise         # only a generator that keeps missing the shape exhausts the tries (C13)
        return
    s.ensure("array of the requested shape", s.same_shape(X, shp + (3,)))
    near = s.q(1, 10**8)     # rejection sampling accepts with the default tolerance
    def mem(p):
        ok = S.mem(local(S, p), near)
        if s.sym: s.assume(s.implies(sh.accepted_by(p, [S.obj]), ok))
        return ok
    s.ensure("every sample is in the shape", rows(s, X, len(shp), mem))

@contract("C12", "points in a ball", cases=[(d, m) for d in (1, 2, 3, 4) for m in SHAPES], covers=[RND + "random_points_in_ball"])
def _(s, case):
    d, mode = case; arg, shp = want(s, mode)
    X = s.rg.random.random_points_in_ball(arg, dim=d, rng=s.rng())
    s.ensure("array of the requested shape", s.same_shape(X, shp + (d,)))
    s.ensure("in the unit ball", rows(s, X, len(shp), lambda p: s.le(p @ p, 1)))
    if d == 3:
        Z = s.rg.random.random_points_in_ball(arg, rng=s.rng())
        s.ensure("three dimensions by default", s.same_shape(Z, shp + (3,)))

@contract("C12", "points on a sphere", cases=[(d, m) for d in (0, 1, 2, 3) for m in SHAPES], covers=[RND + "random_points_on_hypersphere"])
def _(s, case):
    d, mode = case; arg, shp = want(s, mode)
    X = s.rg.random.random_points_on_hypersphere(arg, dim=d, rng=s.rng())
    s.ensure("array of the requested shape", s.same_shape(X, shp + (d + 1,)))
    s.ensure("unit norm", rows(s, X, len(shp), lambda p: s.eq(p @ p, 1)))

@contract("C12", "weight vectors", cases=["one", "many", "fixed", "fixedmany"], covers=[RND + "random_weight_vectors"])
def _(s, case):
    n = s.count("n")
    if case == "one": shp = (n,)
    elif case == "many": shp = (s.count("k"), n)
    elif case == "fixed": shp = (4,)
    else: shp = (n, 4)
    W = s.rg.random.random_weight_vectors(shp if len(shp) > 1 else shp[0], rng=s.rng())
    s.ensure("array of the requested shape", s.same_shape(W, shp))
    s.ensure("non-negative", rows(s, W, len(shp), lambda w: s.le(0, w)))
    total = (lambda w: s.np.sum(w))
    s.ensure("summing to one", rows(s, W, len(shp) - 1, lambda w: s.eq(total(w), 1)))

@contract("C12", "positive semidefinite matrices", cases=[1, 2, 3, 4, 5], covers=[RND + "random_psd_matrix"])
def _(s, n):
    A = s.rg.random.random_psd_matrix(n, rng=s.rng())
    if s.sym:
        B = s.rng().uniform(low=-1, high=1, size=(n, n)); v = s.vec("v", n)
        for e in B @ v: s.rule_square(e)
        for e in B.T @ v: s.rule_square(e)
    s.ensure("square", s.same_shape(A, (n, n)))
    s.ensure_eq("symmetric", A, A.T)
    v = s.vec("v", n)
    s.ensure("positive semidefinite", s.le(0, v @ A @ v))
