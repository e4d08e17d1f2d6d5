"""C21: closest_points, for a solver that returns an optimum and shapes whose must_contain means containment (C09)."""
import itertools
from engine.ctx import contract, REGISTRY
from . import shapes as sh, c09

class Member:
    """a shape known by the contract of must_contain only: satisfiable exactly for the points of the shape"""
    def __init__(self, s, name): self.s = s; self.name = name
    def spec(self, p):
        from engine import logic
        return logic.ufun("member_" + self.name, *[e for e in p.a]) > 0
    def must_contain(self, points, scale=1):
        from engine import cp_shim
        from engine.alg import Unsupported
        P = cp_shim.val(points)
        if P.sym(): raise Unsupported("must_contain of a symbolic batch")
        P = P / scale if scale != 1 else P
        rows = [P] if P.ndim == 1 else [P[i] for i in range(P.a.shape[0])]
        return [cp_shim.Constraint("le", self.spec(r)) for r in rows]

def optimum(s):
    """the assumed contract of the solver: the values meet the constraints and no other values that do give a better objective"""
    from engine import logic
    from engine.alg import Unsupported
    def hook(problem):
        problem.status = "optimal"
        s.w.add(problem.formula())
        s.solved = problem
    s.w.solve_hook = hook

def variables_of(s, v):
    """the atoms of the variables that a reported value consists of"""
    from engine.alg import S, Unsupported
    ids = {next(iter(e.d))[0][0] for x in s.solved.variables() for e in x.v.a.flat if isinstance(e, S)}
    out = []
    for e in v.a.flat:
        if not (isinstance(e, S) and len(e.d) == 1): raise Unsupported("reported value is not a variable")
        (m, c), = e.d.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0] not in ids: raise Unsupported("reported value is not a variable")
        out.append(m[0][0])
    return out, ids

@contract("C21", "closest points of any two shapes", covers=["rigeo.closest.closest_points"], no_conc=True)
def _(s):
    from engine import logic
    from engine.alg import Unsupported
    A = Member(s, "1"); B = Member(s, "2")
    optimum(s)
    info = s.rg.closest_points(A, B)
    p1, p2 = info.p1, info.p2
    s.ensure("a point of the first shape", A.spec(p1)); s.ensure("a point of the second shape", B.spec(p2))
    d = p2 - p1
    s.ensure("the distance between the two points", s.And(s.le(0, info.dist), s.eq(info.dist * info.dist, sh.norm2(d))))
    s.rule_square(*[e for e in d.a])
    # any other pair of points of the shapes
    q1 = s.vec("q1_"); q2 = s.vec("q2_")
    a1, ids = variables_of(s, p1); a2, _ = variables_of(s, p2)
    if set(a1 + a2) != ids or len(set(a1 + a2)) != 6: raise Unsupported("variables beside the two points")
    mp = dict(zip(a1 + a2, list(q1.a) + list(q2.a)))
    pair = [A.spec(q1), B.spec(q2)]
    F = logic.subst_vars(s.solved.formula(), mp)
    s.ensure("every pair of points of the shapes is feasible", F, hyps=pair)
    o = s.solved.objective; e = o.expr.v.a.flat[0]; e2 = logic.subst_vars(e, mp)
    s.assume(s.implies(F, s.le(o.sign * e, o.sign * e2)))
    D = sh.norm2(q2 - q1)
    s.ensure("no other pair is closer", s.le(info.dist * info.dist, D), hyps=pair)

ALL = ["box", "box110", "ellipsoid111", "ellipsoid110", "sphere", "cylinder11", "cylinder10", "cylinder01", "capsule11", "capsule01", "polyhedron"]
PAIRS = [(k, ALL[(i + j) % len(ALL)]) for i, k in enumerate(ALL) for j in (0, 3, 5)]
@contract("C21", "closest points", cases=PAIRS, covers=["rigeo.closest.closest_points"], bounded="the whole computation with a real solver: sampled pairs of shapes", samples=10)
def _(s, case):
    S1 = sh.make(s, case[0], "1"); S2 = sh.make(s, case[1], "2")
    np = s.np
    for k, v in s.used.items():          # sizes that the solver's accuracy can resolve
        if k[0] in "hr" and np.ndim(v) == 0: s.assume(0.1 < v < 20)
    far = s._get("far", lambda: s.rs.random() < 0.5)
    T = S2.obj
    if far: T = T.transform(translation=s.vec("t") * 5)
    try: info = s.rg.closest_points(S1.obj, T, solver="CLARABEL")
    except s.cp.error.SolverError: return
    if info.p1 is None or info.p2 is None or info.dist is None: return
    s.tol = 1e2
    ok = lambda O, p: bool(np.all(O.contains(p, tol=5e-3 * (1 + np.abs(p).max()))))
    s.ensure("a point of the first shape", ok(S1.obj, info.p1)); s.ensure("a point of the second shape", ok(T, info.p2))
    d = float(np.linalg.norm(info.p2 - info.p1))
    s.ensure("the distance between the two points", s.eq(info.dist, d))
    move = s.vec("t") * 5 if far else np.zeros(3)
    for k in range(6):
        q1 = S1.world(sh.local_sample(s, S1, f"q1_{k}")); q2 = S2.world(sh.local_sample(s, S2, f"q2_{k}")) + move
        for t in (1, 0.5, 0.1, 0.02):
            a = info.p1 + t * (q1 - info.p1); b = info.p2 + t * (q2 - info.p2)
            for x, y in ((a, b), (a, info.p2), (info.p1, b)):
                s.ensure("no other pair is closer", s.le(d, np.linalg.norm(x - y) + 1e-5 * (1 + np.abs(q1).max() + np.abs(q2).max())))

# the contract of must_contain that the proof relies on, for every shape (the same as in C09)
for C in list(REGISTRY["C09"]):
    if C.name == "one point" or C.name == "capsule":
        cases = [c for c in C.cases if c[1] == "default" and c[0] != "poly2" and not c[0] in ("ellipsoid1", "ellipsoid0", "ellipsoid11", "ellipsoid10")]
        contract("C21", "must_contain: " + C.name, cases=cases, covers=C.covers, **C.opts)(C.body)
