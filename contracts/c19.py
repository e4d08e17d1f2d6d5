import itertools
from engine.ctx import contract
from .c05 import cross
U = "rigeo.util."

@contract("C19", "skew3 is the cross product", covers=[U + "skew3"])
def _(s):
    a = s.vec("a"); b = s.vec("b")
    s.ensure_eq("skew3(a) b = a x b", s.rg.skew3(a) @ b, cross(s, a, b))

@contract("C19", "lift3 and lift6", covers=[U + "lift3", U + "lift6", U + "vech"])
def _(s):
    A = s.symmat("A"); x = s.vec("x")
    s.ensure_eq("lift3(x) vech(A) = A x", s.rg.lift3(x) @ s.rg.vech(A), A @ x)
    p = s.rg.InertialParameters(mass=s.pos("m"), com=s.vec("c"), H=s.symmat("H"))
    v = s.vec("v"); w = s.vec("w")
    V = s.rg.SV(linear=v, angular=w)
    s.ensure_eq("lift6(V) theta = M V", s.rg.util.lift6(V) @ p.vec, p.M @ V.vec)

@contract("C19", "vech and unvech are inverse", cases=[1, 2, 3, 4, 5], covers=[U + "vech", U + "unvech", U + "is_triangular_number"])
def _(s, n):
    A = s.symmat("A", n)
    v = s.rg.vech(A)
    s.ensure("length", s.same_shape(v, (n * (n + 1) // 2,)))
    s.ensure_eq("upper triangle, row by row", v, s.arr([A[i, j] for i in range(n) for j in range(i, n)]))
    s.ensure_eq("unvech(vech(A)) = A", s.rg.unvech(v), A)
    a = s.vec("a", n * (n + 1) // 2)
    B = s.rg.unvech(a)
    s.ensure_eq("vech(unvech(a)) = a", s.rg.vech(B), a)
    s.ensure_eq("symmetric", B, B.T)
    if n > 1:
        s.ensure_eq("strict upper triangle", s.rg.vech(A, k=1), s.arr([A[i, j] for i in range(n) for j in range(i + 1, n)]))
        s.ensure("other lengths are refused", s.raises(AssertionError, lambda: s.rg.unvech(s.vec("b", n * (n + 1) // 2 + 1))))

def rotation(s, dim):
    if dim <= 3: return s.rot("R", dim)
    R = s.eye(dim)
    R[:3, :3] = s.rot("R", 3)
    if dim == 5: R[3:, 3:] = s.rot("Q", 2)
    return R

@contract("C19", "homogeneous matrices and inverses, any dimension", cases=[1, 2, 3, 4, 5], covers=[U + "transform_matrix", U + "transform_matrix_inv", U + "clean_transform"])
def _(s, dim):
    R = rotation(s, dim); t = s.vec("t", dim); x = s.vec("x", dim)
    T = s.rg.transform_matrix(R, t, dim=dim); Ti = s.rg.transform_matrix_inv(R, t, dim=dim)
    s.ensure("shape", s.And(s.same_shape(T, (dim + 1, dim + 1)), s.same_shape(Ti, (dim + 1, dim + 1))))
    s.ensure_eq("T Tinv = 1", T @ Ti, s.eye(dim + 1))
    s.ensure_eq("Tinv T = 1", Ti @ T, s.eye(dim + 1))
    xh = s.arr([*[x[i] for i in range(dim)], s.c(1)])
    y = T @ xh
    s.ensure_eq("T x = R x + t", y[:dim], R @ x + t); s.ensure_eq("homogeneous", y[dim], s.c(1))
    s.ensure_eq("defaults", s.rg.transform_matrix(dim=dim), s.eye(dim + 1))
    s.ensure_eq("inverse defaults", s.rg.transform_matrix_inv(dim=dim), s.eye(dim + 1))
    s.ensure_eq("rotation only", s.rg.transform_matrix(rotation=R, dim=dim) @ s.rg.transform_matrix_inv(rotation=R, dim=dim), s.eye(dim + 1))
    s.ensure_eq("translation only", s.rg.transform_matrix(translation=t, dim=dim) @ s.rg.transform_matrix_inv(translation=t, dim=dim), s.eye(dim + 1))
    s.ensure_eq("order of application", s.rg.transform_matrix(translation=t, dim=dim) @ s.rg.transform_matrix(rotation=R, dim=dim), T)

@contract("C19", "box_vertices lists every sign combination once", cases=[1, 2, 3, 4], covers=[U + "box_vertices"])
def _(s, dim):
    h = s.vec("h", dim, sign="pos")
    V = s.rg.box_vertices(h)
    s.ensure("number of vertices", s.same_shape(V, (2 ** dim, dim)))
    for sg in itertools.product([1, -1], repeat=dim):
        c = s.arr([k * h[i] for i, k in enumerate(sg)])
        if s.sym: f = s.Or(*[s.eq(V[r], c) for r in range(2 ** dim)])
        else: f = bool((abs(V - c).max(axis=1) < 1e-9).any())
        s.ensure(f"vertex {sg}", f)

@contract("C19", "is_triangular_number accepts only triangular numbers", cases=["int", "float"], covers=[U + "is_triangular_number"])
def _(s, kind):
    x = s.int("x", lo=-5, hi=None if s.sym else 400)
    if kind == "float" and not s.sym: x = float(x)
    ok, n = s.rg.util.is_triangular_number(x)
    s.ensure("root", s.implies(s.truth(ok), s.And(s.eq(2 * x, n * (n + 1)), s.le(1, n))))

@contract("C19", "is_triangular_number accepts every triangular number", cases=["int", "float"], covers=[U + "is_triangular_number"])
def _(s, kind):
    if s.sym: k = s.int("k", lo=1)
    else: k = int(s._get("k", lambda: int(s.rs.choice([1, 2, 3, 10, 94906265, 94906266, 94906267, 2**27 + 1, 10**9 + 7, 3 * 10**12]))))
    x = k * (k + 1) // 2 if not s.sym else k * (k + 1) * s.q(1, 2)
    if kind == "float" and not s.sym:
        x = float(x)
        if x != k * (k + 1) // 2: x = 6.0; k = 3
    ok, n = s.rg.util.is_triangular_number(x)
    s.ensure("recognised", s.truth(ok))
    s.ensure("right root", s.eq(n, k) if s.sym else n == k)

@contract("C19", "is_triangular_number decides", covers=[U + "is_triangular_number"], bounded="all integers up to a bound and fractional values, concretely")
def _(s):
    tri = {k * (k + 1) // 2: k for k in range(1, 200)}
    bad = []
    for x in range(-3, 5000):
        ok, n = s.rg.util.is_triangular_number(x)
        if bool(ok) != (x in tri) or (ok and n != tri[x]): bad.append(x)
    s.ensure("integers below 5000", not bad)
    s.ensure("fractions refused", not any(s.rg.util.is_triangular_number(x + 0.5)[0] for x in range(-2, 30)))
    ks = [94906265, 94906266, 94906267, 2**30 - 1, 2**31 + 5, 10**9 + 7]
    s.ensure("neighbours of large triangular numbers refused", not any(s.rg.util.is_triangular_number(k * (k + 1) // 2 + d)[0] for k in ks for d in (-1, 1)))

@contract("C19", "contact Jacobian", covers=[U + "contact_jacobian"])
def _(s):
    p = s.vec("p"); f = s.vec("f")
    w = s.rg.util.contact_jacobian(p) @ f
    s.ensure_eq("moment", w[:3], cross(s, p, f)); s.ensure_eq("force", w[3:], f)

@contract("C19", "evaluation times", covers=[U + "compute_evaluation_times"])
def _(s):
    d = s.pos("d"); st = s.pos("step")
    if not s.sym and s.rs.random() < 0.5: st = s.int("eighths", lo=1, hi=9) / 8; d = st * s.int("steps", lo=1, hi=9)
    n, ts = s.rg.util.compute_evaluation_times(d, st)
    s.ensure("as many as reported", s.same_shape(ts, (n,)))
    s.ensure("below the duration", s.forall_row(ts, lambda t: s.lt(t, d)))
    if not s.sym and (8 * st).is_integer() and (8 * d).is_integer(): s.ensure("below the duration", bool((ts < d).all()))   # exact in binary
    s.ensure("next one is not", s.le(d, n * st))
    if s.sym:
        i = ts.ax[0].tok.idx
        s.ensure_eq("multiples of the step", ts, s.np.arange(n) * st)
    else: s.ensure_eq("multiples of the step", ts, s.np.arange(n) * st)
    n2, ts2 = s.rg.util.compute_evaluation_times(d)
    s.ensure("default step 0.1", s.And(s.le(d, n2 * s.q(1, 10)), s.lt((n2 - 1) * s.q(1, 10), d)))
