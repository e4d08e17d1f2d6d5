from engine.ctx import contract
import itertools, math
P = "rigeo.moment.Polynomial."; MM = "rigeo.moment.MomentMatrix."; REAL = ("rigeo.moment.Polynomial.__init__",)
IX = ["rigeo.moment.MomentIndex.__init__", "rigeo.moment.MomentIndex.__add__", "rigeo.moment.MomentIndex.__hash__", "rigeo.moment.MomentIndex.__eq__"]

SUPPORTS = {
    "1": [(0,), (1,), (3,)], "1c": [(0,)], "1q": [(2,), (5,)],
    "2": [(0, 0), (1, 1), (0, 2)], "2h": [(3, 0), (0, 3)],
    "3": [(0, 0, 0), (1, 0, 0), (0, 0, 1)], "3q": [(2, 0, 0), (0, 1, 1), (0, 2, 0)], "3m": [(1, 1, 1), (0, 2, 2)],
    "4": [(0, 0, 0, 1), (1, 0, 2, 0), (0, 1, 0, 0)]}

def mono(s, x, e):
    r = s.c(1)
    for xi, k in zip(x, e):
        for _ in range(k): r = r * xi
    return r

def key(idx, style):
    return "".join(map(str, idx)) if style == "str" else tuple(idx)

def poly(s, sup, tag, style="tuple", tol=None):
    cs = [s.real(f"k{tag}{i}") for i in range(len(sup))]
    d = {key(i, style): c for i, c in zip(sup, cs)}
    return (s.rg.Polynomial(d) if tol is None else s.rg.Polynomial(d, tol=tol)), cs

def value(s, sup, cs, x): return sum((c * mono(s, x, e) for e, c in zip(sup, cs)), s.c(0))

@contract("C18", "evaluation", cases=[(k, st) for k in SUPPORTS for st in ("tuple", "str")], covers=[P + "__init__", P + "evaluate"] + IX, real=REAL)
def _(s, case):
    k, style = case
    sup = SUPPORTS[k]; p, cs = poly(s, sup, "p", style); x = s.vec("x", len(sup[0]))
    s.ensure_eq("value", p.evaluate(x), value(s, sup, cs, x))
    s.ensure_eq("value at the origin", p.evaluate(s.zeros(len(x))), sum((c for e, c in zip(sup, cs) if sum(e) == 0), s.c(0)))

@contract("C18", "coefficients below the tolerance are dropped", cases=["1", "3q"], covers=[P + "__init__"], real=REAL)
def _(s, k):
    sup = SUPPORTS[k]; tol = s.tolr("tol"); p, cs = poly(s, sup, "p", tol=tol)
    keys = {i.value for i in p.coefficients}
    for e, c in zip(sup, cs):
        if e in keys: s.ensure("kept coefficients exceed the tolerance", s.lt(tol, abs(c)))
        else: s.ensure("dropped coefficients do not", s.le(abs(c), tol))

PAIRS = [("1", "1q"), ("1", "1"), ("2", "2h"), ("3", "3q"), ("3q", "3q"), ("3m", "3"), ("4", "4")]
@contract("C18", "sum of polynomials", cases=PAIRS, covers=[P + "__add__", P + "evaluate"], real=REAL)
def _(s, case):
    A, B = SUPPORTS[case[0]], SUPPORTS[case[1]]
    p, cp_ = poly(s, A, "p"); q, cq = poly(s, B, "q"); x = s.vec("x", len(A[0]))
    r = p + q
    s.ensure_eq("value of the sum", r.evaluate(x), value(s, A, cp_, x) + value(s, B, cq, x))
    s.ensure_eq("first operand unchanged", p.evaluate(x), value(s, A, cp_, x))
    s.ensure_eq("second operand unchanged", q.evaluate(x), value(s, B, cq, x))
    s.ensure_eq("adding zero", (p + s.rg.Polynomial.zeros()).evaluate(x), value(s, A, cp_, x))

@contract("C18", "opposite polynomials cancel", cases=["2", "3q"], covers=[P + "__add__"], real=REAL)
def _(s, k):
    A = SUPPORTS[k]
    cs = [s.pos(f"k{i}") for i in range(len(A))]
    e = A[0]; low = A[1:]
    top = tuple(5 if i == 0 else 0 for i in range(len(e)))
    p = s.rg.Polynomial({**{i: c for i, c in zip(A, cs)}, top: s.c(1)}); q = s.rg.Polynomial({top: -s.c(1)})
    r = p + q
    s.ensure("degree drops with the cancelled term", int(r.degree) == max(sum(i) for i in A))
    s.ensure("no zero coefficient left", len(r.coefficients) == len(A))

@contract("C18", "product with a monomial", cases=[(k, j) for k in SUPPORTS for j in range(3)], covers=[P + "localize", P + "evaluate"] + IX, real=REAL)
def _(s, case):
    k, j = case
    sup = SUPPORTS[k]; n = len(sup[0]); p, cs = poly(s, sup, "p"); x = s.vec("x", n)
    e = [(0,) * n, tuple(1 if i == n - 1 else 0 for i in range(n)), tuple(i + 1 for i in range(n))][j]
    r = p.localize(s.rg.MomentIndex(e))
    s.ensure_eq("value of the product", r.evaluate(x), mono(s, x, e) * value(s, sup, cs, x))
    s.ensure_eq("operand unchanged", p.evaluate(x), value(s, sup, cs, x))

@contract("C18", "affine constructor", cases=[1, 2, 3, 4], covers=[P + "affine", P + "evaluate", P + "degree"], real=REAL)
def _(s, n):
    a = s.vec("a", n); b = s.real("b"); x = s.vec("x", n)
    p = s.rg.Polynomial.affine(a=a, b=b)
    v = b
    for i in range(n): v = v - a[i] * x[i]
    s.ensure_eq("value is b - a x", p.evaluate(x), v)
    if p.coefficients:
        d = int(p.degree)
        s.ensure("degree", s.And(s.Not(s.eq(a, s.zeros(n)))) if d == 1 else (s.eq(a, s.zeros(n)) if d == 0 else False))

@contract("C18", "degree", cases=list(SUPPORTS), covers=[P + "degree", P + "__init__"], real=REAL)
def _(s, k):
    sup = SUPPORTS[k]; p, cs = poly(s, sup, "p")
    s.assume(s.Or(*[s.Not(s.eq(c, s.c(0))) for c in cs]))
    d = int(p.degree)
    s.ensure("no larger term", s.And(*[s.eq(c, s.c(0)) for e, c in zip(sup, cs) if sum(e) > d]))
    s.ensure("attained", s.Or(*[s.Not(s.eq(c, s.c(0))) for e, c in zip(sup, cs) if sum(e) == d]))

SIZES = [(n, d) for n in range(1, 5) for d in range(0, 5)] + [(5, 2), (6, 2), (2, 7)]
@contract("C18", "monomial basis", cases=SIZES, covers=[P + "basis", P + "dim", P + "ones", "rigeo.moment.MomentIndex.__add__", "rigeo.moment.MomentIndex.__radd__"], real=REAL)
def _(s, case):
    n, d = case
    if d == 0: return sizes0(s, n)
    B = [i.value for i in s.rg.Polynomial.basis(n, d)]
    want = {e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d}
    s.ensure("every monomial once", len(B) == len(set(B)) and set(B) == want)
    s.ensure("graded order", all(sum(a) <= sum(b) for a, b in zip(B, B[1:])))
    s.ensure("length", s.rg.Polynomial.dim(n, d) == len(B) == math.comb(n + d, d))
    lower = [i.value for i in s.rg.Polynomial.basis(n, d - 1)] if d > 1 else [(0,) * n]
    s.ensure("the lower-order basis is its head", B[:len(lower)] == lower)
    one = s.rg.Polynomial.ones(n, d)
    s.ensure("ones", {i.value for i in one.coefficients} == want and all(c == 1 for c in one.coefficients.values()))

def sizes0(s, n):
    s.ensure("length", s.rg.Polynomial.dim(n, 0) == 1)

def bvals(s, n, d, x): return [mono(s, x, i.value) for i in s.rg.Polynomial.basis(n, d)]

MSIZES = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]
@contract("C18", "moment matrix of a point", cases=MSIZES, covers=[MM + "__init__", MM + "moment_constraints", MM + "_compute_var_map"], real=REAL)
def _(s, case):
    n, d = case
    x = s.vec("x", n); b = bvals(s, n, d, x); r = len(b)
    mm = s.rg.MomentMatrix(n, d)
    s.ensure("size", tuple(mm.shape) == (r, r))
    M = s.arr([[b[i] * b[j] for j in range(r)] for i in range(r)])
    s.ensure("entries", all(mm.indices[i, j].value == tuple(p + q for p, q in zip(s.rg.Polynomial.basis(n, d)[i].value, s.rg.Polynomial.basis(n, d)[j].value)) for i in range(r) for j in range(r)))
    k = s.mark(); V = s.cvar(M)
    s.feasible("all moment constraints hold", mm.moment_constraints(V), witness=lambda vs: [], mark=k)

@contract("C18", "moment constraints tie equal moments", cases=[(1, 2), (2, 2), (3, 2)], covers=[MM + "moment_constraints", MM + "_compute_var_map"], real=REAL)
def _(s, case):
    n, d = case
    mm = s.rg.MomentMatrix(n, d); r = mm.shape[0]
    names = {}
    M = s.zeros(r, r)
    for i in range(r):
        for j in range(i, r): M[i, j] = M[j, i] = s.real(f"M{i}_{j}")
    if not s.sym:
        x = s.vec("x", n); b = bvals(s, n, d, x); M = s.arr([[p * q for q in b] for p in b])
    s.given_feasible(mm.moment_constraints(s.cvar(M)))
    for i in range(r):
        for j in range(i, r):
            v = mm.indices[i, j].value
            if v in names: s.ensure_eq("equal moments are equal", M[i, j], names[v])
            else: names[v] = M[i, j]

LOC = [((1, 2), "1c"), ((1, 3), "1"), ((2, 2), "2"), ((2, 3), "2h"), ((3, 2), "3"), ((3, 2), "3q"), ((3, 3), "3m"), ((3, 3), "3")]
@contract("C18", "localizing matrix of a point", cases=LOC, covers=[MM + "localize", MM + "localizing_matrix", P + "localize", P + "substitute"], real=REAL)
def _(s, case):
    (n, d), k = case
    x = s.vec("x", n); b = bvals(s, n, d, x); r = len(b)
    mm = s.rg.MomentMatrix(n, d)
    M = s.arr([[b[i] * b[j] for j in range(r)] for i in range(r)])
    sup = SUPPORTS[k]; p, cs = poly(s, sup, "p")
    s.assume(s.Or(*[s.Not(s.eq(c, s.c(0))) for c in cs]))
    L = mm.localize(M, p); v = -(-int(p.degree) // 2)
    bl = bvals(s, n, d - v, x) if d > v else [s.c(1)]
    s.ensure("size", s.same_shape(L, (len(bl), len(bl))))
    px = value(s, sup, cs, x)
    s.ensure_eq("value times outer product", L, s.arr([[px * g * h for h in bl] for g in bl]))
    Ls = mm.localizing_matrix(d - v, p)
    for i in range(len(bl)):
        for j in range(len(bl)): s.ensure_eq("symbolic localizing matrix", Ls[i, j].evaluate(x), px * bl[i] * bl[j])
    s.ensure_eq("polynomial unchanged", p.evaluate(x), px)

@contract("C18", "localizing constraints hold where the polynomial is not negative", cases=LOC, covers=[MM + "localizing_constraints", MM + "_compute_loc_mat_constraints", P + "substitute"], real=REAL)
def _(s, case):
    (n, d), k = case
    x = s.vec("x", n); b = bvals(s, n, d, x); r = len(b)
    mm = s.rg.MomentMatrix(n, d)
    M = s.arr([[b[i] * b[j] for j in range(r)] for i in range(r)])
    sup = SUPPORTS[k]; p, cs = poly(s, sup, "p")
    s.assume(s.Or(*[s.Not(s.eq(c, s.c(0))) for c in cs]))
    px = value(s, sup, cs, x)
    if not s.sym and px < 0.05: return
    s.assume(s.le(0, px))
    v = -(-int(p.degree) // 2); bl = bvals(s, n, d - v, x) if d > v else [s.c(1)]
    q = s.rg.Polynomial({(0,) * n: s.c(1)})
    m = s.mark(); V = s.cvar(M)
    cs_ = mm.localizing_constraints(V, [q, p])
    W = [s.arr([[g * h for h in b] for g in b]), s.arr([[px * g * h for h in bl] for g in bl])]
    def lem(X):
        if s.same_shape(X, (len(bl), len(bl))): s.psd_outer("rank one", X, [(px, bl)])
        if s.same_shape(X, (r, r)): s.psd_outer("rank one", X, [(s.c(1), b)])
    s.feasible("satisfiable", cs_, witness=lambda vs: W, mark=m, lemmas=lem)
