from engine.ctx import contract
from . import shapes as sh
from .shapes import ELL3, CYL

COV = ["rigeo.constraint.schur", "rigeo.constraint._shape_schur_var", "rigeo.shape.poly.ConvexPolyhedron.must_contain", "rigeo.shape.ellipsoid.Ellipsoid.must_contain",
       "rigeo.shape.cylinder.Cylinder.must_contain", "rigeo.shape.capsule.Capsule.must_contain"]

def sos(s, M, hs, y, sc, w=None):
    """[[sc h^2, sc w], [sc w', sc]] is a sum of squares when |w/h| <= 1 (w: zero along degenerate axes)"""
    n = len(hs)
    if M.a.shape[0] != n + 1: return
    u = [s.c(0) if h is None else yi / h for h, yi in zip(hs, y)]
    q = sum((x * x for x in u), s.c(0))
    for first in (False, True):
        put = (lambda v, e: [e] + v) if first else (lambda v, e: v + [e])
        E = lambda *ix: put([s.c(0) if i not in [k for k, _ in ix] else dict(ix)[i] for i in range(n)], s.c(0))
        terms = [(sc, put([s.c(0) if h is None else yi for h, yi in zip(hs, y)], s.c(1)))]
        for i in range(n):
            if hs[i] is None: continue
            terms.append((sc * (1 - q), E((i, hs[i]))))
            for j in range(i + 1, n):
                if hs[j] is not None: terms.append((sc, E((i, u[j] * hs[i]), (j, -u[i] * hs[j]))))
        s.psd_outer("containment", M, terms)
    s.rule_mul((sc, 1 - q))

def cut(s, M, hs, y):
    """the consequences of M psd that matter"""
    n = len(hs)
    if M.a.shape[0] != n + 1: return
    v = [s.c(0) if h is None else -yi / (h * h) for h, yi in zip(hs, y)]
    s.psd_at(M, s.arr(v + [s.c(1)])); s.psd_at(M, s.arr([s.c(1)] + v))
    if None in hs: s.psd_minors(M)

def parts(S):
    """(half extents, local coordinates) of the ellipsoids a shape is made of"""
    k = S.kind
    if k == "ellipsoid": return [(S.hs, lambda y: [y[i] for i in range(len(S.hs))])]
    if k == "sphere": return [([S.r] * len(S.c), lambda y: [y[i] for i in range(len(S.c))])]
    if k == "cylinder": return [([S.hl], lambda y: [y[2]]), ([S.r, S.r], lambda y: [y[0], y[1]])]
    return []

def on_axes(s, S, y):
    """the points of a degenerate shape have zero coordinates along its degenerate axes"""
    if S.kind == "ellipsoid": return s.arr([y[i] if h is not None else s.c(0) for i, h in enumerate(S.hs)])
    if S.kind == "cylinder": return s.arr([y[0] if S.r is not None else s.c(0), y[1] if S.r is not None else s.c(0), y[2] if S.hl is not None else s.c(0)])
    return y

def scaled(s, how):
    """scale and the keyword arguments that pass it"""
    if how == "default": return s.c(1), {}
    sc = s.pos("scale")
    return sc, dict(scale=s.cvar(s.arr([sc])[0] if False else sc) if how == "variable" else sc)

POLY = ["box", "box110", "polyhedron"]
SMOOTH = ELL3 + ["sphere"] + CYL

def check(s, S, y, how, one, tag=""):
    """one(p, kw): the constraints on the point p"""
    d = len(S.c)
    sc, kw = scaled(s, how)
    # a point that need not be in the shape: satisfiable constraints put it there
    cs = one(sc * S.world(y), kw)
    if s.sym:
        for hs, loc in parts(S): s.given_psd(cs, lambda M: cut(s, M, hs, loc(y)))
        s.ensure(tag + "satisfied only by points of the shape", S.mem(y), hyps=[s.cons(cs)])
    else:
        s.ensure(tag + "satisfied only by points of the shape", s.then(cs, lambda: S.mem(y)))
    x = on_axes(s, S, y)
    cs = one(sc * S.world(x), kw)
    def lem(M):
        for hs, loc in parts(S): sos(s, M, hs, loc(x), sc)
    s.feasible(tag + "points of the shape satisfy them", cs, hyps=[S.mem(x)], lemmas=lem)

@contract("C09", "one point", cases=[(k, h) for k in POLY + SMOOTH + ["ellipsoid1", "ellipsoid0", "ellipsoid11", "ellipsoid10", "poly2"] for h in ("default", "number", "variable")], covers=COV)
def _(s, case):
    kind, how = case
    S = sh.polyhedron(s, n=2) if kind == "poly2" else sh.make(s, kind)
    y = s.vec("y", len(S.c))
    check(s, S, y, how, lambda p, kw: S.obj.must_contain(s.cvar(p), **kw))

@contract("C09", "scale given by position", cases=["box", "ellipsoid111", "cylinder11"], covers=COV)
def _(s, kind):
    S = sh.make(s, kind); y = s.vec("y")
    check(s, S, y, "number", lambda p, kw: S.obj.must_contain(s.cvar(p), kw["scale"]))

@contract("C09", "batch of points", cases=[(k, h) for k in ["box", "polyhedron"] + SMOOTH for h in ("default", "number", "variable")], covers=COV)
def _(s, case):
    kind, how = case
    S = sh.make(s, kind); d = len(S.c)
    n = s.count("n"); Y = s.many("y", n, (d,)); sc, kw = scaled(s, how)
    loc = parts(S)
    cs = S.obj.must_contain(s.cvar(sc * (Y @ S.R.T + S.c)), **kw)
    if s.sym:
        y = s.seq_item(Y)
        for hs, f in loc: s.given_psd(cs, lambda M: cut(s, M, hs, f(y)))
        s.ensure("satisfied only when every point is in the shape", s.forall_row(Y, S.mem), hyps=[s.cons(cs)])
    else:
        s.ensure("satisfied only when every point is in the shape", s.then(cs, lambda: s.forall_row(Y, S.mem)))
    if s.sym:
        X = Y.copy()
        from engine.arr import Arr
        z = on_axes(s, S, [1] * d)
        for i in range(d):
            if type(z[i]) is not int and z[i] == 0: X[:, i] = 0
    else: X = s.arr([on_axes(s, S, y) for y in Y])
    cs = S.obj.must_contain(s.cvar(sc * (X @ S.R.T + S.c)), **kw)
    def lem(M):
        for hs, f in loc: sos(s, M, hs, f(s.seq_item(X)), sc)
    s.feasible("satisfied when every point is in the shape", cs, hyps=[s.forall_row(X, S.mem)], lemmas=lem)

@contract("C09", "few points", cases=[(k, n) for k in ["box", "polyhedron", "ellipsoid111", "ellipsoid110", "cylinder11"] for n in (1, 2)], covers=COV)
def _(s, case):
    kind, n = case
    S = sh.make(s, kind); sc = s.pos("scale")
    ys = [s.vec(f"y{i}_") for i in range(n)]; loc = parts(S)
    cs = S.obj.must_contain(s.cvar(s.arr([sc * S.world(y) for y in ys])), scale=sc)
    if s.sym:
        for y in ys:
            for hs, f in loc: s.given_psd(cs, lambda M: cut(s, M, hs, f(y)))
        s.ensure("satisfied only when every point is in the shape", s.And(*[S.mem(y) for y in ys]), hyps=[s.cons(cs)])
    else: s.ensure("satisfied only when every point is in the shape", s.then(cs, lambda: s.And(*[S.mem(y) for y in ys])))
    xs = [on_axes(s, S, y) for y in ys]
    cs = S.obj.must_contain(s.cvar(s.arr([sc * S.world(x) for x in xs])), scale=sc)
    def lem(M):
        for x in xs:
            for hs, f in loc: sos(s, M, hs, f(x), sc)
    s.feasible("satisfied when every point is in the shape", cs, hyps=[S.mem(x) for x in xs], lemmas=lem)

@contract("C09", "capsule", cases=[(k, h, n) for k in ("capsule11", "capsule01", "capsule10", "capsule00") for h, n in (("default", 0), ("number", 0), ("variable", 0), ("number", 1), ("number", 2))], covers=COV)
def _(s, case):
    kind, how, n = case
    S = sh.make(s, kind); sc, kw = scaled(s, how)
    hl = s.c(0) if S.hl is None else S.hl; r = s.c(0) if S.r is None else S.r
    m = max(n, 1)
    # the points of a capsule: within the radius of a point of its axis
    th = [s.nneg(f"th{i}") for i in range(m)]; w = [s.vec(f"w{i}_") if S.r is not None else s.zeros(3) for i in range(m)]
    if not s.sym:
        th = [x / (1 + x) for x in th]; w = [r * x / max(1.0, s.np.linalg.norm(x)) if s.rs.random() < 0.5 else x for x in w]
    for x in th: s.assume(s.le(x, s.c(1)))
    ez = s.arr([s.c(0), s.c(0), s.c(1)])
    ys = [w[i] + (2 * th[i] - 1) * hl * ez for i in range(m)]
    pts = lambda: s.cvar(s.arr([sc * S.world(y) for y in ys]) if n else sc * S.world(ys[0]))
    norm2 = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    mark = s.mark()
    cs = S.obj.must_contain(pts(), **kw)
    def wit(vs):
        vec = iter([x for i in range(m) for x in (sc * th[i] * S.world(w[i] + hl * ez), sc * (1 - th[i]) * S.world(w[i] - hl * ez))])
        num = iter([sc * t for t in th])
        out = [next(vec) if v.v.a.size == 3 else None for v in vs]
        return [s.arr([next(num)]).reshape(v.v.a.shape) if x is None else x for v, x in zip(vs, out)]
    def lem(M):
        for i in range(m):
            s.rule_mul((sc, 1 - th[i]))
            if S.r is not None: s.rule_mul((1 / (r * r), r * r - norm2(w[i])))
            for c in (sc * th[i], sc * (1 - th[i])): sos(s, M, [S.r] * 3, S.R @ w[i], c)
    s.feasible("points of the capsule satisfy them", cs, witness=wit, mark=mark, weak=sum(v.v.a.size == 3 for v in s.new_vars(mark)) != 2 * m if s.sym else None, lemmas=lem, hyps=[s.le(norm2(w[i]), r * r) for i in range(m)])
    # the converse
    ys = [s.vec(f"y{i}_") for i in range(m)]
    mark = s.mark()
    cs = S.obj.must_contain(pts(), **kw)
    if s.sym:
        vs = s.new_vars(mark); ts = [v for v in vs if v.v.a.size == 1]
        mats = [M for _, M in s.psd_mats(cs)]
        if len(ts) != m or len(mats) != 2 * m:
            from engine.alg import Unsupported
            raise Unsupported("capsule constraints of an unexpected form")
        goals = []
        for i in range(m):
            t = ts[i].v.a.flat[0]; A, B = mats[2 * i:2 * i + 2]
            for tau in [hl * (2 * t / sc - 1)]:
                v = S.R @ (ys[i] - tau * ez)
                N = A + B
                pt = s.cons([c for c in cs if not (hasattr(c, "kind") and c.kind == "psd")])
                Z = s.np.zeros((4, 4))
                for k in range(3):
                    Z[k, k] = sc * r * r; Z[k, 3] = Z[3, k] = sc * v[k]
                Z[3, 3] = sc * s.c(1)
                s.psd_add(N, A, B)
                # the row of N holding the weight comes last in Z
                q = next((q for q in range(4) if any(s.eq(A[q, q], e) is True for e in (t, sc - t))), 3)
                o = [k for k in range(4) if k != q] + [q]
                # the point equation makes N the matrix Z
                s.w.assume(s.implies(s.And(s.psd(N), *[s.eq(N[o[i_], o[j_]], Z[i_, j_]) for i_ in range(4) for j_ in range(4)]), s.psd(Z)))
                cut(s, Z, [S.r] * 3, v)
                if S.r is not None: s.rule_mul((sc / (r * r), r * r - norm2(v)), (hl / sc, t), (hl / sc, sc - t))
                else:
                    s.rule_mul((hl / sc, t), (hl / sc, sc - t), *[(sc * sc, -v[k] * v[k]) for k in range(3)])
                    s.rule_square(*[v[k] for k in range(3)])
                goals.append(s.And(s.le(norm2(v), r * r), sh.between(s, tau, hl)))
        s.ensure("satisfied only by points within the radius of the axis", s.And(*goals), hyps=[s.cons(cs)])
    else:
        s.ensure("satisfied only by points within the radius of the axis", s.then(cs, lambda: s.And(*[S.mem(y) for y in ys])))
