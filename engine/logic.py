"""Formulas, symbolic indices, paths and the prover."""
from fractions import Fraction
import itertools, os, subprocess, sys, time, math
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import alg
from .alg import S, ATOMS, Unsupported, PathEnd, is_const, is_num, lift, demote, quick_sign, of_atom, atom, toks_of

# ================================================================================ formulas
class B:
    __slots__ = ("k", "a", "_key", "_toks")
    def __init__(self, k, a):
        self.k = k; self.a = a; self._key = None; self._toks = None
    def key(self):
        if self._key is None:
            k, a = self.k, self.a
            if k == "cmp": self._key = ("c", a[0], a[1].key())
            elif k in ("and", "or"): self._key = (k,) + tuple(sorted((x.key() for x in a), key=repr_key))
            elif k == "not": self._key = ("n", a[0].key())
            elif k in ("forall", "exists"): self._key = (k, a[0].id, a[1].key())
            else: self._key = ("p",) + a[0]
        return self._key
    def __hash__(self): return hash(self.key())
    def same(self, o): return isinstance(o, B) and self.key() == o.key()
    def toks(self):
        if self._toks is None:
            k, a = self.k, self.a
            if k == "cmp": t = toks_of(a[1])
            elif k in ("and", "or"): t = frozenset().union(*[x.toks() for x in a])
            elif k == "not": t = a[0].toks()
            elif k in ("forall", "exists"): t = a[1].toks() - {a[0].id}
            else: t = a[2]
            self._toks = t
        return self._toks
    def atoms(self):
        k, a = self.k, self.a
        if k == "cmp": return a[1].atoms()
        if k in ("and", "or"): return set().union(*[x.atoms() for x in a])
        if k == "not": return a[0].atoms()
        if k in ("forall", "exists"): return a[1].atoms()
        return set(a[3]) if len(a) > 3 else set()
    def __repr__(self):
        k, a = self.k, self.a
        if k == "cmp": return f"[{a[1]!r} {dict(eq='==', le='<=', lt='<')[a[0]]} 0]"
        if k in ("and", "or"):
            r = [repr(x) for x in a[:8]] + (["..."] if len(a) > 8 else [])
            return "(" + f" {k} ".join(r) + ")"
        if k == "not": return f"not {a[0]!r}"
        if k in ("forall", "exists"): return f"{k} {a[0].name}: {a[1]!r}"
        return a[1]
    # -- operators
    def __and__(self, o): return And(self, o)
    def __rand__(self, o): return And(o, self)
    def __or__(self, o): return Or(self, o)
    def __ror__(self, o): return Or(o, self)
    def __invert__(self): return Not(self)
    def __xor__(self, o): return Not(Iff(self, tob(o)))
    def __eq__(self, o):
        if isinstance(o, (bool, B)): return Iff(self, o)
        if is_num(o): return to_num(self) == o
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)
    def __bool__(self): return WORLD().decide(self)
    # arithmetic on booleans: as 0/1
    def __add__(self, o): return to_num(self) + to_num(o)
    __radd__ = __add__
    def __mul__(self, o): return to_num(self) * to_num(o)
    __rmul__ = __mul__
    def __sub__(self, o): return to_num(self) - to_num(o)
    def __rsub__(self, o): return to_num(o) - to_num(self)
    def __lt__(self, o): return to_num(self) < to_num(o)
    def __le__(self, o): return to_num(self) <= to_num(o)
    def __gt__(self, o): return to_num(self) > to_num(o)
    def __ge__(self, o): return to_num(self) >= to_num(o)
    shape = (); ndim = 0; size = 1
    def all(self, axis=None): return self
    def any(self, axis=None): return self
    def item(self): return self
    def astype(self, t):
        from . import arr
        return arr.cast(self, t)

def repr_key(k): return repr(k)

def tob(x):
    if isinstance(x, (bool, B)): return x
    if is_num(x): return Not(cmp("eq", x, 0)) if isinstance(x, S) else x != 0
    if type(x).__name__ == "bool_": return bool(x)
    raise Unsupported(f"truth value of {type(x)}")

def to_num(x):
    if isinstance(x, bool): return int(x)
    if isinstance(x, B): return ite(x, 1, 0)
    return x

def And(*xs):
    out = []; seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)): x = And(*x)
        x = tob(x)
        if x is False: return False
        if x is True: continue
        for y in (x.a if x.k == "and" else (x,)):
            if y.key() not in seen: seen.add(y.key()); out.append(y)
    if not out: return True
    if len(out) == 1: return out[0]
    for y in out:
        n = Not(y)
        if isinstance(n, B) and n.key() in seen: return False
    return B("and", tuple(out))

def Or(*xs):
    out = []; seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)): x = Or(*x)
        x = tob(x)
        if x is True: return True
        if x is False: continue
        for y in (x.a if x.k == "or" else (x,)):
            if y.key() not in seen: seen.add(y.key()); out.append(y)
    if not out: return False
    if len(out) == 1: return out[0]
    for y in out:
        n = Not(y)
        if isinstance(n, B) and n.key() in seen: return True
    return B("or", tuple(out))

def Not(x):
    x = tob(x)
    if isinstance(x, bool): return not x
    if x.k == "not": return x.a[0]
    if x.k == "cmp":
        op, s = x.a
        if op == "le": return mkcmp("lt", -s)
        if op == "lt": return mkcmp("le", -s)
    return B("not", (x,))

def Iff(a, b):
    a = tob(a); b = tob(b)
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    if a.key() == b.key(): return True
    return And(Or(Not(a), b), Or(Not(b), a))

def Implies(a, b): return Or(Not(a), b)

def mkcmp(op, s):
    """formula s op 0"""
    s = demote(s)
    if is_const(s):
        return {"eq": s == 0, "le": s <= 0, "lt": s < 0}[op]
    q = quick_sign(s)
    if op == "eq":
        if q in ("pos", "neg"): return False
        if q == "zero" or alg.is_zero(s): return True
        c, p = alg.primitive(s)
        return B("cmp", ("eq", p))
    if op == "le":
        if q in ("npos", "neg"): return True
        if q == "pos": return False
    else:
        if q == "neg": return True
        if q in ("nneg", "pos"): return False
    if alg.is_zero(s): return op == "le"
    # canonical scaling, keeping the sense
    c = abs(Fraction(s.key()[0][1]))
    if c != 1: s = s * (1 / c)
    return B("cmp", (op, s))

def rawcmp(op, spec):
    tag, x, y, z = spec
    # x*y - z op 0 without normalisation of inverses
    s = lift(x) * lift(y) - z
    if is_const(s): return {"eq": s == 0, "le": s <= 0, "lt": s < 0}[op]
    return B("cmp", (op, s))

def cmp(op, a, b):
    if isinstance(b, Special) or isinstance(a, Special): return special_cmp(op, a, b)
    if isinstance(b, B): b = to_num(b)
    if isinstance(b, bool): b = int(b)
    if isinstance(b, float): b = exact(b)
    if isinstance(b, Special): return special_cmp(op, a, b)
    if not is_num(b): return NotImplemented
    if op in ("ge", "gt"): a, b, op = b, a, {"ge": "le", "gt": "lt"}[op]
    return mkcmp(op, a - b)

def exact(x):
    """Python/numpy float -> exact value"""
    if isinstance(x, float):
        if math.isinf(x): return INF if x > 0 else NINF
        if math.isnan(x): return UNDEF
        f = Fraction(repr(x)) if x == x else x
        return f
    return x

# ================================================================================ non-finite values
class Special:
    __slots__ = ("kind",)
    def __init__(self, kind): self.kind = kind
    def __repr__(self): return self.kind
    def __add__(self, o):
        if self.kind == "undef" or not (isinstance(o, Special) or is_num(o) or isinstance(o, bool)):
            return UNDEF if self.kind == "undef" and (isinstance(o, Special) or is_num(o)) else NotImplemented
        if isinstance(o, Special): return self if o.kind == self.kind else UNDEF
        return self
    __radd__ = __add__
    def __neg__(self): return {"inf": NINF, "-inf": INF, "undef": UNDEF}[self.kind]
    def __sub__(self, o):
        if not (isinstance(o, Special) or is_num(o)): return NotImplemented
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if isinstance(o, bool): o = int(o)
        if not (isinstance(o, Special) or is_num(o)): return NotImplemented
        if self.kind == "undef": return UNDEF
        sg = sign_of_special(o)
        if sg == 1: return self
        if sg == -1: return -self
        return UNDEF
    __rmul__ = __mul__
    def __truediv__(self, o):
        if not (isinstance(o, Special) or is_num(o)): return NotImplemented
        if isinstance(o, Special): return UNDEF
        return self * sign_or_undef(o)
    def __rtruediv__(self, o):
        if not is_num(o): return NotImplemented
        return UNDEF if self.kind == "undef" else Fraction(0)
    def __pow__(self, k):
        if self.kind == "undef": return UNDEF
        if k == 0: return 1
        if k < 0: return Fraction(0)
        return INF if (self.kind == "inf" or k % 2 == 0) else self
    def __abs__(self): return UNDEF if self.kind == "undef" else INF
    def __eq__(self, o): return special_cmp("eq", self, o)
    def __ne__(self, o): return Not(special_cmp("eq", self, o))
    def __le__(self, o): return special_cmp("le", self, o)
    def __lt__(self, o): return special_cmp("lt", self, o)
    def __ge__(self, o): return special_cmp("ge", self, o)
    def __gt__(self, o): return special_cmp("gt", self, o)
    def __hash__(self): return hash(self.kind)
    def astype(self, t): return self
    shape = (); ndim = 0; size = 1
    def key(self): return ("special", self.kind)

INF, NINF, UNDEF = Special("inf"), Special("-inf"), Special("undef")

def sign_of_special(o):
    if isinstance(o, Special): return {"inf": 1, "-inf": -1, "undef": 0}[o.kind]
    if is_const(o): return (o > 0) - (o < 0)
    return {"pos": 1, "neg": -1}.get(quick_sign(o), 0)

def sign_or_undef(o):
    s = sign_of_special(o)
    return s if s else UNDEF

def special_cmp(op, a, b):
    ra = a.kind if isinstance(a, Special) else None
    rb = b.kind if isinstance(b, Special) else None
    if ra == "undef" or rb == "undef": raise Unsupported("comparison with an undefined value")
    if ra is None and not is_num(a): return NotImplemented
    if rb is None and not is_num(b): return NotImplemented
    val = {"inf": 1, "-inf": -1, None: 0}
    x, y = val[ra], val[rb]
    return {"eq": x == y, "le": x <= y, "lt": x < y, "ge": x >= y, "gt": x > y}[op]

def div_by_zero(a):
    return UNDEF

# ================================================================================ derived scalars
def scope_guard(b):
    w = WORLD()
    if w.scope_toks and isinstance(b, B) and any(t in b.toks() for t in w.scope_toks):
        raise Unsupported("the generic iteration of a loop branches on its index")

def nonzero(b):
    """decides (forking if need be) whether b != 0"""
    if is_const(b): return b != 0
    q = quick_sign(b)
    if q in ("pos", "neg"): return True
    if len(b.d) == 1 and alg.mono_nonzero(next(iter(b.d))): return True
    f = mkcmp("eq", b)
    if isinstance(f, bool): return not f
    return not WORLD().decide(f)

def known_nonneg(e):
    if is_const(e): return e >= 0
    if quick_sign(e) in ("pos", "nneg"): return True
    return False

def _isqrt_frac(c):
    c = Fraction(c)
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator: return Fraction(n, d)
    return None

def sqrt(e, nn=False):
    if isinstance(e, Special): return e if e.kind == "inf" else UNDEF
    e = demote(e)
    if is_const(e):
        if e < 0: return UNDEF
        r = _isqrt_frac(e)
        if r is not None: return r
        # sqrt(p/q) = sqrt(p*q)/q ; pull out square factors
        c = Fraction(e); n = c.numerator * c.denominator; k = 1; f = 2
        while f * f <= n and f < 2000:
            while n % (f * f) == 0: n //= f * f; k *= f
            f += 1
        a = atom("sqrt", ("const", n), f"sqrt({n})", sign="pos", args=(Fraction(n),), facts=_sqrt_facts)
        return of_atom(a) * Fraction(k, c.denominator)
    # single monomial with even exponents and square coefficient
    if len(e.d) == 1:
        (m, c), = e.d.items()
        if all(x % 2 == 0 for _, x in m) and c > 0:
            rc = sqrt(Fraction(c))
            r = S({tuple((a, x // 2) for a, x in m): 1})
            q = quick_sign(r)
            if q in ("pos", "nneg"): return r * rc
            return absval(r) * rc
    if not nn and not known_nonneg(e):
        # pull out the square of sums?  otherwise: must be shown non-negative
        WORLD().side("square root of a non-negative number", mkcmp("le", -e))
    # factor out square content: common even powers of nonneg atoms and rational content
    c0 = abs(Fraction(e.key()[0][1]))
    common = None
    for m in e.d:
        dm = {a: x for a, x in m if ATOMS[a].sign in ("pos", "nneg")}
        common = dm if common is None else {a: min(x, dm[a]) for a, x in common.items() if a in dm}
        if not common: break
    pre = 1
    if common:
        mm = tuple(sorted((a, x - x % 2) for a, x in common.items() if x - x % 2 and (x > 0 or ATOMS[a].nz)))
        if mm:
            pre = S({tuple((a, x // 2) for a, x in mm): 1})
            e = demote(e * S({tuple((a, -x) for a, x in mm): 1}))
            if is_const(e): return pre * sqrt(e)
    a = atom("sqrt", e.key(), f"sqrt{e!r}", sign="pos" if quick_sign(e) == "pos" else "nneg", toks=toks_of(e), args=(e,), facts=_sqrt_facts)
    if nn: NNSQRT.add(a if isinstance(a, int) else a.id)
    return of_atom(a) * pre

NNSQRT = set()      # square roots of sums of squares

def _sqrt_facts(A):
    s = of_atom(A); e = A.args[0]
    out = [B("cmp", ("le", -s))]
    # s*s == e (raw, the product would normalise away): keep as a special marker handled by the encoder
    out.append(B("pred", (("sqrtdef", A.id), "sqrtdef", A.toks, (A.id,))))
    return out

def root(e, k):
    """k-th root of a number in [0, inf)"""
    e = demote(e)
    if k == 1: return e
    if k == 2: return sqrt(e)
    if is_const(e):
        if e in (0, 1): return Fraction(e)
        raise Unsupported("constant root")
    if not known_nonneg(e): WORLD().side("root of a non-negative number", mkcmp("le", -e))
    a = atom("root", (k,) + e.key(), f"root{k}{e!r}", sign="nneg", toks=toks_of(e), args=(e, k), facts=_root_facts)
    return of_atom(a)

def _root_facts(A):
    s = of_atom(A); e, k = A.args
    # s >= 0, monotone comparison with one
    return [s >= 0, Iff(cmp("le", s, 1), cmp("le", e, 1)), Iff(mkcmp("eq", s), mkcmp("eq", e))]

def absval(e):
    if isinstance(e, Special): return abs(e)
    e = demote(e)
    if is_const(e): return abs(e)
    q = quick_sign(e)
    if q in ("pos", "nneg"): return e
    if q in ("neg", "npos", "zero"): return -e
    c, p = alg.primitive(e)
    # canonical sign by primitive; strip positive known atoms when monomial
    pre = abs(c)
    if len(p.d) == 1:
        (m, cc), = p.d.items()
        known = tuple((a, x) for a, x in m if ATOMS[a].sign in ("pos", "nneg") or x % 2 == 0)
        if known:
            rest = tuple((a, x) for a, x in m if (a, x) not in known)
            return S({known: 1}) * absval(S({rest: 1})) * pre
    a = atom("abs", p.key(), f"|{p!r}|", sign="nneg", toks=toks_of(p), args=(p,), facts=_abs_facts,
             nz=False)
    return of_atom(a) * pre

def _abs_facts(A):
    s = of_atom(A); e = A.args[0]
    return [s >= 0, s >= e, s >= -e, Or(mkcmp("eq", s - e), mkcmp("eq", s + e))]

def _mm(kind, xs):
    vals = []
    for x in xs:
        if isinstance(x, Special):
            if x.kind == "undef": return UNDEF
            if (x.kind == "inf") == (kind == "max"): return x
            continue
        if isinstance(x, (bool, B)): x = to_num(x)
        x = demote(x)
        if not any((x.same(y) if isinstance(x, S) else (is_const(y) and x == y)) for y in vals): vals.append(x)
    # flatten nested
    flat = []
    for x in vals:
        if isinstance(x, S) and len(x.d) == 1:
            (m, c), = x.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == kind:
                flat.extend(ATOMS[m[0][0]].args[0]); continue
        flat.append(x)
    vals = flat
    # drop dominated elements (syntactically)
    keep = []
    for i, x in enumerate(vals):
        dom = False
        for j, y in enumerate(vals):
            if i == j: continue
            d = y - x
            q = quick_sign(d) if isinstance(d, S) else ("zero" if d == 0 else ("pos" if d > 0 else "neg"))
            if kind == "min": q = {"pos": "neg", "nneg": "npos", "neg": "pos", "npos": "nneg"}.get(q, q)
            if q == "pos" or (q in ("nneg", "zero") and (j < i or q == "nneg" and not _dominated_back(vals, i, j, kind))):
                dom = True; break
        if not dom: keep.append(x)
    vals = keep or vals[:1]
    if len(vals) == 1: return vals[0]
    vals.sort(key=lambda v: repr(v.key()) if isinstance(v, S) else repr(v))
    toks = frozenset().union(*[toks_of(v) for v in vals])
    sg = None
    signs = [quick_sign(v) for v in vals]
    if kind == "max" and any(s in ("pos",) for s in signs): sg = "pos"
    elif kind == "max" and any(s in ("nneg", "zero") for s in signs): sg = "nneg"
    elif kind == "min" and all(s == "pos" for s in signs): sg = "pos"
    elif kind == "min" and all(s in ("pos", "nneg", "zero") for s in signs): sg = "nneg"
    a = atom(kind, tuple(v.key() if isinstance(v, S) else v for v in vals), f"{kind}({', '.join(map(repr, vals))})",
             toks=toks, sign=sg, args=(tuple(vals),), facts=_mm_facts,
             sort="I" if all(alg.sort_of(v) == "I" for v in vals) else "R")
    return of_atom(a)

def _dominated_back(vals, i, j, kind): return False

def _mm_facts(A):
    s = of_atom(A); vs = A.args[0]
    out = []
    for v in vs: out.append(s >= v if A.kind == "max" else s <= v)
    out.append(Or(*[mkcmp("eq", s - v) for v in vs]))
    return [o for o in out if o is not True]

def smax(*xs): return _mm("max", xs)
def smin(*xs): return _mm("min", xs)

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    w = WORLD()
    k = w.known(c) if w else None
    if k is not None: return a if k else b
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        return Or(And(c, a), And(Not(c), b))
    if isinstance(a, Special) or isinstance(b, Special):
        return a if WORLD().decide(c) else b
    a = demote(to_num(a)); b = demote(to_num(b))
    if (isinstance(a, S) and a.same(b)) or (is_const(a) and is_const(b) and a == b): return a
    sg = None
    qa, qb = quick_sign(a), quick_sign(b)
    if qa == "pos" and qb == "pos": sg = "pos"
    elif qa in ("pos", "nneg", "zero") and qb in ("pos", "nneg", "zero"): sg = "nneg"
    at = atom("ite", (c.key(), a.key() if isinstance(a, S) else a, b.key() if isinstance(b, S) else b),
              f"ite({c!r},{a!r},{b!r})", toks=c.toks() | toks_of(a) | toks_of(b), sign=sg, args=(c, a, b), facts=_ite_facts,
              sort="I" if alg.sort_of(a) == "I" and alg.sort_of(b) == "I" else "R")
    return of_atom(at)

def _ite_facts(A):
    s = of_atom(A); c, a, b = A.args
    return [Implies(c, mkcmp("eq", s - a)), Implies(Not(c), mkcmp("eq", s - b))]

def ufun(name, *args, sign=None):
    """uninterpreted function of real arguments"""
    args = tuple(demote(to_num(a)) for a in args)
    at = atom("ufun", (name,) + tuple(a.key() if isinstance(a, S) else Fraction(a) for a in args), f"{name}({', '.join(map(repr, args))})",
              toks=frozenset().union(*[toks_of(a) for a in args]), args=(name, args), sign=sign)
    return of_atom(at)

def floordiv(a, b):
    if is_const(a) and is_const(b): return a // b
    f = a if b == 1 else alg.div(a, b)
    return floor(f)

def floor(e):
    if isinstance(e, Special): raise Unsupported("floor of a non-finite value")
    e = demote(e)
    if is_const(e): return math.floor(e)
    if alg.sort_of(e) == "I": return e
    at = atom("var", ("floor",) + e.key(), f"floor{e!r}", sort="I", toks=toks_of(e), args=("floor", e), facts=_floor_facts)
    return of_atom(at)

def _floor_facts(A):
    s = of_atom(A); e = A.args[1]
    return [s <= e, e < s + 1]

def ceil(e):
    r = floor(-e)
    return -r

def is_integer(e):
    if alg.sort_of(e) == "I": return True
    return cmp("eq", floor(e) - e, 0)

def concretize_int(s):
    s = demote(s)
    if is_const(s):
        if Fraction(s).denominator != 1: raise TypeError("not an integer")
        return int(s)
    w = WORLD()
    r = w.int_value(s)
    if r is not None: return r
    raise Unsupported(f"concrete integer needed for {s!r}")

# ================================================================================ symbolic indices
class Axis:
    """a symbolic array dimension: `length` elements, generic index `tok`"""
    _n = itertools.count()
    def __init__(self, name, length, base=None):
        self.id = next(Axis._n); self.name = name; self.length = length
        self.src = None           # filtered axis: (axis, mask, count)
        self.parts = None         # concatenation: [(axis, token) or None for a single row]
        self.tok = Tok(self, name)
        self.base = base
    def __repr__(self): return f"Axis({self.name}:{self.length!r})"

TOKS = {}
class Tok:
    _n = itertools.count()
    def __init__(self, axis, name=None, facts=()):
        self.id = next(Tok._n); self.axis = axis; self.name = f"{name or axis.name}#{self.id}"
        self.facts = list(facts)
        self.skolem = False       # witness of an existential: its range is part of the formula, not a fact
        self.mask = None          # formula selecting the indices this token ranges over (None: all of the axis)
        TOKS[self.id] = self
        self.idx = alg.var(f"i{self.id}", sort="I", sign="nneg", toks=frozenset([self.id]), key=("idx", self.id))
    def range_facts(self):
        return [self.idx < self.axis.length] if self.axis is not None and not self.skolem else []
    def __repr__(self): return self.name

class Family:
    """an indexed family of variables x(i, j, ...): `facts(entry, toks)` gives what holds of every member"""
    _n = itertools.count()
    def __init__(self, name, sort="R", sign=None, facts=None, nz=False):
        self.id = next(Family._n); self.name = name; self.sort = sort; self.sign = sign; self.facts = facts; self.nz = nz
    def at(self, toks):
        toks = tuple(_as_tok(t) for t in toks)
        a = atom("var", ("fam", self.id, tuple(_tk(t) for t in toks)), f"{self.name}({','.join(map(_tn, toks))})", sort=self.sort, sign=self.sign,
                 toks=frozenset(t.id for t in toks if isinstance(t, Tok)) | frozenset().union(*[toks_of(t) for t in toks if not isinstance(t, Tok)]),
                 args=(self, toks), facts=(lambda A: self.facts(of_atom(A), A.args[1])) if self.facts else None, nz=self.nz)
        return of_atom(a)

def _as_tok(t):
    """the index of a token is the token"""
    if isinstance(t, S) and len(t.d) == 1:
        (m, c), = t.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.kind == "var" and isinstance(A.key, tuple) and A.key[0] == "idx": return TOKS[A.key[1]]
    return t
def _tk(t): return ("t", t.id) if isinstance(t, Tok) else (t.key() if isinstance(t, S) else t)
def _tn(t): return t.name if isinstance(t, Tok) else repr(t)

class RotFamily:
    """an indexed family of rotation (or orthogonal) matrices"""
    _n = itertools.count()
    def __init__(self, name, n, special=True):
        self.id = next(RotFamily._n); self.name = name; self.n = n; self.special = special
    def at(self, toks):
        toks = tuple(_as_tok(t) for t in toks)
        tk = frozenset(t.id for t in toks if isinstance(t, Tok)) | frozenset().union(*[toks_of(t) for t in toks if not isinstance(t, Tok)])
        return alg.rotation_entries(("fam", self.name, self.id, tuple(_tk(t) for t in toks)), self.n, toks=tk, special=self.special, fam=(self, toks))

def rebuild(A, sub):
    """the value of atom A with `sub` applied to everything it is made of (None: atom is a leaf)"""
    if A.kind == "var":
        if A.args and isinstance(A.args[0], Family):
            return A.args[0].at([sub(t) if isinstance(t, S) else t for t in A.args[1]]) if any(isinstance(t, S) for t in A.args[1]) else None
        if A.args and A.args[0] == "floor": return floor(sub(A.args[1]))
        return None
    if A.kind == "rot" and A.args and any(isinstance(t, S) for t in A.args[1]):
        F, toks, i, j = A.args
        return lift(F.at([sub(t) if isinstance(t, S) else t for t in toks])[i][j])
    if A.kind in ("rot", "pi"): return None
    if A.kind == "ufun": return ufun(A.args[0], *[sub(v) for v in A.args[1]], sign=A.sign)
    if A.kind == "lam":
        from . import np_shim
        return np_shim.lam_rebuild(A, sub)
    if A.kind == "sqrt": return sqrt(sub(A.args[0]), nn=A.id in NNSQRT)
    if A.kind == "root": return root(sub(A.args[0]), A.args[1])
    if A.kind == "abs": return absval(sub(A.args[0]))
    if A.kind == "inv": 
        d = sub(A.args[0])
        if is_const(d): return UNDEF if d == 0 else 1 / Fraction(d)
        return alg.inverse(lift(d))
    if A.kind in ("max", "min"): return _mm(A.kind, [sub(v) for v in A.args[0]])
    if A.kind == "ite": return ite(sub(A.args[0]), sub(A.args[1]), sub(A.args[2]))
    if A.kind == "bigsum": return bigsum(A.args[0], sub(A.args[1]))
    raise Unsupported(f"substitution in {A.kind}")

def subst_with(x, touches, leaf, quant=None):
    """substitution engine: `touches(atom)` says whether the atom may change, `leaf(atom)` gives a replacement or None"""
    memo = {}
    def f(A):
        if not touches(A): return None
        r = leaf(A)
        if r is not None: return r
        return rebuild(A, rec)
    def rec(y):
        if isinstance(y, S): return alg.subst_atoms(y, f, memo)
        if isinstance(y, B):
            k, a = y.k, y.a
            if k == "cmp":
                n = alg.subst_atoms(a[1], f, memo)
                if n is a[1]: return y
                if isinstance(n, Special): raise Unsupported("undefined value after substitution")
                return mkcmp(a[0], n)
            if k == "and": return And(*[rec(z) for z in a])
            if k == "or": return Or(*[rec(z) for z in a])
            if k == "not": return Not(rec(a[0]))
            if k in ("forall", "exists"):
                n = rec(a[1])
                return forall(a[0], n, True) if k == "forall" else Not(forall(a[0], Not(n), True))
            raise Unsupported("substitution in predicate")
        return y
    return rec(x)

def subst_tok(x, old, new):
    """replace index token `old` by `new` (a Tok, int or S) in a scalar or formula"""
    if isinstance(x, Special) or is_const(x) or isinstance(x, bool): return x
    if isinstance(x, B) and old.id not in x.toks(): return x
    if not isinstance(x, (S, B)): raise Unsupported(f"index substitution in {type(x)}")
    def leaf(A):
        if A.kind == "var":
            if A.key == ("idx", old.id): return new.idx if isinstance(new, Tok) else new
            if A.args and isinstance(A.args[0], Family):
                return A.args[0].at([(new if t is old else (subst_tok(t, old, new) if isinstance(t, S) else t)) for t in A.args[1]])
            if A.args and A.args[0] == "floor": return None
            raise Unsupported(f"index substitution in {A}")
        if A.kind == "rot":
            F, toks, i, j = A.args
            return lift(F.at([(new if t is old else (subst_tok(t, old, new) if isinstance(t, S) else t)) for t in toks])[i][j])
        return None
    return subst_with(x, lambda A: old.id in A.toks, leaf)

_DEP = {}
def depends(a, ids):
    """does atom a involve any of the atom ids"""
    A = ATOMS[a]
    if a in ids: return True
    for x in A.args:
        if isinstance(x, (S, B)) and any(depends(y, ids) for y in x.atoms()): return True
        if isinstance(x, tuple):
            for v in x:
                if isinstance(v, (S, B)) and any(depends(y, ids) for y in v.atoms()): return True
    return False

def subst_vars(x, mp):
    """replace atoms (by id) by scalars"""
    if isinstance(x, (bool, Special)) or is_const(x): return x
    ids = set(mp); memo = {}
    def touches(A):
        if A.id not in memo: memo[A.id] = depends(A.id, ids)
        return memo[A.id]
    return subst_with(x, touches, lambda A: mp.get(A.id))

def forall(tok, b, explicit=False):
    """explicit: the selection of a filtered index is already part of b"""
    w = WORLD()
    if tok.mask is not None and not explicit: b = Or(Not(tok.mask), b)
    if isinstance(b, bool):
        return b if b else Or(False, mkcmp("le", tok.axis.length))
    if tok.id not in b.toks(): return Or(b, mkcmp("le", tok.axis.length))
    if w: w.check_taint(tok)
    if tok.axis.parts is not None: return And(*[forall(nt, y) if nt is not None else y for nt, y in cat_parts(tok, b)])
    if b.k == "and" and all(isinstance(y, B) and tok.id in y.toks() for y in b.a): return And(*[forall(tok, y, True) for y in b.a])
    return B("forall", (tok, b))

def clone_tok(t, name=None):
    """a token with the same range and the same facts"""
    n = Tok(t.axis, name or t.axis.name)
    n.facts = [subst_tok(f, t, n) for f in t.facts]
    if t.mask is not None: n.mask = subst_tok(t.mask, t, n)
    return n

class CatFamily(Family):
    """entries of a concatenation: exprs[j] is the entry of part j in terms of that part's token"""
    def __init__(self, axis, exprs):
        Family.__init__(self, f"cat{axis.id}")
        self.axis = axis; self.exprs = exprs

def cat_entry(axis, exprs):
    """entry of a concatenated axis"""
    w = WORLD()
    k0 = [e.key() if isinstance(e, S) else e for e in exprs]
    if all(is_const(e) for e in exprs) and all(e == exprs[0] for e in exprs): return exprs[0]
    if any(isinstance(e, (B, bool, Special)) for e in exprs): raise Unsupported("concatenation of non-numeric entries along a symbolic axis")
    d = w.__dict__.setdefault("cats", {})
    k = (axis.id, tuple(k0))
    if k not in d: d[k] = CatFamily(axis, list(exprs))
    return d[k].at([axis.tok])

def cat_subst(x, tok, j, nt):
    """x at an index of part j (nt: token of that part)"""
    axis = tok.axis
    def leaf(A):
        if A.kind == "var" and A.args and isinstance(A.args[0], CatFamily) and A.args[0].axis is axis and A.args[1][0] is tok:
            e = A.args[0].exprs[j]
            p = axis.parts[j]
            return lift(e if p is None or is_const(e) else subst_tok(e, p[1], nt))
        if A.kind in ("var", "rot"): raise Unsupported("position-dependent entry of a concatenation")
        return None
    if isinstance(x, (bool, Special)) or is_const(x) or tok.id not in (x.toks() if isinstance(x, B) else toks_of(x)): return x
    return subst_with(x, lambda A: tok.id in A.toks, leaf)

def cat_parts(tok, x):
    """[(token, x at the generic index of the part)] of a concatenated axis"""
    w = WORLD()
    d = w.__dict__.setdefault("cattoks", {})
    out = []
    for j, p in enumerate(tok.axis.parts):
        nt = None
        if p is not None:
            nt = d.get((tok.id, j))
            if nt is None: nt = d[(tok.id, j)] = clone_tok(p[1])
        out.append((nt, cat_subst(x, tok, j, nt)))
    return out

def exists(tok, b):
    return Not(forall(tok, Not(b)))

def bigsum(axis, e):
    """sum over the axis of the generic element e"""
    e = demote(e) if not isinstance(e, (B, bool)) else to_num(e)
    if isinstance(e, Special): return UNDEF
    w = WORLD()
    tid = axis.tok.id
    if is_const(e) or tid not in toks_of(e): return e * axis.length
    if w: w.check_taint(axis.tok)
    if axis.parts is not None:
        tot = 0
        for p, (nt, y) in zip(axis.parts, cat_parts(axis.tok, e)):
            if p is not None:
                if not p[0].canon: raise Unsupported("sum over a filtered axis")
                y = bigsum(p[0], subst_tok(y, nt, p[0].tok) if not is_const(y) else y)
            tot = tot + y
        return demote(tot)
    parts = {}
    for m, c in e.d.items():
        dep = tuple((a, x) for a, x in m if tid in ATOMS[a].toks)
        ind = tuple((a, x) for a, x in m if tid not in ATOMS[a].toks)
        parts.setdefault(dep, {})[ind] = c
    tot = 0
    for dep, ind in parts.items():
        if not dep: t = axis.length
        else:
            body = S({dep: 1})
            q = quick_sign(body)
            a = atom("bigsum", (axis.id, dep), f"Sum[{axis.name}]{body!r}", toks=toks_of(body) - {tid}, args=(axis, body),
                     sign="pos" if q == "pos" and (axis.length > 0 if is_const(axis.length) else quick_sign(axis.length) == "pos")
                     else "nneg" if q in ("pos", "nneg") else None)
            t = of_atom(a)
        tot = tot + S(ind) * t
    return demote(tot)

# ================================================================================ the world (one path)
_W = [None]
def WORLD(): return _W[0]

class Stats:
    def __init__(self):
        self.solver_s = 0.0; self.calls = 0; self.backends = {}; self.linear = False
    def add(self, be, n=1): self.backends[be] = self.backends.get(be, 0) + n

class Refuted(Exception): pass
class Peek(Exception): pass

class World:
    def __init__(self, prefix=(), stats=None, feas_ms=300, prove_ms=5000, deadline=None):
        self.prefix = list(prefix); self.decisions = []; self.alts = []
        self.pc = []; self.known_keys = {}
        self.stats = stats or Stats()
        self.feas_ms = feas_ms; self.prove_ms = prove_ms
        self.counters = {}
        self.sides = []
        self.scope_toks = []
        self.deadline = deadline
        self.tainted = set()
        self.int_bounds = {}
        self.log = []
        self.peek = False
        self.loops = []; self.accs = {}; self.loop_obl = []
    def fresh(self, name):
        n = self.counters.get(name, 0); self.counters[name] = n + 1
        return f"{name}" if n == 0 else f"{name}'{n}"
    # -- path condition
    def add(self, b):
        if b is True: return
        if b is False: raise PathEnd("infeasible")
        if b.k == "and":
            for y in b.a: self.add(y)
            return
        if b.key() in self.known_keys: 
            if self.known_keys[b.key()] is True: return
        self.pc.append(b)
        self.known_keys[b.key()] = True
        n = Not(b)
        if isinstance(n, B): self.known_keys[n.key()] = False
        self.tainted |= b.toks()
    def known(self, b):
        return self.known_keys.get(b.key())
    def assume(self, b):
        b = tob(b)
        t = set(self.tainted)
        self.add(b)
    def check_taint(self, tok):
        if tok.id in self.tainted:
            raise Unsupported(f"aggregation over an index the path condition has split on ({tok})")
    def decide(self, b):
        if isinstance(b, bool): return b
        k = self.known(b)
        if k is not None: return k
        if self.peek: raise Peek()
        if self.scope_toks and any(t in b.toks() for t in self.scope_toks):      # must come out the same for every index
            key = ("scope", b.key())
            if key not in self.known_keys:
                if self.sat([b], self.feas_ms) == "unsat": self.known_keys[key] = False
                elif self.sat([Not(b)], self.feas_ms) == "unsat": self.known_keys[key] = True
                else: scope_guard(b)
            return self.known_keys[key]
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget of this contract exhausted")
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            nb = Not(b)
            st = self.sat([b], self.feas_ms)
            if st == "unsat": v = False
            else:
                sf = self.sat([nb], self.feas_ms)
                if sf == "unsat": v = True
                else:
                    v = True
                    self.alts.append(self.decisions + [False])
                    if len(self.decisions) > 60: raise Unsupported("too many path decisions")
        self.decisions.append(v)
        self.add(b if v else Not(b))
        return v
    def int_value(self, s):
        """value of s when the path condition determines it"""
        for b in self.pc:
            if b.k == "cmp" and b.a[0] == "eq":
                d = b.a[1] - s
                if is_const(d): return None if Fraction(-d).denominator != 1 else int(-d)
                d = b.a[1] + s
                if is_const(d): return int(d) if Fraction(d).denominator == 1 else None
        return None
    # -- side conditions raised by the semantics (e.g. argument of sqrt)
    def side(self, what, b):
        if b is True: return
        if b is not False:
            k = self.known(b)
            if k: return
            if self.prove(b, quick=True)[0] == "proved":
                return
        self.sides.append((what, b))
    # -- solving
    def sat(self, fs, ms):
        r = solve(self.pc + fs, ms=ms, nonlinear=False, stats=self.stats)
        return r[0]
    def prove(self, goal, quick=False, hyps=()):
        """('proved'|'refuted'|'unknown', backend, model)"""
        goal = tob(goal)
        if goal is True: return ("proved", "normal-form", None)
        if goal is not False and self.known(goal): return ("proved", "path", None)
        return prove(self.pc + list(hyps), goal, ms=self.prove_ms if not quick else min(self.prove_ms, 1500), stats=self.stats)

def gather(fs):
    """transitive closure of atoms and facts"""
    seen = set(); facts = []; todo = []; fkeys = set(); toks = set(); btoks = set()
    def push_b(f, bound=False):
        for a in f.atoms(): todo.append(a)
        for t in f.toks():
            (push_bound if bound else push_t)(t)
    def push_t(t):
        if t in toks: return
        toks.add(t)
        T = TOKS[t]
        for f in T.facts + T.range_facts(): addf(f)
    def push_bound(t):
        """an index that occurs under a binder: its range may be empty"""
        if t in toks or t in btoks: return
        btoks.add(t)
        T = TOKS[t]
        if T.mask is not None or T.axis is None or T.skolem: return
        n = T.axis.length
        empty = False if (n > 0 if is_const(n) else quick_sign(n) == "pos") else mkcmp("le", n if isinstance(n, S) else lift(n))
        for f in T.facts + T.range_facts(): addf(Or(empty, f), True)
    def addf(f, bound=False):
        if isinstance(f, bool):
            if f is False: facts.append(False)
            return
        k = f.key()
        if k in fkeys: return
        fkeys.add(k); facts.append(f); push_b(f, bound)
    for f in fs:
        if isinstance(f, B): push_b(f)
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        A = ATOMS[a]
        if A.facts_fn:
            for f in A.facts_fn(A): addf(f, True)
        for x in A.args:
            if isinstance(x, (S, B)): todo.extend(x.atoms())
            elif isinstance(x, tuple):
                for v in x:
                    if isinstance(v, (S, B)): todo.extend(v.atoms())
        for t in A.toks: push_bound(t)
        if len(seen) > 3000: raise Unsupported("formula too large")
    return seen, facts, toks

class Enc:
    def __init__(self, nonlinear):
        self.nl = nonlinear
        self.v = {}; self.m = {}; self.extra = []; self.p = {}; self.iv = {}
    def atom(self, a):
        r = self.v.get(a)
        if r is None:
            A = ATOMS[a]
            r = (z3.Int if A.sort == "I" else z3.Real)(f"a{a}")
            self.v[a] = r
            if A.sign == "pos": self.extra.append(r > 0)
            elif A.sign == "nneg": self.extra.append(r >= 0)
            if A.nz and A.sign != "pos": self.extra.append(r != 0)
            if A.kind == "rot" and not self.nl:
                self.extra.append(r <= 1); self.extra.append(r >= -1)
        return r
    def inv_of(self, a):
        r = self.iv.get(a)
        if r is None:
            r = z3.Real(f"inv_a{a}")
            self.iv[a] = r
            x = self.atom(a)
            if self.nl: self.extra.append(r * x == 1)
            A = ATOMS[a]
            if A.sign == "pos": self.extra.append(r > 0)
        return r
    def mono(self, m):
        if not m: return None
        if len(m) == 1 and m[0][1] == 1:
            x = self.atom(m[0][0])
            return z3.ToReal(x) if x.is_int() else x
        r = self.m.get(m)
        if r is not None: return r
        if self.nl:
            r = None
            for a, e in m:
                x = self.atom(a)
                if x.is_int(): x = z3.ToReal(x)
                if e < 0: x = self.inv_of(a); e = -e
                for _ in range(e): r = x if r is None else r * x
        else:
            r = z3.Real(f"m{len(self.m)}_" + "_".join(f"{a}^{e}" for a, e in m))
            q = quick_sign(S({m: 1}))
            if q == "pos": self.extra.append(r > 0)
            elif q == "nneg": self.extra.append(r >= 0)
            for a, e in m: self.atom(a)
        self.m[m] = r
        return r
    def poly(self, s):
        ts = []
        for m, c in s.d.items():
            c = Fraction(c)
            cv = z3.RealVal(f"{c.numerator}/{c.denominator}")
            x = self.mono(m)
            ts.append(cv if x is None else (x if c == 1 else cv * x))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def int_poly(self, s):
        """integer encoding of a polynomial in integer atoms, scaled to integer coefficients"""
        L = 1
        for m, c in s.d.items():
            for a, e in m:
                if e < 0 or ATOMS[a].sort != "I": return None
            if len(m) > 1 or (m and m[0][1] > 1): return None
            L = math.lcm(L, Fraction(c).denominator)
        ts = []
        for m, c in s.d.items():
            c = int(Fraction(c) * L)
            ts.append(z3.IntVal(c) if not m else (self.atom(m[0][0]) if c == 1 else c * self.atom(m[0][0])))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def enc(self, f):
        if isinstance(f, bool): return z3.BoolVal(f)
        k, a = f.k, f.a
        if k == "cmp":
            p = self.int_poly(a[1])
            if p is not None:
                return p == 0 if a[0] == "eq" else (p <= 0 if a[0] == "le" else p <= -1)
            p = self.poly(a[1])
            return p == 0 if a[0] == "eq" else (p <= 0 if a[0] == "le" else p < 0)
        if k == "and": return z3.And([self.enc(x) for x in a])
        if k == "or": return z3.Or([self.enc(x) for x in a])
        if k == "not": return z3.Not(self.enc(a[0]))
        if k == "pred":
            if a[0][0] == "sqrtdef":
                A = ATOMS[a[0][1]]
                if not self.nl: return z3.BoolVal(True)
                e = A.args[0]
                return self.atom(A.id) * self.atom(A.id) == (self.poly(e) if isinstance(e, S) else z3.RealVal(str(Fraction(e))))
            key = f.key()
            if key not in self.p: self.p[key] = z3.Bool(f"p{len(self.p)}")
            return self.p[key]
        if k in ("forall", "exists"):
            key = f.key()
            if key not in self.p: self.p[key] = z3.Bool(f"q{len(self.p)}")
            return self.p[key]
        raise Unsupported(k)

def quantifier_expand(fs):
    """skolemise existentials (negated foralls) and instantiate universals; returns ground-ish list"""
    out = []
    univ = []
    skolem = []; sk = {}
    def nnf(f, pos):
        if isinstance(f, bool): return f if pos else not f
        k, a = f.k, f.a
        if k == "not": return nnf(a[0], not pos)
        if k in ("and", "or"):
            isand = (k == "and") == pos
            parts = [nnf(x, pos) for x in a]
            return And(*parts) if isand else Or(*parts)
        if k == "forall":
            if pos: return f
            t = a[0]
            key = ("sk", f.key())
            nt = sk.get(key)
            if nt is None:
                nt = sk[key] = Tok(t.axis, t.axis.name + "*")
                nt.skolem = True
                skolem.append(nt)
            return And(mkcmp("lt", nt.idx - t.axis.length), *[nnf(subst_tok(f_, t, nt), True) for f_ in t.facts], nnf(subst_tok(a[1], t, nt), False))
        return f if pos else Not(f)
    def has_q(f):
        if isinstance(f, bool): return False
        if f.k in ("forall", "exists"): return True
        if f.k in ("and", "or", "not"): return any(has_q(x) for x in f.a)
        return False
    if not any(has_q(f) for f in fs): return list(fs)
    fs = [nnf(f, True) for f in fs]
    # instantiate universals at all tokens of the same axis; instances may bring new skolem tokens (bounded rounds)
    toks = {}
    for f in fs:
        if isinstance(f, B):
            for t in sorted(f.toks()): toks[t] = TOKS[t]
    def inst(f, depth=0):
        if isinstance(f, bool): return f
        if f.k == "forall":
            t = f.a[0]
            ins = [inst(nnf(subst_tok(f.a[1], t, nt), True), depth + 1) for nt in list(toks.values()) if nt.axis is t.axis and nt is not t]
            if t.id in toks: ins.append(inst(nnf(f.a[1], True), depth + 1))
            return And(f, *ins) if ins else f
        if f.k in ("and",): return And(*[inst(x, depth) for x in f.a])
        if f.k in ("or",): return Or(*[inst(x, depth) for x in f.a])
        return f
    res = fs
    for rnd in range(3):
        for nt in skolem: toks[nt.id] = nt
        n = len(skolem)
        res = [inst(f) for f in fs]
        if len(skolem) == n: break
    return res

def has_q(f):
    if isinstance(f, bool): return False
    if f.k in ("forall", "exists"): return True
    if f.k in ("and", "or", "not"): return any(has_q(x) for x in f.a)
    return False

def ground(fs):
    """fs plus every fact about the atoms and indices in it, with quantifiers skolemised / instantiated jointly"""
    fs = [f for f in fs if f is not True]
    if any(f is False for f in fs): return None, None
    atoms, facts, toks = gather([f for f in fs if isinstance(f, B)])
    facts = [f for f in facts if f is not True]
    if any(f is False for f in facts): return None, None
    if not any(has_q(f) for f in fs + facts): return fs, facts
    # two passes: instances bring new atoms, whose facts may bring new indices
    for rnd in range(2):
        n = len(fs)
        ex = quantifier_expand(fs + facts)
        if any(f is False for f in ex): return None, None
        atoms, facts2, toks = gather([f for f in ex if isinstance(f, B)])
        facts2 = [f for f in facts2 if f is not True]
        if any(f is False for f in facts2): return None, None
        known = {f.key() for f in facts}
        if all(f.key() in known for f in facts2): return ex, []
        if rnd == 0 and any(has_q(f) and f.key() not in known for f in facts2): facts = facts2; continue
        facts2 = quantifier_expand([f for f in facts2 if f.key() not in known])
        if any(f is False for f in facts2): return None, None
        return ex, facts2
    return ex, facts2

def solve(fs, ms, nonlinear, stats=None, want_model=False):
    t0 = time.time()
    try:
        fs, facts = ground(fs)
        if fs is None: return ("unsat", None)
        E = Enc(nonlinear)
        s = z3.Solver() if not nonlinear else z3.Solver()
        s.set("timeout", int(ms))
        cons = [E.enc(f) for f in fs if not isinstance(f, bool)] + [E.enc(f) for f in facts]
        if nonlinear:
            done = set()
            for a in list(E.v):
                A = ATOMS[a]
                if A.kind == "rot" and A.group not in done:
                    done.add(A.group)
                    cons.extend(rot_facts(E, A.group))
        # encoding may have registered extra facts (iterate: extras only use encoded atoms)
        s.add(*cons); s.add(*E.extra)
        r = s.check()
        st = "sat" if r == z3.sat else ("unsat" if r == z3.unsat else "unknown")
        model = None
        if st == "sat" and not nonlinear and stats is not None:
            stats.linear = not E.m and not E.iv and not any(ATOMS[a].kind in ("rot", "sqrt") for a in E.v)
        if st == "sat" and want_model:
            m = s.model(); model = {}
            for a, v in E.v.items():
                val = m.eval(v, model_completion=True)
                model[a] = _z3num(val)
        if st == "unknown" and want_model == "smt2":
            model = s.to_smt2()
        return (st, model)
    finally:
        if stats is not None:
            stats.solver_s += time.time() - t0; stats.calls += 1

def _z3num(val):
    try:
        if z3.is_int_value(val): return val.as_long()
        if z3.is_rational_value(val): return Fraction(val.numerator_as_long(), val.denominator_as_long())
        if z3.is_algebraic_value(val):
            v = val.approx(20); return Fraction(v.numerator_as_long(), v.denominator_as_long())
    except Exception: pass
    return None

def rot_facts(E, group):
    blk = alg.BLOCKS[group]; n = blk["n"]; ids = blk["ids"]
    R = [[E.atom(ids[i * n + j]) for j in range(n)] for i in range(n)]
    out = []
    for i in range(n):
        for j in range(i, n):
            out.append(z3.Sum([R[i][k] * R[j][k] for k in range(n)]) == (1 if i == j else 0))
            out.append(z3.Sum([R[k][i] * R[k][j] for k in range(n)]) == (1 if i == j else 0))
    if n == 2 and blk["special"]:
        out += [R[0][0] == R[1][1], R[0][1] == -R[1][0]]
    return out

def ites_in(fs):
    out = []
    seen = set()
    def walk(a):
        if a in seen: return
        seen.add(a)
        A = ATOMS[a]
        if A.kind == "ite": out.append(A)
        for x in A.args:
            if isinstance(x, S):
                for y in x.atoms(): walk(y)
            elif isinstance(x, B):
                for y in x.atoms(): walk(y)
            elif isinstance(x, tuple):
                for v in x:
                    if isinstance(v, S):
                        for y in v.atoms(): walk(y)
    for f in fs:
        if isinstance(f, B):
            for a in f.atoms(): walk(a)
    return out

def assign_cond(f, key, val):
    """replace ite atoms whose condition has the given key by the chosen branch"""
    memo = {}
    def g(A):
        if A.kind == "ite":
            c, a, b = A.args
            k = c.key()
            if k == key: return rec(a if val else b)
            na, nb = rec(a), rec(b)
            nc = assign_cond(c, key, val)
            return ite(nc, na, nb) if not (na is a and nb is b and nc is c) else None
        if not any(isinstance(x, (S, B, tuple)) for x in A.args): return None
        if A.kind == "sqrt": 
            n = rec(A.args[0]); return None if n is A.args[0] else sqrt(n)
        if A.kind == "abs":
            n = rec(A.args[0]); return None if n is A.args[0] else absval(n)
        if A.kind == "root":
            n = rec(A.args[0]); return None if n is A.args[0] else root(n, A.args[1])
        if A.kind == "inv":
            n = rec(A.args[0]); return None if n is A.args[0] else alg.div(1, n)
        if A.kind == "ufun":
            ns = [rec(v) for v in A.args[1]]
            return None if all(x is y for x, y in zip(ns, A.args[1])) else ufun(A.args[0], *ns, sign=A.sign)
        if A.kind in ("max", "min"):
            ns = [rec(v) for v in A.args[0]]
            return None if all(x is y for x, y in zip(ns, A.args[0])) else _mm(A.kind, ns)
        return None
    def rec(s):
        return alg.subst_atoms(s, g, memo) if isinstance(s, S) else s
    if isinstance(f, S): return rec(f)
    if isinstance(f, bool) or not isinstance(f, B): return f
    if f.key() == key: return val
    k, a = f.k, f.a
    if k == "cmp":
        n = rec(a[1]); return f if n is a[1] else mkcmp(a[0], n)
    if k == "and": return And(*[assign_cond(x, key, val) for x in a])
    if k == "or": return Or(*[assign_cond(x, key, val) for x in a])
    if k == "not": return Not(assign_cond(a[0], key, val))
    return f

USE_CVC5 = True
def prove(hyps, goal, ms=5000, stats=None, depth=0):
    goal = tob(goal)
    if goal is True: return ("proved", "normal-form", None)
    if isinstance(goal, B) and goal.k == "and":
        be = "normal-form"; worst = None
        for g in goal.a:
            r = prove(hyps, g, ms, stats, depth)
            if r[0] == "refuted": return r
            if r[0] != "proved": worst = r
            elif r[1] != "normal-form": be = r[1]
        return worst or ("proved", be, None)
    # equalities: ring normal form decided them already unless hypotheses matter
    # case split on if-then-else values in the goal
    if depth < 10 and isinstance(goal, B):
        its = ites_in([goal])
        if its:
            # innermost condition first
            its.sort(key=lambda A: len(ites_in([A.args[0]])))
            c = its[0].args[0]
            res = []
            for val in (True, False):
                h = c if val else Not(c)
                hs = hyps + [h]
                if solve(hs, 300, False, stats)[0] == "unsat": continue
                g = assign_cond(goal, c.key(), val)
                hs2 = [assign_cond(x, c.key(), val) for x in hyps] + [h]
                r = prove(hs2, g, ms, stats, depth + 1)
                if r[0] == "refuted": return r
                res.append(r)
            for r in res:
                if r[0] != "proved": return r
            return ("proved", next((r[1] for r in res if r[1] != "normal-form"), "normal-form+case-split"), None)
    neg = Not(goal)
    r = solve(hyps + [neg], min(ms, 3000), False, stats, want_model=True)
    if r[0] == "unsat": return ("proved", "z3-lra", None)
    lin_model = r[1]
    if r[0] == "sat" and stats is not None and stats.linear: return ("refuted", "z3-lra", r[1])
    if has_nonlinear(hyps + [neg]) or True:
        r = solve(hyps + [neg], ms, True, stats, want_model=True)
        if r[0] == "unsat": return ("proved", "z3-nra", None)
        if r[0] == "sat": return ("refuted", "z3-nra", r[1])
        if USE_CVC5 and ms >= 2000:
            r2 = cvc5_check(hyps + [neg], ms, stats)
            if r2 == "unsat": return ("proved", "cvc5", None)
    # an equality whose normal form is a non-zero polynomial, with no equality hypotheses about its atoms, is false
    if isinstance(goal, B) and goal.k == "cmp" and goal.a[0] == "eq" and not any(has_eq(h) for h in hyps):
        return ("refuted", "normal-form", lin_model)
    return ("unknown", "timeout", lin_model)

def has_eq(h):
    if isinstance(h, bool): return False
    if h.k == "cmp": return h.a[0] == "eq"
    if h.k in ("and", "or"): return any(has_eq(x) for x in h.a)
    if h.k == "not": return False
    return True

def has_nonlinear(fs): return True

def cvc5_check(fs, ms, stats):
    import shutil, tempfile
    if not shutil.which("cvc5"): return "unknown"
    t0 = time.time()
    try:
        fs, facts = ground(fs)
        if fs is None: return "unsat"
        E = Enc(True); s = z3.Solver()
        cons = [E.enc(f) for f in fs] + [E.enc(f) for f in facts]
        done = set()
        for a in list(E.v):
            A = ATOMS[a]
            if A.kind == "rot" and A.group not in done:
                done.add(A.group); cons.extend(rot_facts(E, A.group))
        s.add(*cons); s.add(*E.extra)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(ms)}", "-"], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
        o = p.stdout.strip().splitlines()
        return o[0] if o else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        if stats is not None: stats.solver_s += time.time() - t0; stats.calls += 1
