"""Exact scalar algebra: Laurent polynomials with rational coefficients over interned atoms.

Every number the symbolically executed program computes is an int, a Fraction or an `S`.  `S` is kept in normal form:
rotation-matrix entries are reduced modulo the Groebner basis of the ideal of SO(n), squares of square roots and of
absolute values are replaced by their arguments, so two equal expressions built from these atoms are (after clearing
`inv` atoms, see `is_zero`) the same polynomial.
"""
from fractions import Fraction
import math

class Unsupported(Exception):
    """The code left the subset the engine can reason about (a tool limit, never a violation)."""

class PathEnd(Exception):
    """The current path ends here without an outcome (loop back edge, infeasible, ...)."""

ATOMS = []          # id -> Atom
_BYKEY = {}

class Atom:
    __slots__ = ("id", "kind", "key", "sort", "toks", "sign", "args", "name", "facts_fn", "group", "nz")
    def __repr__(self): return self.name

def atom(kind, key, name, sort="R", toks=frozenset(), sign=None, args=(), facts=None, group=None, nz=False):
    k = (kind, key)
    a = _BYKEY.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS); a.kind = kind; a.key = key; a.sort = sort; a.toks = frozenset(toks)
        a.sign = sign; a.args = args; a.name = name; a.facts_fn = facts; a.group = group
        a.nz = nz or sign == "pos"
        ATOMS.append(a); _BYKEY[k] = a
    return a

def reset_atoms():
    ATOMS.clear(); _BYKEY.clear(); _MM.clear(); BLOCKS.clear(); _INTERN.clear()

def norm(c):
    """int when integral inside S coefficients."""
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c

# ---------------------------------------------------------------------------------------------- rotation blocks
BLOCKS = {}     # block key -> dict with n, ids (list of atom ids row-major), gb, memo
_GB = {}

def _gb(n, special):
    k = (n, special)
    if k in _GB: return _GB[k]
    import sympy as sp
    v = sp.symbols(f"r0:{n*n}")
    R = sp.Matrix(n, n, v)
    eqs = list(R * R.T - sp.eye(n)) + list(R.T * R - sp.eye(n))
    if special:
        eqs += list(R.cofactor_matrix() - R) + [R.det() - 1]
    eqs = [sp.expand(e) for e in eqs if sp.expand(e) != 0]
    G = sp.groebner(eqs, *v, order="grevlex")
    out = []
    for g in G.exprs:
        p = sp.Poly(g, *v, domain="QQ")
        terms = p.terms(order="grevlex")
        lm, lc = terms[0]
        rest = [(m, Fraction(int(c.p), int(c.q)) / Fraction(int(lc.p), int(lc.q))) for m, c in terms[1:]]
        out.append((tuple(lm), [(tuple(m), -c) for m, c in rest]))
    _GB[k] = out
    return out

def _reduce_exp(block, exp):
    """normal form of the monomial `exp` (exponent tuple) as dict exp->coef"""
    memo = block["memo"]
    r = memo.get(exp)
    if r is not None: return r
    for lm, tail in block["gb"]:
        if all(a <= b for a, b in zip(lm, exp)):
            q = tuple(b - a for a, b in zip(lm, exp))
            res = {}
            for m, c in tail:
                e2 = tuple(a + b for a, b in zip(m, q))
                for e3, c3 in _reduce_exp(block, e2).items():
                    v = res.get(e3, 0) + c * c3
                    if v == 0: res.pop(e3, None)
                    else: res[e3] = v
            memo[exp] = res
            return res
    memo[exp] = {exp: 1}
    return memo[exp]

def rotation_entries(key, n, toks=frozenset(), special=True, fam=None):
    """n x n list of lists of S/ints forming a generic rotation matrix (fam: the family and indices it is a member of)"""
    if n == 1 and special:
        return [[1]]
    bk = ("rot", key, special)
    if bk not in BLOCKS:
        ids = []
        for i in range(n):
            for j in range(n):
                a = atom("rot", (bk, i, j), f"{key}[{i},{j}]", toks=toks, group=bk, **(dict(args=fam + (i, j)) if fam else {}))
                ids.append(a.id)
        BLOCKS[bk] = dict(n=n, ids=ids, pos={x: k for k, x in enumerate(ids)}, gb=_gb(n, special), memo={}, special=special)
    ids = BLOCKS[bk]["ids"]
    return [[S({((ids[i * n + j], 1),): 1}) for j in range(n)] for i in range(n)]

# ---------------------------------------------------------------------------------------------- monomials
_MM = {}        # raw monomial -> None (already normal) | S-dict
_INTERN = {}
_MISS = object()

def _merge(m1, m2):
    if not m1: return m2
    if not m2: return m1
    i = j = 0
    out = []
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]; b, f = m2[j]
        if a == b:
            if e + f: out.append((a, e + f))
            i += 1; j += 1
        elif a < b:
            out.append(m1[i]); i += 1
        else:
            out.append(m2[j]); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)

def _reduce_mono(m):
    """None if m is normal, else an S equal to it"""
    r = _MM.get(m, _MISS)
    if r is not _MISS: return r
    # rotation blocks
    groups = {}
    for a, e in m:
        A = ATOMS[a]
        if A.kind == "rot":
            groups.setdefault(A.group, []).append((a, e))
    changed = False
    acc = S({(): 1})
    rest = []
    for a, e in m:
        A = ATOMS[a]
        k = A.kind
        if k == "rot":
            continue
        if k == "sqrt" and (e >= 2 or e < 0):
            changed = True
            arg = A.args[0]
            q, r_ = divmod(e, 2)      # e = 2q + r_, r_ in {0,1}
            acc = acc * (arg ** q if q else 1)
            if r_: rest.append((a, 1))
        elif k == "abs" and e >= 2:
            changed = True
            acc = acc * A.args[0] ** (2 * (e // 2))
            if e % 2: rest.append((a, 1))
        elif k == "root" and e >= A.args[1]:
            changed = True
            q, r_ = divmod(e, A.args[1])
            acc = acc * A.args[0] ** q
            if r_: rest.append((a, r_))
        elif k == "inv" and e < 0:
            changed = True
            acc = acc * A.args[0] ** (-e)
        else:
            rest.append((a, e))
    rotred = []
    for g, lst in groups.items():
        blk = BLOCKS[g]
        exp = [0] * len(blk["ids"])
        for a, e in lst: exp[blk["pos"][a]] = e
        exp = tuple(exp)
        nf = _reduce_exp(blk, exp)
        if nf == {exp: 1}:
            rest.extend(lst)
        else:
            changed = True
            d = {}
            for ex, c in nf.items():
                d[tuple((blk["ids"][k], e) for k, e in enumerate(ex) if e)] = norm(c)
            rotred.append(S(d))
    if not changed:
        _MM[m] = None
        return None
    rest.sort()
    out = S({tuple(rest): 1}) * acc
    for p in rotred: out = out * p
    if not isinstance(out, S): out = S({(): out}) if out != 0 else S({})
    _MM[m] = out
    return out

def lift(x):
    """number -> S (not demoted)"""
    if isinstance(x, S): return x
    if isinstance(x, bool): x = int(x)
    if isinstance(x, (int, Fraction)):
        return S({(): norm(x)}) if x != 0 else S({})
    raise TypeError(f"not a scalar: {type(x)} {x!r}")

def is_num(x):
    return isinstance(x, (int, Fraction, S)) and not isinstance(x, bool)

def is_const(x):
    return isinstance(x, (int, Fraction))

def demote(s):
    if isinstance(s, S):
        d = s.d
        if not d: return Fraction(0)
        if len(d) == 1 and () in d: return Fraction(d[()])
    return s

WORLD = None   # set by logic

class S:
    __slots__ = ("d", "_h")
    __array_priority__ = 1000
    def __init__(self, d):
        self.d = d; self._h = None
    # -- structure
    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.d.items(), key=lambda kv: kv[0]))
        return self._h
    def __hash__(self): return hash(self.key())
    def atoms(self):
        out = set()
        for m in self.d:
            for a, e in m: out.add(a)
        return out
    def same(self, o):
        return isinstance(o, S) and self.d == o.d
    def __repr__(self):
        if not self.d: return "0"
        ts = []
        for m, c in sorted(self.d.items(), key=lambda kv: (len(kv[0]), kv[0])):
            t = "*".join(ATOMS[a].name + (f"^{e}" if e != 1 else "") for a, e in m)
            ts.append(t if c == 1 and t else (f"{c}*{t}" if t else f"{c}"))
            if len(ts) > 12: ts.append("..."); break
        return "(" + " + ".join(ts) + ")"
    __str__ = __repr__
    def __format__(self, spec): return repr(self)
    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, bool): o = int(o)
        if isinstance(o, (int, Fraction)):
            if o == 0: return self
            d = dict(self.d)
            v = d.get((), 0) + o
            if v == 0: d.pop((), None)
            else: d[()] = norm(v)
            return demote(S(d))
        if not isinstance(o, S):
            return NotImplemented
        if len(o.d) > len(self.d): self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m)
            if v is None: d[m] = c
            else:
                v = v + c
                if v == 0: del d[m]
                else: d[m] = norm(v)
        return demote(S(d))
    __radd__ = __add__
    def __neg__(self): return S({m: -c for m, c in self.d.items()})
    def __pos__(self): return self
    def __sub__(self, o):
        if isinstance(o, bool): o = int(o)
        if isinstance(o, (int, Fraction)): return self + (-o)
        if not isinstance(o, S): return NotImplemented
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if isinstance(o, bool): o = int(o)
        if isinstance(o, (int, Fraction)):
            if o == 0: return Fraction(0)
            if o == 1: return self
            return S({m: norm(c * o) for m, c in self.d.items()})
        if not isinstance(o, S): return NotImplemented
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _merge(m1, m2)
                c = c1 * c2
                r = _MM.get(m, _MISS)
                if r is _MISS: r = _reduce_mono(m)
                if r is None:
                    v = d.get(m, 0) + c
                    if v == 0: d.pop(m, None)
                    else: d[m] = norm(v)
                else:
                    for m3, c3 in r.d.items():
                        v = d.get(m3, 0) + c * c3
                        if v == 0: d.pop(m3, None)
                        else: d[m3] = norm(v)
        return demote(S(d))
    __rmul__ = __mul__
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __floordiv__(self, o):
        from . import logic
        return logic.floordiv(self, o)
    def __rfloordiv__(self, o):
        from . import logic
        return logic.floordiv(o, self)
    def __mod__(self, o):
        from . import logic
        return self - o * logic.floordiv(self, o)
    def __pow__(self, k):
        if isinstance(k, S): raise Unsupported("symbolic exponent")
        if isinstance(k, Fraction) and k.denominator == 1: k = int(k)
        if isinstance(k, int):
            if k < 0: return div(1, self ** (-k))
            if k == 0: return 1
            r = None; b = self
            while k:
                if k & 1: r = b if r is None else r * b
                k >>= 1
                if k: b = b * b
            return r
        if isinstance(k, Fraction):
            from . import logic
            if k == Fraction(1, 2): return logic.sqrt(self)
            if k.numerator == 1: return logic.root(self, k.denominator)
            if k.numerator > 1: return logic.root(self, k.denominator) ** k.numerator
        raise Unsupported(f"power {k}")
    def __rpow__(self, b): raise Unsupported("symbolic exponent")
    def __abs__(self):
        from . import logic
        return logic.absval(self)
    # -- comparison: produce formulas
    def __eq__(self, o):
        from . import logic
        return logic.cmp("eq", self, o)
    def __ne__(self, o):
        from . import logic
        r = logic.cmp("eq", self, o)
        return logic.Not(r) if r is not NotImplemented else r
    def __le__(self, o):
        from . import logic
        return logic.cmp("le", self, o)
    def __lt__(self, o):
        from . import logic
        return logic.cmp("lt", self, o)
    def __ge__(self, o):
        from . import logic
        return logic.cmp("ge", self, o)
    def __gt__(self, o):
        from . import logic
        return logic.cmp("gt", self, o)
    def __bool__(self):
        from . import logic
        return bool(logic.Not(logic.cmp("eq", self, 0)))
    def is_integer(self):
        if sort_of(self) == "I": return True
        from . import logic
        return logic.is_integer(self)
    # misc attributes numpy scalars have
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def T(self): return self
    def item(self): return self
    def copy(self): return self
    def astype(self, t): 
        from . import arr
        return arr.cast(self, t)
    def __index__(self): 
        from . import logic
        return logic.concretize_int(self)
    def __int__(self):
        from . import logic
        return logic.concretize_int(self)
    def __float__(self):
        raise Unsupported("float() of a symbolic value")
    def __round__(self, n=None): raise Unsupported("round")

def sort_of(x):
    if isinstance(x, int): return "I"
    if isinstance(x, Fraction): return "I" if x.denominator == 1 else "R"
    den = 1
    for m, c in x.d.items():
        if type(c) is Fraction and c.denominator != 1: den = den * c.denominator // math.gcd(den, c.denominator)
        for a, e in m:
            if ATOMS[a].sort != "I" or e < 0: return "R"
    if den == 1: return "I"
    return "I" if integral(x, den) else "R"

def integral(x, den):
    """a polynomial over integer atoms whose value is an integer for every residue of its atoms modulo den"""
    ids = sorted(x.atoms())
    if den > 6 or den ** len(ids) > 256: return False
    import itertools
    for vals in itertools.product(range(den), repeat=len(ids)):
        v = dict(zip(ids, vals)); t = 0
        for m, c in x.d.items():
            q = c
            for a, e in m: q = q * v[a] ** e
            t += q * den
        if t % den: return False
    return True

def poly_sqrt(x):
    """polynomial p with p*p == x, or None"""
    import sympy as sp
    ids = sorted(x.atoms())
    sy = {a: sp.Symbol(f"v{a}") for a in ids}
    ex = sum(sp.Rational(Fraction(c).numerator, Fraction(c).denominator) * sp.prod([sy[a] ** e for a, e in m]) for m, c in x.d.items())
    c, fs = sp.factor_list(ex)
    if c < 0: return None
    c = sp.sqrt(c)
    if not c.is_rational or any(k % 2 for _, k in fs): return None
    r = sp.expand(c * sp.prod([f ** (k // 2) for f, k in fs]))
    P = sp.Poly(r, *[sy[a] for a in ids])
    out = 0
    for mon, cc in P.terms():
        t = Fraction(int(cc.p), int(cc.q))
        for a, e in zip(ids, mon):
            if e: t = S({((a, e),): 1}) * t
        out = out + t
    return out

def toks_of(x):
    if not isinstance(x, S): return frozenset()
    out = frozenset()
    for m in x.d:
        for a, e in m: out |= ATOMS[a].toks
    return out

def var(name, sort="R", sign=None, toks=frozenset(), facts=None, key=None):
    a = atom("var", key or name, name, sort=sort, sign=sign, toks=toks, facts=facts)
    return S({((a.id, 1),): 1})

def of_atom(a): return S({((a.id, 1),): 1})

PI = None
def pi():
    a = atom("pi", "pi", "pi", sign="pos", facts=lambda A: _pi_facts(A))
    return S({((a.id, 1),): 1})

def _pi_facts(A):
    p = of_atom(A)
    return [p > Fraction(314159, 100000), p < Fraction(31416, 10000)]

# ---------------------------------------------------------------------------------------------- division
def primitive(s):
    """(unit, p): s = unit * p with p scaled so that its first coefficient is 1"""
    k = s.key()
    c = Fraction(k[0][1])
    return c, s * (1 / c)

def quick_sign(s):
    """'pos','nneg','neg','npos','zero' or None, from atom signs only"""
    if is_const(s): return "zero" if s == 0 else ("pos" if s > 0 else "neg")
    allp = alln = True; strict = False
    for m, c in s.d.items():
        st = "pos"
        for a, e in m:
            A = ATOMS[a]
            if A.sign == "pos": continue
            if A.sign == "nneg":
                if e < 0: continue
                st = "nneg"
            elif e % 2 == 0:
                if not A.nz: st = "nneg"
            else:
                return None
        if c > 0: alln = False
        else: allp = False
        if st == "pos": strict = True
        if not allp and not alln: return None
    if allp: return "pos" if strict else "nneg"
    if alln: return "neg" if strict else "npos"
    return None

def mono_nonzero(m):
    return all(ATOMS[a].nz and ATOMS[a].kind in ("var", "pi", "sqrt", "inv", "root", "abs", "max", "min") for a, e in m)

def div(a, b):
    from . import logic
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if is_const(b):
        if b == 0:
            return logic.div_by_zero(a)
        if isinstance(a, int): a = Fraction(a)
        return a * (Fraction(1) / Fraction(b)) if not isinstance(a, S) else a * (1 / Fraction(b))
    if not isinstance(b, S): return NotImplemented
    if is_const(a) and a == 0 and logic.nonzero(b): return Fraction(0)
    if isinstance(a, S) and a.d == b.d and logic.nonzero(b): return Fraction(1)
    if not logic.nonzero(b):          # forks
        return logic.div_by_zero(a)
    return a * inverse(b)

def inverse(b):
    if len(b.d) == 1:
        (m, c), = b.d.items()
        # monomial: invert atom by atom
        out = lift(1 / Fraction(c))
        for a, e in m:
            A = ATOMS[a]
            if A.kind == "rot" or A.kind == "bigsum" or A.kind == "ite" or (A.kind in ("max", "min") and A.sign != "pos"):
                out = out * _invatom(of_atom(A)) ** e if e > 0 else out * of_atom(A) ** (-e)
            else:
                mm = ((a, -e),)
                r = _reduce_mono(mm)
                out = out * (r if r is not None else S({mm: 1}))
        return out
    u, p = primitive(b)
    # pull out common monomial content of plain atoms
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None: common = dm
        else:
            common = {a: min(e, dm[a]) if e > 0 else max(e, dm[a]) for a, e in common.items() if a in dm and (dm[a] > 0) == (e > 0)}
        if not common: break
    if common:
        cm = tuple(sorted((a, e) for a, e in common.items() if ATOMS[a].kind in ("var", "pi") and ATOMS[a].nz))
        if cm:
            inv_cm = tuple((a, -e) for a, e in cm)
            q = p * S({inv_cm: 1})
            return S({inv_cm: 1}) * inverse(lift(q)) * (1 / u)
    return _invatom(p) * (1 / u)

def _invatom(p):
    sg = quick_sign(p)
    a = atom("inv", p.key(), f"inv{p!r}", toks=toks_of(p), sign="pos" if sg == "pos" else None, args=(p,), nz=True,
             facts=lambda A: _inv_facts(A))
    return of_atom(a)

def _inv_facts(A):
    from . import logic
    out = [logic.rawcmp("eq", ("mulsub", of_atom(A), A.args[0], 1))]
    if A.sign == "pos": out.append(of_atom(A) > 0)
    return out

# ---------------------------------------------------------------------------------------------- zero test
def clear_inv(s):
    """multiply s by (nonzero) denominators until no inv atom and no negative exponent is left; returns polynomial S"""
    for _ in range(200):
        if is_const(s): return s
        best = None
        for m in s.d:
            for a, e in m:
                if ATOMS[a].kind == "inv" and (best is None or a > best): best = a
        if best is None: break
        # group by exponent of the highest inv atom; s = sum_k c_k inv^k -> sum_k c_k p^(K-k)
        byk = {}
        for m, c in s.d.items():
            k = 0; mm = []
            for a, e in m:
                if a == best: k = e
                else: mm.append((a, e))
            byk.setdefault(k, {})[tuple(mm)] = c
        K = max(byk)
        p = ATOMS[best].args[0]
        tot = 0
        for k, d in byk.items():
            t = S(d)
            if K - k: t = t * p ** (K - k)
            tot = tot + t
        s = demote(lift(tot))
    if is_const(s): return s
    mins = {}
    for m in s.d:
        for a, e in m:
            if e < 0: mins[a] = min(mins.get(a, 0), e)
    if mins:
        s = s * S({tuple(sorted((a, -e) for a, e in mins.items())): 1})
        s = demote(lift(s))
    return s

def is_zero(s):
    """True: identically zero.  False: the cleared normal form is a non-zero polynomial in the atoms."""
    if is_const(s): return s == 0
    for _ in range(20):
        t = clear_inv(s)
        if is_const(t): return t == 0
        if isinstance(t, S) and t.d == s.d: return False
        s = t
    return False

def subst_atoms(s, f, memo=None):
    """rebuild s with every atom replaced by f(atom) (a scalar), f returns None to keep"""
    if not isinstance(s, S): return s
    tot = 0
    cache = {} if memo is None else memo
    hit = False
    for m in s.d:
        for a, e in m:
            if a not in cache: cache[a] = f(ATOMS[a])
            if cache[a] is not None: hit = True
    if not hit: return s
    for m, c in s.d.items():
        t = lift(c); keep = []
        for a, e in m:
            r = cache[a]
            if r is None: keep.append((a, e))
            else:
                t = t * (r ** e if e > 0 else div(1, r ** (-e)))
        if keep:
            t = t * S({tuple(keep): 1})
        tot = tot + t
    return demote(tot) if isinstance(tot, S) else tot
