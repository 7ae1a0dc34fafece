"""Value-number domain: scalars are Laurent polynomials with rational coefficients over
interned atoms; booleans are conditions over such polynomials; joins are `ite` gates."""
from fractions import Fraction as Fr
import math, itertools

MAXTERMS = 4000

# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "deps")
    def __repr__(self): return atom_str(self)

_atoms = {}
_list = []
def atom(kind, *args):
    k = (kind, args)
    a = _atoms.get(k)
    if a is None:
        a = Atom(); a.id = len(_list); a.kind = kind; a.args = args; a.deps = None
        _atoms[k] = a; _list.append(a)
    return a
def A(i): return _list[i]

_fresh = itertools.count()
def fresh(label): return Poly.of(atom("havoc", label, next(_fresh)))

# ----------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_k", "_h")
    def __init__(self, t):
        self.t = t; self._k = None; self._h = None
    @staticmethod
    def c(v):
        v = v if isinstance(v, Fr) else Fr(v)
        return Poly({(): v}) if v else ZERO
    @staticmethod
    def of(a): return Poly({((a.id, 1),): Fr(1)})
    @property
    def key(self):
        if self._k is None: self._k = frozenset(self.t.items())
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key)
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and (self is o or (len(self.t) == len(o.t) and self.t == o.t))
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self): return self.t.get((), Fr(0)) if self.is_const() else None
    def is_zero(self): return not self.t
    def __add__(self, o):
        o = P(o)
        if not o.t: return self
        if not self.t: return o
        if len(o.t) > len(self.t): self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None: t[m] = c
            else:
                v += c
                if v: t[m] = v
                else: del t[m]
        return Poly(t)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) + (-self)
    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t: return ZERO
        if len(self.t) * len(o.t) > MAXTERMS:
            a, b = (self, o) if len(self.t) >= len(o.t) else (o, self)
            if len(a.t) > 1: a = Poly.of(atom("big", a))
            if len(a.t) * len(b.t) > MAXTERMS: b = Poly.of(atom("big", b))
            return a * b
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2); c = c1 * c2
                v = t.get(m)
                if v is None: t[m] = c
                else:
                    v += c
                    if v: t[m] = v
                    else: del t[m]
        return Poly(t)
    __rmul__ = __mul__
    def __pow__(self, n):
        if n < 0: return ONE / (self ** (-n))
        r = ONE
        for _ in range(n): r = r * self
        return r
    def __truediv__(self, o):
        o = P(o)
        return self * inverse(o)
    def __rtruediv__(self, o): return P(o) / self
    def __repr__(self): return poly_str(self)
    def atoms(self):
        return {i for m in self.t for i, _ in m}

def mmul(a, b):
    if not a: return b
    if not b: return a
    if len(a) == 1 and len(b) == 1:
        (i, e), (j, f) = a[0], b[0]
        if i == j: return ((i, e + f),) if e + f else ()
        return (a[0], b[0]) if i < j else (b[0], a[0])
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) + e
        if v: d[i] = v
        else: del d[i]
    return tuple(sorted(d.items()))

ZERO = Poly({})
ONE = Poly({(): Fr(1)})
def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Cond): return ite(x, ONE, ZERO)
    if isinstance(x, bool): return ONE if x else ZERO
    return Poly.c(x)
def minv(m): return tuple((i, -e) for i, e in m)

def mono_gcd(p):
    """largest Laurent monomial dividing all terms (so that the quotient has no negative exponents and no common factor)"""
    it = iter(p.t)
    ids = set()
    for m in p.t: ids.update(i for i, _ in m)
    g = []
    for i in ids:
        e = min((dict(m).get(i, 0) for m in p.t))
        if e: g.append((i, e))
    return tuple(sorted(g))
def content(p):
    num = 0; den = 1
    for c in p.t.values():
        num = math.gcd(num, abs(c.numerator)); den = den * c.denominator // math.gcd(den, c.denominator)
    return Fr(num, den)
def lead_sign(p):
    m = max(p.t, key=lambda m: (len(m), m))
    return 1 if p.t[m] > 0 else -1
def split(p):
    """p = c * mono * q, q primitive polynomial with positive leading coefficient"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return c, m, ONE
    g = mono_gcd(p); c = content(p) * lead_sign(p)
    gi = minv(g)
    return c, g, Poly({mmul(m, gi): v / c for m, v in p.t.items()})

class DivZero(Exception): pass
def inverse(p):
    if not p.t:
        return Poly.of(atom("inv", ZERO))
    c, m, q = split(p)
    r = Poly({minv(m): 1 / c})
    if q.is_const(): return r * Poly.c(1 / q.const())
    return r * Poly.of(atom("inv", q))

# ----------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("op", "a", "_h")
    def __init__(self, op, a): self.op = op; self.a = a; self._h = None
    def __hash__(self):
        if self._h is None: self._h = hash((self.op, self.a))
        return self._h
    def __eq__(self, o): return isinstance(o, Cond) and self.op == o.op and self.a == o.a
    def __repr__(self): return cond_str(self)
TRUE = Cond("T", ()); FALSE = Cond("F", ())
def B(b): return TRUE if b else FALSE

def _scale(p):
    c = content(p)
    return p if c == 1 else Poly({m: v / c for m, v in p.t.items()})
def lt0(p):
    if p.is_const(): return B(p.const() < 0)
    return Cond("lt", _scale(p))
def le0(p):
    if p.is_const(): return B(p.const() <= 0)
    return Cond("le", _scale(p))
def eq0(p):
    if p.is_const(): return B(p.const() == 0)
    p = _scale(p)
    if lead_sign(p) < 0: p = -p
    return Cond("eq", p)
def lt(a, b): return lt0(P(a) - P(b))
def le(a, b): return le0(P(a) - P(b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b): return eq0(P(a) - P(b))
def Not(c):
    if c is TRUE or c.op == "T": return FALSE
    if c.op == "F": return TRUE
    if c.op == "lt": return Cond("le", -c.a)
    if c.op == "le": return Cond("lt", -c.a)
    if c.op == "eq": return Cond("ne", c.a)
    if c.op == "ne": return Cond("eq", c.a)
    if c.op == "b": return Cond("nb", c.a)
    if c.op == "nb": return Cond("b", c.a)
    if c.op == "and": return Or(*[Not(x) for x in c.a])
    if c.op == "or": return And(*[Not(x) for x in c.a])
    raise ValueError(c.op)
def _nary(op, neutral, absorb, cs):
    out = []
    for c in cs:
        if c.op == neutral.op: continue
        if c.op == absorb.op: return absorb
        for x in (c.a if c.op == op else (c,)):
            if x not in out: out.append(x)
    for x in out:
        if Not(x) in out: return absorb
    if not out: return neutral
    if len(out) == 1: return out[0]
    return Cond(op, tuple(sorted(out, key=hash)))
def And(*cs): return _nary("and", TRUE, FALSE, cs)
def Or(*cs): return _nary("or", FALSE, TRUE, cs)
def bvar(*args): return Cond("b", atom("bvar", *args))

def cond_leaves(c, out=None):
    if out is None: out = []
    if c.op in ("and", "or"):
        for x in c.a: cond_leaves(x, out)
    elif c.op not in "TF": out.append(c)
    return out

# ----------------------------------------------------------------- constructors
def ite(c, a, b):
    if c.op == "T": return a
    if c.op == "F": return b
    if isinstance(a, Cond) or isinstance(b, Cond):
        a = a if isinstance(a, Cond) else Not(eq(a, 0)); b = b if isinstance(b, Cond) else Not(eq(b, 0))
        if a == b: return a
        return Or(And(c, a), And(Not(c), b))
    a = P(a); b = P(b)
    if a == b: return a
    # factor out common terms: keeps accumulators and offsets outside of gates
    common = {m: v for m, v in a.t.items() if b.t.get(m) == v}
    if common:
        k = Poly(common)
        return k + ite(c, a - k, b - k)
    # orient
    if c.op in ("ne", "nb") or (c.op == "or"):
        c = Not(c); a, b = b, a
    elif c.op == "le":
        c = Not(c); a, b = b, a
    return Poly.of(atom("ite", c, a, b))
def mx(a, b): return ite(lt(a, b), P(b), P(a))
def mn(a, b): return ite(lt(b, a), P(b), P(a))

def _isqrt(fr):
    n = math.isqrt(fr.numerator); d = math.isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator: return Fr(n, d)
    return None
def fabs(p):
    p = P(p)
    if p.is_const(): return Poly.c(abs(p.const()))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly.c(abs(c))
        for i, e in m:
            if atom_sign(A(i)) in (1, 0) or e % 2 == 0: r = r * Poly({((i, e),): Fr(1)})
            else: r = r * Poly({((atom("fn", "abs", Poly.of(A(i))).id, e),): Fr(1)})
        return r
    c, m, q = split(p)
    if not m: return Poly.c(abs(c)) * Poly.of(atom("fn", "abs", q))
    return Poly.c(abs(c)) * fabs(Poly({m: Fr(1)})) * Poly.of(atom("fn", "abs", q))
def sqrt(p):
    p = P(p)
    if p.is_const():
        r = _isqrt(p.const()) if p.const() >= 0 else None
        if r is not None: return Poly.c(r)
        if p.const() < 0: return Poly.of(atom("fn", "sqrt", p))
    if not p.t: return ZERO
    c, m, q = split(p)
    if c < 0: c, q = -c, -q
    out = ONE; keep = ONE
    r = _isqrt(c)
    if r is not None: out = Poly.c(r)
    else:
        # pull square factors of small primes
        n, d = c.numerator, c.denominator
        n, d = n * d, d
        s = 1
        for pr in (2, 3, 5, 7):
            while n % (pr * pr) == 0: n //= pr * pr; s *= pr
        out = Poly.c(Fr(s, d)); keep = Poly.c(n)
    for i, e in m:
        h = e // 2 if e % 2 == 0 else (e - 1) // 2 if e > 0 else -((-e + 1) // 2)
        h = e // 2  # floor
        rem = e - 2 * h
        if h: out = out * fabs(Poly({((i, h),): Fr(1)}))
        if rem: keep = keep * Poly.of(A(i))
    keep = keep * q
    if keep.is_const() and keep.const() == 1: return out
    # sqrt of inv
    if len(keep.t) == 1:
        (km, kc), = keep.t.items()
        if len(km) == 1 and A(km[0][0]).kind == "inv" and km[0][1] == 1:
            return out * ONE / sqrt(A(km[0][0]).args[0] * (1 / kc))
    return out * Poly.of(atom("fn", "sqrt", keep))
def fn(name, *args):
    args = tuple(P(a) if not isinstance(a, (Poly, Cond, str)) else a for a in args)
    if name == "abs": return fabs(args[0])
    if name == "sqrt": return sqrt(args[0])
    if name == "floor":
        if args[0].is_const(): return Poly.c(math.floor(args[0].const()))
        return Poly.of(atom("fn", "floor", args[0]))
    if name == "ceil":
        if args[0].is_const(): return Poly.c(math.ceil(args[0].const()))
        return Poly.of(atom("fn", "ceil", args[0]))
    if name == "trunc":
        if args[0].is_const(): return Poly.c(math.trunc(args[0].const()))
        if is_integral(args[0]): return args[0]
        return Poly.of(atom("fn", "trunc", args[0]))
    if name == "exp" and args[0].is_zero(): return ONE
    if name == "exp" and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if len(m) == 1 and m[0][1] == 1 and A(m[0][0]).kind == "fn" and A(m[0][0]).args[0] == "log" and c.denominator == 1:
            return A(m[0][0]).args[1] ** int(c)
    if name == "log" and args[0].is_const() and args[0].const() == 1: return ZERO
    if name == "log" and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if c == 1 and len(m) == 1 and A(m[0][0]).kind == "fn" and A(m[0][0]).args[0] == "exp":
            return A(m[0][0]).args[1] * m[0][1]
    if name == "pow":
        b, e = args
        if e.is_const():
            ev = e.const()
            if ev.denominator == 1 and abs(ev) <= 6: return b ** int(ev)
            if ev.denominator == 2 and abs(ev) <= 6:
                h = (ev - Fr(1, 2)).numerator
                return (b ** int(h)) * sqrt(b)
    if name in ("tanh", "sinh", "sin", "atan", "asinh", "tan"):
        if args[0].is_zero(): return ZERO
        if len(args[0].t) and lead_sign(args[0]) < 0: return -Poly.of(atom("fn", name, -args[0]))
    if name in ("cosh", "cos"):
        if args[0].is_zero(): return ONE
        if lead_sign(args[0]) < 0: return Poly.of(atom("fn", name, -args[0]))
    return Poly.of(atom("fn", name) if not args else atom("fn", name, *args))
def idiv(a, b):
    """C++ integer division of nonnegative operands"""
    a, b = P(a), P(b)
    if a.is_const() and b.is_const() and b.const(): return Poly.c(math.trunc(a.const() / b.const()))
    if len(b.t) == 1:
        (bm, bc), = b.t.items()
        qd = {}; rd = {}
        for m, c in a.t.items():
            q = mmul(m, minv(bm)); v = c / bc
            if all(e > 0 for _, e in q) and v.denominator == 1: qd[q] = v
            else: rd[m] = c
        r = Poly(rd)
        if qd:
            if r.is_zero() or in_range(r, b): return Poly(qd)
            return Poly(qd) + Poly.of(atom("fn", "idiv", r, b))
        if in_range(a, b): return ZERO
    return Poly.of(atom("fn", "idiv", a, b))
def imod(a, b): return P(a) - P(b) * idiv(a, b)

RANGES = {}   # atom id -> (lo Poly, hi Poly): integer loop variables lo <= v < hi
def in_range(r, b):
    if len(r.t) != 1: return False
    (m, c), = r.t.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
        rg = RANGES.get(m[0][0])
        return rg is not None and rg[0].is_const() and rg[0].const() >= 0 and rg[1] == b
    return False

INTEGRAL = set()
def is_integral(p):
    for m, c in p.t.items():
        if c.denominator != 1: return False
        for i, e in m:
            a = A(i)
            if e < 0: return False
            if i in INTEGRAL or (a.kind == "fn" and a.args[0] in ("floor", "ceil", "trunc", "idiv")): continue
            if a.kind == "ite" and is_integral(a.args[1]) and is_integral(a.args[2]): continue
            if a.kind == "var": continue
            if a.kind == "sum" and all(isinstance(x, Poly) and is_integral(x) for x in a.args[1:4]): continue
            return False
    return True

SIGNS = {}    # atom id -> 1 (>0), 0 (>=0)
def atom_sign(a):
    s = SIGNS.get(a.id)
    if s is not None: return s
    if a.kind == "fn":
        if a.args[0] in ("exp", "cosh"): return 1
        if a.args[0] in ("sqrt", "abs"):
            return 0
        if a.args[0] in ("floor", "trunc", "ceil") and a.args[0] != "floor":
            s = sign(a.args[1])
            return 0 if s in (0, 1) else None
    if a.kind == "inv":
        s = sign(a.args[0]); return s if s in (1, -1) else (1 if s == 0 else None)
    if a.kind == "big": return sign(a.args[0])
    if a.kind == "var": 
        rg = RANGES.get(a.id)
        if rg and rg[0].is_const() and rg[0].const() >= 0: return 0
    if a.kind == "ite":
        s1, s2 = sign(a.args[1]), sign(a.args[2])
        if s1 in (0, 1) and s2 in (0, 1): return min(s1, s2)
    if a.kind == "sum": return 0 if sign(a.args[3]) in (0, 1) else None
    return None
def sign(p):
    """1: >0, 0: >=0, -1: <0, -2: <=0, None unknown"""
    if not p.t: return 0
    pos = neg = True; strict = False
    for m, c in p.t.items():
        s = 1
        for i, e in m:
            if e % 2 == 0:
                a = atom_sign(A(i)); s = s if (a == 1 or e < 0) else 0
            else:
                a = atom_sign(A(i))
                if a is None or a == -2: return None
                if a == 0: s = 0 if s == 1 else (s if s == 0 else -2)
                elif a == -1: s = {1: -1, 0: -2, -1: 1, -2: 0}[s]
        if c < 0: s = {1: -1, 0: -2, -1: 1, -2: 0}[s]
        if s in (1, 0): neg = False
        else: pos = False
        if s in (1, -1): strict = True
        if not pos and not neg: return None
    if pos: return 1 if strict else 0
    return -1 if strict else -2
def decide(c):
    """static sign decision"""
    if c.op in "TF": return c
    if c.op in ("lt", "le", "eq", "ne"):
        s = sign(c.a)
        if c.op == "lt":
            if s in (0, 1): return FALSE
            if s == -1: return TRUE
        elif c.op == "le":
            if s == 1: return FALSE
            if s in (-1, -2): return TRUE
        elif c.op == "eq":
            if s in (1, -1): return FALSE
        elif c.op == "ne":
            if s in (1, -1): return TRUE
        return c
    if c.op == "and": return And(*[decide(x) for x in c.a])
    if c.op == "or": return Or(*[decide(x) for x in c.a])
    return c

# ----------------------------------------------------------------- substitution / simplification
class Rewriter:
    """bottom-up rebuild; `leaf(atom)` may return a replacement Poly; `cleaf(cond)` a replacement Cond"""
    def __init__(self, leaf=None, cleaf=None):
        self.leaf = leaf; self.cleaf = cleaf; self.ma = {}; self.mc = {}; self.mp = {}
    def poly(self, p):
        r = self.mp.get(p)
        if r is not None: return r
        subs = {}
        ch = False
        for i in p.atoms():
            a = A(i); b = self.atom(a); subs[i] = b
            if not (len(b.t) == 1 and b.t == {((i, 1),): Fr(1)}): ch = True
        if not ch: r = p
        else:
            r = ZERO
            for m, c in p.t.items():
                term = Poly.c(c)
                for i, e in m: term = term * (subs[i] ** e)
                r = r + term
        self.mp[p] = r
        return r
    def atom(self, a):
        r = self.ma.get(a.id)
        if r is not None: return r
        r = self.leaf(a) if self.leaf else None
        if r is None:
            if a.kind == "ite":
                c = self.cond(a.args[0])
                if c.op == "T": r = self.poly(a.args[1])
                elif c.op == "F": r = self.poly(a.args[2])
                else: r = ite(c, self.poly(a.args[1]), self.poly(a.args[2]))
            elif a.kind == "fn":
                if len(a.args) == 1: r = Poly.of(a)
                elif a.args[0] == "idiv": r = idiv(self.poly(a.args[1]), self.poly(a.args[2]))
                else: r = fn(a.args[0], *[self.any(x) for x in a.args[1:]])
            elif a.kind == "inv": r = inverse(self.poly(a.args[0]))
            elif a.kind == "big": r = self.poly(a.args[0]); r = Poly.of(atom("big", r)) if len(r.t) > 40 else r
            elif a.kind == "sum": 
                v = a.args[0]
                if any(isinstance(x, Poly) for x in v.args):
                    v = atom("var", *[self.any(x) for x in v.args]); INTEGRAL.add(v.id)
                r = mksum(v, self.poly(a.args[1]), self.poly(a.args[2]), self.poly(a.args[3]))
            else: r = Poly.of(atom(a.kind, *[self.any(x) for x in a.args])) if any(isinstance(x, (Poly, Cond, tuple)) for x in a.args) else Poly.of(a)
        self.ma[a.id] = r
        return r
    def any(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, Cond): return self.cond(x)
        if isinstance(x, tuple): return tuple(self.any(y) for y in x)
        return x
    def cond(self, c):
        r = self.mc.get(c)
        if r is not None: return r
        if self.cleaf:
            r = self.cleaf(c)
            if r is not None:
                self.mc[c] = r; return r
        if c.op in "TF": r = c
        elif c.op in ("lt", "le", "eq", "ne"):
            q = self.poly(c.a)
            r = {"lt": lt0, "le": le0, "eq": eq0, "ne": lambda x: Not(eq0(x))}[c.op](q)
            if self.cleaf and r != c:
                r2 = self.cleaf(r)
                if r2 is not None: r = r2
            r = decide(r)
        elif c.op == "and": r = And(*[self.cond(x) for x in c.a])
        elif c.op == "or": r = Or(*[self.cond(x) for x in c.a])
        elif c.op in ("b", "nb"):
            a = c.a
            if len(a.args) and any(isinstance(x, (Poly, Cond, tuple)) for x in a.args):
                a = atom("bvar", *[self.any(x) for x in a.args])
            r = Cond(c.op, a)
        self.mc[c] = r
        return r

def subst(p, mp):
    """mp: atom id -> Poly"""
    rw = Rewriter(lambda a: mp.get(a.id))
    return rw.any(p)

def mksum(v, lo, hi, body):
    """sum_{v=lo}^{hi-1} body ; linear normal form"""
    if body.is_zero(): return ZERO
    n = hi - lo
    if n.is_zero(): return ZERO
    out = ZERO
    # split into loop-invariant factor and dependent rest per term
    groups = {}
    for m, c in body.t.items():
        inv = tuple(x for x in m if not depends(A(x[0]), v)); dep = tuple(x for x in m if depends(A(x[0]), v))
        groups.setdefault(inv, {})
        groups[inv][dep] = groups[inv].get(dep, Fr(0)) + c
    for inv, d in groups.items():
        k = Poly({inv: Fr(1)})
        for dep, c in d.items():
            if not dep: out = out + k * Poly.c(c) * n
            else:
                bd = Poly({dep: Fr(1)})
                cv = atom("var", "σ", sum_depth(bd), lo, hi); RANGES[cv.id] = (lo, hi); INTEGRAL.add(cv.id)
                if cv is not v: bd = subst(bd, {v.id: Poly.of(cv)})
                if len(bd.t) == 1 and not any(depends(A(i), cv) for m in bd.t for i, _ in m): out = out + k * Poly.c(c) * n * bd
                else: out = out + k * Poly.c(c) * Poly.of(atom("sum", cv, lo, hi, bd))
    return out
_sd = {}
def sum_depth(p):
    d = 0
    for i in any_deps(p):
        if A(i).kind == "sum":
            r = A(i).args[0].args[1]
            d = max(d, (r if isinstance(r, int) else 0) + 1)
    return d

def atom_deps(a):
    """set of all atom ids occurring below (incl. itself)"""
    if a.deps is None:
        s = {a.id}
        for x in a.args: s |= any_deps(x)
        a.deps = frozenset(s)
    return a.deps
def any_deps(x):
    if isinstance(x, Poly):
        s = set()
        for i in x.atoms(): s |= atom_deps(A(i))
        return s
    if isinstance(x, Atom): return atom_deps(x)
    if isinstance(x, Cond):
        if x.op in "TF": return set()
        if x.op in ("and", "or"):
            s = set()
            for y in x.a: s |= any_deps(y)
            return s
        return any_deps(x.a)
    if isinstance(x, tuple):
        s = set()
        for y in x: s |= any_deps(y)
        return s
    return set()
def depends(x, v):
    i = v.id if isinstance(v, Atom) else v
    return i in (atom_deps(x) if isinstance(x, Atom) else any_deps(x))

def all_conds(x, out):
    """atomic conditions guarding gates anywhere inside x"""
    seen = set()
    def go(y):
        if isinstance(y, Poly):
            for i in y.atoms(): ga(A(i))
        elif isinstance(y, Cond):
            for l in cond_leaves(y):
                out.add(l)
                if l.op in ("lt", "le", "eq", "ne"): go(l.a)
        elif isinstance(y, tuple):
            for z in y: go(z)
    def ga(a):
        if a.id in seen: return
        seen.add(a.id)
        for z in a.args: go(z)
        if a.kind == "fn" and a.args[0] == "abs": out.add(lt0(a.args[1]))
    go(x)
    return out

def diff(p, a):
    """derivative with respect to atom a (within the interior of every guard cell)"""
    r = ZERO
    for m, c in p.t.items():
        for n, (i, e) in enumerate(m):
            d = diff_atom(A(i), a)
            if d.is_zero(): continue
            rest = m[:n] + (((i, e - 1),) if e != 1 else ()) + m[n + 1:]
            r = r + Poly({rest: c * e}) * d
    return r
def diff_atom(x, a):
    if x is a: return ONE
    if not depends(x, a): return ZERO
    k = x.kind
    if k == "ite": return ite(x.args[0], diff(x.args[1], a), diff(x.args[2], a))
    if k == "inv":
        q = x.args[0]; return -diff(q, a) * Poly({((x.id, 2),): Fr(1)})
    if k == "big": return diff(x.args[0], a)
    if k == "fn":
        f = x.args[0]; X = Poly.of(x); u = x.args[1]; du = diff(u, a)
        if f == "abs": return du * ite(lt0(u), -ONE, ONE)
        if f == "sqrt": return du / (2 * X)
        if f == "exp": return du * X
        if f == "log": return du / u
        if f == "sinh": return du * fn("cosh", u)
        if f == "cosh": return du * fn("sinh", u)
        if f == "tanh": return du * (1 - X * X)
        if f == "asinh": return du / sqrt(1 + u * u)
        if f == "sin": return du * fn("cos", u)
        if f == "cos": return -du * fn("sin", u)
        if f == "tan": return du * (1 + X * X)
        if f == "atan": return du / (1 + u * u)
        if f in ("floor", "ceil", "trunc"): return ZERO
        if f == "pow" and x.args[2].is_const(): return du * x.args[2] * fn("pow", u, x.args[2] - 1)
        if f == "pow": return X * (diff(x.args[2], a) * fn("log", u) + x.args[2] * du / u)
    raise ValueError(f"derivative of {x}")

# ----------------------------------------------------------------- zero test
def reduce_zero(d, limit=20000, deadline=None):
    """decides d == 0 by clearing denominators and reducing square roots. True / None"""
    import time
    late = lambda: deadline is not None and time.time() > deadline
    for _ in range(60):
        if not d.t: return True
        if late(): return None
        if len(d.t) > limit: return None
        ids = d.atoms()
        pick = None
        for i in ids:
            a = A(i)
            if a.kind in ("inv", "big"): pick = i; break
        if pick is not None:
            a = A(pick)
            if a.kind == "big":
                d = _repl(d, pick, a.args[0], limit, late)
            else:
                q = a.args[0]
                if not q.t: return None
                es = [dict(m).get(pick, 0) for m in d.t]
                mxe = max(es)
                r = ZERO
                qp = {0: ONE}
                for k in range(1, mxe - min(es) + 1): qp[k] = qp[k - 1] * q
                for m, c in d.t.items():
                    e = dict(m).get(pick, 0)
                    mm = tuple(x for x in m if x[0] != pick)
                    r = r + Poly({mm: c}) * qp[mxe - e]
                    if len(r.t) > limit or late(): return None
                d = r
            if d is None: return None
            continue
        # negative exponents
        neg = {}
        for m in d.t:
            for i, e in m:
                if e < 0: neg[i] = min(neg.get(i, 0), e)
        if neg:
            d = d * Poly({tuple(sorted((i, -e) for i, e in neg.items())): Fr(1)})
            continue
        pick = None
        for m in d.t:
            for i, e in m:
                a = A(i)
                if e >= 2 and a.kind == "fn" and a.args[0] in ("sqrt", "abs"): pick = i; break
            if pick: break
        if pick is not None:
            a = A(pick); r = ZERO
            sq = a.args[1] if a.args[0] == "sqrt" else a.args[1] * a.args[1]
            pw = {0: ONE}
            for m, c in d.t.items():
                e = dict(m).get(pick, 0); h = e // 2
                mm = tuple(x if x[0] != pick else (pick, e - 2 * h) for x in m)
                mm = tuple(x for x in mm if x[1])
                for k in range(len(pw), h + 1): pw[k] = pw[k - 1] * sq
                r = r + Poly({mm: c}) * pw[h]
                if len(r.t) > limit: return None
            d = r
            continue
        # isolate a single remaining square root: a + b*s == 0 is not reduced further
        return None
    return None
def _repl(d, i, q, limit, late=lambda: False):
    r = ZERO
    for m, c in d.t.items():
        e = dict(m).get(i, 0)
        mm = tuple(x for x in m if x[0] != i)
        if e < 0 and len(q.t) > 1: return None
        r = r + Poly({mm: c}) * (q ** e)
        if len(r.t) > limit or late(): return None
    return r

# ----------------------------------------------------------------- printing
def atom_str(a, d=0):
    if d > 6: return "…"
    if a.kind == "in": return ".".join(str(x) for x in a.args)
    if a.kind == "sel": return f"{a.args[0]}[{short(a.args[1], d+1)}]" + ("" if len(a.args) < 3 or a.args[2] is None else f"({','.join(map(str, a.args[2]))})")
    if a.kind == "fn": return f"{a.args[0]}({', '.join(short(x, d+1) for x in a.args[1:])})"
    if a.kind == "ite": return f"({short(a.args[0], d+1)} ? {short(a.args[1], d+1)} : {short(a.args[2], d+1)})"
    if a.kind == "inv": return f"1/({short(a.args[0], d+1)})"
    if a.kind == "sum": return f"SUM[{a.args[0]}<{short(a.args[2], d+1)}]({short(a.args[3], d+1)})"
    if a.kind == "var": return str(a.args[0])
    return a.kind + "<" + ",".join(short(x, d+1) for x in a.args) + ">"
def short(x, d=0):
    if isinstance(x, Poly): return poly_str(x, d)
    if isinstance(x, Cond): return cond_str(x, d)
    if isinstance(x, Atom): return atom_str(x, d)
    return str(x)
def poly_str(p, d=0):
    if not p.t: return "0"
    out = []
    for n, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: (len(x[0]), x[0]))):
        if n >= 8: out.append("…"); break
        s = "*".join(atom_str(A(i), d) + (f"^{e}" if e != 1 else "") for i, e in m)
        cs = str(c) if len(str(c)) < 14 else f"{float(c):.6g}"
        out.append(cs if not s else s if c == 1 else "-" + s if c == -1 else cs + "*" + s)
    return " + ".join(out)
def cond_str(c, d=0):
    if c.op in "TF": return "true" if c.op == "T" else "false"
    if c.op in ("lt", "le", "eq", "ne"): return poly_str(c.a, d) + {"lt": " < 0", "le": " <= 0", "eq": " == 0", "ne": " != 0"}[c.op]
    if c.op == "and": return "(" + " && ".join(cond_str(x, d) for x in c.a) + ")"
    if c.op == "or": return "(" + " || ".join(cond_str(x, d) for x in c.a) + ")"
    return ("!" if c.op == "nb" else "") + atom_str(c.a, d)
