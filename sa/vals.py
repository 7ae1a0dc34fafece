"""Abstract values: immutable containers over value-number scalars."""
import re
from .dom import *
from . import dom

class Mat:
    __slots__ = ("r", "c", "e", "arr", "_h")
    def __init__(self, r, c, e, arr=False): self.r = r; self.c = c; self.e = tuple(e); self.arr = arr; self._h = None
    def at(self, i, j=0): return self.e[i * self.c + j]
    def lin(self, k): return self.e[k] if (self.c == 1 or self.r == 1) else self.e[(k % self.r) * self.c + k // self.r]
    def map(self, f): return Mat(self.r, self.c, [f(x) for x in self.e], self.arr)
    def __eq__(self, o): return isinstance(o, Mat) and self.r == o.r and self.c == o.c and self.e == o.e
    def __hash__(self):
        if self._h is None: self._h = hash((self.r, self.c, self.e))
        return self._h
    def T(self): return Mat(self.c, self.r, [self.at(i, j) for j in range(self.c) for i in range(self.r)], self.arr)
    def __repr__(self): return "[" + ", ".join(short(x) for x in self.e) + "]"
def mzero(r, c, arr=False): return Mat(r, c, [ZERO] * (r * c), arr)
def mident(n): return Mat(n, n, [ONE if i == j else ZERO for i in range(n) for j in range(n)])
def mmulm(a, b):
    if a.c != b.r: raise Unsup(f"matrix shapes {a.r}x{a.c} * {b.r}x{b.c}")
    out = []
    for i in range(a.r):
        for j in range(b.c):
            s = ZERO
            for k in range(a.c): s = s + a.at(i, k) * b.at(k, j)
            out.append(s)
    return Mat(a.r, b.c, out)
def mdet(a):
    if a.r == 1: return a.e[0]
    if a.r == 2: return a.e[0] * a.e[3] - a.e[1] * a.e[2]
    if a.r == 3:
        m = a.at
        return m(0,0)*(m(1,1)*m(2,2)-m(1,2)*m(2,1)) - m(0,1)*(m(1,0)*m(2,2)-m(1,2)*m(2,0)) + m(0,2)*(m(1,0)*m(2,1)-m(1,1)*m(2,0))
    raise Unsup("determinant")
def madj(a):
    if a.r == 2: return Mat(2, 2, [a.e[3], -a.e[1], -a.e[2], a.e[0]])
    if a.r == 3:
        m = a.at; cof = []
        for i in range(3):
            for j in range(3):
                i1, i2 = [x for x in range(3) if x != i]; j1, j2 = [x for x in range(3) if x != j]
                cof.append(((-1) ** (i + j)) * (m(i1, j1) * m(i2, j2) - m(i1, j2) * m(i2, j1)))
        return Mat(3, 3, cof).T()
    raise Unsup("adjugate")
def minv(a):
    d = mdet(a)
    return madj(a).map(lambda x: x / d)
class Unsup(Exception): pass

class ArrayV:
    """vector of symbolic size: base contents plus an ordered log of (guarded, quantified) updates"""
    __slots__ = ("et", "base", "log", "size")
    def __init__(self, et, base, log, size): self.et = et; self.base = base; self.log = log; self.size = size
    def __eq__(self, o): return self is o or (isinstance(o, ArrayV) and self.base == o.base and self.log == o.log and self.size == o.size and self.et == o.et)
    def __hash__(self): return hash((self.base, len(self.log)))
    def add(self, u): return ArrayV(self.et, self.base, self.log + (u,), self.size)
    def sized(self, n): return ArrayV(self.et, self.base, self.log, n)
    def __repr__(self): return f"ArrayV({self.base}, {len(self.log)} updates, size {short(self.size)})"
class Obj:
    __slots__ = ("cls", "f", "lazy")
    def __init__(self, cls, f, lazy=None): self.cls = cls; self.f = f; self.lazy = lazy
    def __eq__(self, o): return self is o or (isinstance(o, Obj) and self.cls == o.cls and self.f == o.f and self.lazy == o.lazy)
    def __hash__(self): return hash((self.cls, self.lazy))
    def __repr__(self): return f"{self.cls}{self.f}"
class CL:
    __slots__ = ("els",)
    def __init__(self, els): self.els = tuple(els)
    def __eq__(self, o): return isinstance(o, CL) and self.els == o.els
    def __hash__(self): return hash(len(self.els))
    def __repr__(self): return "{" + ", ".join(map(repr, self.els)) + "}"
class Str:
    __slots__ = ("p",)
    def __init__(self, p):
        out = []
        for x in p:
            if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
            elif x != "": out.append(x)
        self.p = tuple(out)
    def __eq__(self, o): return isinstance(o, Str) and self.p == o.p
    def __hash__(self): return hash(self.p)
    def __add__(self, o): return Str(self.p + o.p)
    def __repr__(self): return "+".join(repr(x) for x in self.p) or '""'
class Ptr:
    __slots__ = ("root", "path")
    def __init__(self, root, path): self.root = root; self.path = path
    def __eq__(self, o): return isinstance(o, Ptr) and self.root == o.root and self.path == o.path
    def __hash__(self): return hash((self.root, self.path))
    def __repr__(self): return f"&{self.root}{self.path}"
class Iter:
    __slots__ = ("root", "path", "idx")
    def __init__(self, root, path, idx): self.root = root; self.path = path; self.idx = idx
    def __eq__(self, o): return isinstance(o, Iter) and self.root == o.root and self.path == o.path and self.idx == o.idx
    def __hash__(self): return hash((self.root, self.path, self.idx))
    def __repr__(self): return f"it({self.root}{self.path}+{short(self.idx)})"
class Clo:
    __slots__ = ("node", "frame", "caps")
    def __init__(self, node, frame, caps): self.node = node; self.frame = frame; self.caps = caps
class Comma:
    __slots__ = ("lv", "pos")
    def __init__(self, lv, pos): self.lv = lv; self.pos = pos
class Opq:
    __slots__ = ("tag",)
    def __init__(self, tag): self.tag = tag
    def __eq__(self, o): return isinstance(o, Opq) and self.tag == o.tag
    def __hash__(self): return hash(self.tag)
    def __repr__(self): return f"<{self.tag}>"
class SVDv:
    __slots__ = ("U", "V", "s")
    def __init__(self, U, V, s): self.U = U; self.V = V; self.s = s
class LV:
    __slots__ = ("root", "path")
    def __init__(self, root, path): self.root = root; self.path = path
    def __add__(self, step): return LV(self.root, self.path + (step,))
    def __repr__(self): return f"LV({self.root},{self.path})"
VOID = Opq("void")

# ------------------------------------------------------------- types
def strip(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith("const "): t = t[6:]
        if t.endswith("&"): t = t[:-1].strip()
        if t.endswith("const"): t = t[:-5].strip()
        if o == t: return t
def targs(t):
    i = t.find("<")
    if i < 0: return []
    d = 0; out = []; cur = ""
    for ch in t[i + 1:]:
        if ch == "<": d += 1
        if ch == ">":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip())
    return out
_mat = re.compile(r"^Eigen::(Matrix|Array)<(\w[\w ]*), (-?\d+), (-?\d+)")
def matshape(t):
    m = _mat.match(strip(t))
    return (int(m.group(3)), int(m.group(4)), m.group(1) == "Array") if m else None
INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char", "long long", "unsigned long long"}
FLTS = {"double", "float", "long double"}
def is_ref(t): return t.rstrip().endswith("&")

# ------------------------------------------------------------- joins
def vite(c, a, b):
    if a is b: return a
    if c.op == "T": return a
    if c.op == "F": return b
    if isinstance(a, (Poly, Cond)) and isinstance(b, (Poly, Cond)):
        return a if a == b else ite(c, a, b)
    if a == b: return a
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [ite(c, x, y) for x, y in zip(a.e, b.e)], a.arr)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
        f = {}
        for k in list(a.f) + [k for k in b.f if k not in a.f]:
            x = a.f.get(k); y = b.f.get(k)
            if x is None or y is None:
                src = a if x is None else b
                if src.lazy is not None and LAZY is not None:
                    v = LAZY(src, k)
                    if x is None: x = v
                    else: y = v
                else: f[k] = x if y is None else y; continue
            f[k] = vite(c, x, y)
        return Obj(a.cls, f, a.lazy)
    if isinstance(a, ArrayV) and isinstance(b, ArrayV):
        if a.base == b.base:
            n = 0
            while n < len(a.log) and n < len(b.log) and (a.log[n] is b.log[n] or a.log[n] == b.log[n]): n += 1
            log = a.log[:n] + tuple(guard_up(c, u) for u in a.log[n:]) + tuple(guard_up(Not(c), u) for u in b.log[n:])
            return ArrayV(a.et, a.base, log, ite(c, a.size, b.size))
        return ArrayV(a.et, ("ite", c, a, b), (), ite(c, a.size, b.size))
    if isinstance(a, CL) and isinstance(b, CL) and len(a.els) == len(b.els):
        return CL([vite(c, x, y) for x, y in zip(a.els, b.els)])
    if isinstance(a, Iter) and isinstance(b, Iter) and a.root == b.root and a.path == b.path:
        return Iter(a.root, a.path, ite(c, a.idx, b.idx))
    if isinstance(a, Str) and isinstance(b, Str):
        return Str((("ite", c, a, b),))
    if isinstance(a, SVDv) and isinstance(b, SVDv):
        return SVDv(vite(c, a.U, b.U), vite(c, a.V, b.V), vite(c, a.s, b.s))
    if isinstance(a, tuple) and isinstance(b, tuple):   # event logs
        n = 0
        while n < len(a) and n < len(b) and a[n] is b[n]: n += 1
        return a[:n] + tuple((And(c, x[0]), x[1]) for x in a[n:]) + tuple((And(Not(c), x[0]), x[1]) for x in b[n:])
    if isinstance(a, Opq): return a
    if isinstance(b, Opq): return b
    return Opq("join")
LAZY = None
def guard_up(c, u): return (u[0], And(c, u[1])) + u[2:]

def vmap(v, fp, fc):
    """rebuild a value with fp on Polys and fc on Conds"""
    if isinstance(v, Poly): return fp(v)
    if isinstance(v, Cond): return fc(v)
    if isinstance(v, Mat): return Mat(v.r, v.c, [fp(x) for x in v.e], v.arr)
    if isinstance(v, Obj): return Obj(v.cls, {k: vmap(x, fp, fc) for k, x in v.f.items()}, v.lazy)
    if isinstance(v, CL): return CL([vmap(x, fp, fc) for x in v.els])
    if isinstance(v, ArrayV):
        b = v.base
        if b[0] == "fill": b = ("fill", vmap(b[1], fp, fc))
        elif b[0] == "ite": b = ("ite", fc(b[1]), vmap(b[2], fp, fc), vmap(b[3], fp, fc))
        return ArrayV(v.et, b, tuple(upmap(u, fp, fc) for u in v.log), fp(v.size))
    if isinstance(v, Iter): return Iter(v.root, pathmap(v.path, fp), fp(v.idx))
    if isinstance(v, Ptr): return Ptr(v.root, pathmap(v.path, fp))
    if isinstance(v, SVDv): return SVDv(vmap(v.U, fp, fc), vmap(v.V, fp, fc), vmap(v.s, fp, fc))
    if isinstance(v, Str):
        def pt(x):
            if isinstance(x, tuple) and x[0] == "num": return ("num", fp(x[1]))
            if isinstance(x, tuple) and x[0] == "ite": return ("ite", fc(x[1]), vmap(x[2], fp, fc), vmap(x[3], fp, fc))
            return x
        return Str(tuple(pt(x) for x in v.p))
    if isinstance(v, tuple): return tuple(vmap(x, fp, fc) for x in v)
    if isinstance(v, list): return [vmap(x, fp, fc) for x in v]
    if isinstance(v, dict): return {k: vmap(x, fp, fc) for k, x in v.items()}
    if isinstance(v, LV): return LV(v.root, pathmap(v.path, fp))
    return v
def pathmap(p, fp): return tuple((s[0],) + tuple(fp(x) if isinstance(x, Poly) else x for x in s[1:]) for s in p)
def upmap(u, fp, fc):
    k = u[0]; g = fc(u[1])
    if k in ("set", "add"): return (k, g, pathmap(u[2], fp), fp(u[3]), vmap(u[4], fp, fc))
    if k == "all": return (k, g, vmap(u[2], fp, fc))
    if k == "app": return (k, g, vmap(u[2], fp, fc), fp(u[3]))
    if k == "for": return (k, g, u[2], fp(u[3]), tuple(upmap(x, fp, fc) for x in u[4]))
    if k == "res": return (k, g, fp(u[2]), fp(u[3]), vmap(u[4], fp, fc))
    return u
def vsubst(v, mp):
    if not mp: return v
    rw = Rewriter(lambda a: mp.get(a.id))
    return vmap(v, rw.poly, rw.cond)
def vdeps(v):
    out = set()
    def fp(p): out.update(any_deps(p)); return p
    def fc(c): out.update(any_deps(c)); return c
    vmap(v, fp, fc)
    return out
