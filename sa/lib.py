"""Effect summaries of the library calls the code base makes (Eigen, std, tinyply, libc)."""
import re, os
from .dom import *
from . import dom, vals
from .vals import *

MATH1 = {"exp": "exp", "log": "log", "sin": "sin", "cos": "cos", "tan": "tan", "tanh": "tanh", "sinh": "sinh", "cosh": "cosh", "asinh": "asinh",
         "atan": "atan", "cbrt": "cbrt", "floor": "floor", "ceil": "ceil", "trunc": "trunc", "sqrt": "sqrt", "abs": "abs", "fabs": "abs", "acos": "acos",
         "asin": "asin", "log2": "log2", "log10": "log10", "expm1": "expm1", "log1p": "log1p", "round": "round", "acosh": "acosh", "atanh": "atanh", "lround": "round"}
ASGOPS = {"operator+=", "operator-=", "operator*=", "operator/=", "operator%="}
BINOPS = {"operator+", "operator-", "operator*", "operator/", "operator%", "operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="}
PURE = {"strerror", "__errno_location", "gettimeofday", "now", "duration_cast", "count", "setprecision", "setw", "setfill", "rdbuf", "omp_get_thread_num",
        "omp_get_num_threads", "omp_get_max_threads", "omp_set_num_threads", "omp_get_wtime", "rand", "srand", "time", "clock", "time_since_epoch", "fixed",
        "scientific", "flush", "endl", "precision", "width", "tellp", "eof", "good", "fail", "is_open", "what", "operator|", "set_default_seed", "operator bool", "operator!"}

def mat_of(name, t, q):
    """shape for a static factory from its type or qualified name"""
    for s in (t, q):
        m = None
        for m in re.finditer(r"Eigen::(Matrix|Array)<\w[\w ]*, (\d+), (\d+)", s): pass
        if m: return int(m.group(2)), int(m.group(3)), m.group(1) == "Array"
    return None

def libcall(I, e, n, q):
    args = e.get("args", [])
    meth = bool(e.get("meth")) and not e.get("smeth")
    # ---- object / operand
    obj = None; rest = args
    if meth:
        if "obj" in e:
            if e.get("arrow"): obj = I.deref(I.ev0(e["obj"]))
            else: obj = I.ev0(e["obj"])
        elif args: obj = I.ev0(args[0]); rest = args[1:]
    if obj is not None:
        ov = I.peek(obj) if isinstance(obj, LV) else obj
        if isinstance(ov, Ptr) and not n.startswith("operator") and n not in ("get", "reset", "release"):
            obj = LV(ov.root, ov.path); ov = I.peek(obj)
        r = method(I, e, n, q, obj, ov, rest)
        if r is not NotImplemented: return r
    else:
        r = free(I, e, n, q, args)
        if r is not NotImplemented: return r
    # ---- unknown: uninterpreted in its value arguments; reference arguments become unknown
    return unknown(I, e, n, q, obj, rest)

def unknown(I, e, n, q, obj, rest):
    flat = []; outs = []
    pts = e.get("pt") or []
    for i, a in enumerate(rest):
        v = I.ev0(a)
        pt = pts[i] if i < len(pts) else ""
        if isinstance(v, LV) and is_ref(pt) and not pt.strip().startswith("const"): outs.append(v)
        w = I.rd(v) if isinstance(v, LV) else v
        if isinstance(w, Mat): flat += list(w.e)
        elif isinstance(w, (Poly, Cond)): flat.append(w)
        else: flat.append(repr(w)[:200])
    if obj is not None:
        w = I.peek(obj) if isinstance(obj, LV) else obj
        if isinstance(w, Mat): flat = list(w.e) + flat
        elif isinstance(w, (Poly, Cond)): flat = [w] + flat
        elif isinstance(w, ArrayV):
            if not e.get("const") and isinstance(obj, LV):
                I.note(f"unmodelled container call {q}"); I.wr(obj, I.havoc_like(w, "call"))
    for l in outs: I.wr(l, I.havoc_like(I.peek(l), f"output of {n}"))
    if n not in PURE: I.note(f"uninterpreted call {q.split('<')[0]}::{n}" if "::" not in n else n)
    I.event(("call", n, tuple(flat))) if n in ("exit", "abort", "terminate", "_exit", "quick_exit") else None
    t = strip(e.get("t", ""))
    if t == "bool": return Cond("b", atom("bvar", "call:" + n, *flat))
    if t in FLTS or t in INTS:
        if n == "omp_get_thread_num": return Poly.of(atom("in", "omp_tid"))
        if n in PURE: return fresh(n)
        return fn("call:" + n, *flat)
    m = matshape(t) or (mat_of(n, t, q) if "Eigen::" in t else None)
    if m and m[0] > 0: return Mat(m[0], m[1], [Poly.of(atom("fn", f"call:{n}#{i}", *flat)) for i in range(m[0] * m[1])], m[2])
    if t == "void" or not t: return VOID
    if t.startswith("std::vector<"): return ArrayV(targs(t)[0], ("in", f"call:{n}"), (), Poly.of(atom("in", f"call:{n}.size")))
    if n == "operator|": return Opq("|".join(map(repr, flat)))
    return Opq(n)

# ------------------------------------------------------------------ methods
def val(I, obj): return I.rd(obj) if isinstance(obj, LV) else obj
def method(I, e, n, q, obj, ov, rest):
    if isinstance(ov, Clo) and n == "operator()": return I.call_clo(ov, rest)
    if isinstance(ov, (Ptr, Iter)) or (isinstance(ov, Opq) and n in ("operator->", "operator*", "get") and not isinstance(ov, Mat)):
        r = ptr_method(I, n, obj, ov, rest)
        if r is not NotImplemented: return r
    if isinstance(ov, Mat): return mat_method(I, e, n, q, obj, ov, rest)
    if isinstance(ov, SVDv):
        v = val(I, obj)
        if n == "matrixU": return v.U
        if n == "matrixV": return v.V
        if n == "singularValues": return v.s
        if n == "compute": return obj
        if n == "operator=":
            I.wr(obj, I.ev(rest[0])); return obj
    if isinstance(ov, ArrayV): return vec_method(I, e, n, obj, ov, rest)
    if isinstance(ov, CL): return cl_method(I, e, n, obj, ov, rest)
    if isinstance(ov, Comma):
        if n == "operator,": return comma_next(I, ov, I.ev(rest[0]))
        if n == "finished": return ov.lv
    if isinstance(ov, Str):
        if n in ("c_str", "str", "data"): return ov
        if n == "operator=":
            v = I.ev(rest[0]); I.wr(obj, v if isinstance(v, Str) else I.tostr(v)); return obj
        if n in ("operator+=", "append"):
            v = I.ev(rest[0]); I.wr(obj, val(I, obj) + I.tostr(v)); return obj
        if n in ("size", "length"): return fn("strlen", repr(ov))
        if n == "empty": return bvar("strempty", repr(ov))
    if isinstance(ov, Obj):
        if n == "operator=":
            v = I.ev(rest[0])
            if isinstance(v, Obj) or isinstance(v, Opq): I.wr(obj, v); return obj
        if n.startswith("~"): return VOID
    if isinstance(ov, (Poly, Cond)):
        if n == "operator=": I.wr(obj, I.ev(rest[0])); return obj
        if n.startswith("operator ") or n == "value": return val(I, obj)
    if isinstance(ov, Opq): return opq_method(I, e, n, q, obj, ov, rest)
    return NotImplemented

def ptr_method(I, n, obj, ov, rest):
    if n == "operator->": return val(I, obj)
    if n == "operator*" and not rest: return I.deref(ov)
    if n == "get": return val(I, obj)
    if n == "operator[]": 
        i = P(I.ev(rest[0]))
        if isinstance(ov, Iter): return LV(ov.root, ov.path + (("i", ov.idx + i),))
        return LV(ov.root, ov.path + (("i", i),))
    if n in ("operator++", "operator--"):
        old = I.rd(obj); d = ONE if n == "operator++" else -ONE
        I.wr(obj, Iter(old.root, old.path, old.idx + d))
        return old if rest else obj
    if n in ("operator+", "operator-") and rest:
        return I.vadd(val(I, obj), I.ev(rest[0]), 1 if n == "operator+" else -1)
    if n in ("operator+=", "operator-="):
        I.wr(obj, I.vadd(val(I, obj), I.ev(rest[0]), 1 if n == "operator+=" else -1)); return obj
    if n == "operator=":
        I.wr(obj, I.ev(rest[0])); return obj
    if n == "operator bool": return B(isinstance(ov, (Ptr, Iter)))
    if n in ("operator==", "operator!=", "operator<") and rest: return I.cmp(n[8:], val(I, obj), I.ev(rest[0]))
    if n == "base": return val(I, obj)
    return NotImplemented

def view(I, obj, ov, *s):
    if isinstance(obj, LV): return obj + (("view",) + s)
    return I.mview(ov, ("view",) + s)
def mvals(I, args):
    return [I.ev(a) for a in args]
def sumsq(v):
    s = ZERO
    for x in v.e: s = s + x * x
    return s
def mat_method(I, e, n, q, obj, ov, rest):
    t = strip(e.get("t", ""))
    if n in ("operator()", "operator[]", "coeff", "coeffRef"): return I.coef(obj, rest)
    if n in ("x", "y", "z", "w") and not rest: return I.coef(obj, [{"k": "int", "v": "xyzw".index(n)}])
    if n in ("array", "matrix"): return view(I, obj, ov, n)
    if n in ("head", "tail", "segment", "topRows", "bottomRows"):
        ta = re.search(r"Eigen::VectorBlock<.*, (\d+)>", e.get("t", ""))
        a = [P(x) for x in mvals(I, rest)]
        if n == "head": o, k = ZERO, a[0] if a else Poly.c(int(ta.group(1)))
        elif n == "tail":
            k = a[0] if a else Poly.c(int(ta.group(1))); o = Poly.c(len(ov.e)) - k
        else:
            o = a[0]; k = a[1] if len(a) > 1 else Poly.c(int(ta.group(1)))
        return view(I, obj, ov, "seg", o, k)
    if n == "row": return view(I, obj, ov, "row", P(I.ev(rest[0])))
    if n == "col": return view(I, obj, ov, "col", P(I.ev(rest[0])))
    if n == "diagonal": return view(I, obj, ov, "diag")
    if n in ("block", "topLeftCorner"):
        a = [P(x) for x in mvals(I, rest)]
        if n == "block" and len(a) == 4: return view(I, obj, ov, "blk", *a)
        if n == "block" and len(a) == 2:
            m = re.search(r"Eigen::Block<.*, (\d+), (\d+), \w+>", e.get("t", ""))
            if m: return view(I, obj, ov, "blk", a[0], a[1], Poly.c(int(m.group(1))), Poly.c(int(m.group(2))))
        return NotImplemented
    # mutators
    if n == "operator=":
        v = I.ev(rest[0])
        if isinstance(v, Opq): v = I.havoc_like(ov, "opaque")
        if not isinstance(v, Mat): return NotImplemented
        if (v.r, v.c) != (ov.r, ov.c) and len(v.e) == len(ov.e): v = v.T()
        I.wr(obj, Mat(v.r, v.c, v.e, ov.arr)); return obj
    if n in ASGOPS:
        v = I.ev(rest[0])
        if n in ("operator+=", "operator-="):
            if isinstance(v, Poly): v = ov.map(lambda x: v)
            return I.addto(obj, v, 1 if n == "operator+=" else -1)
        cur = I.rd(obj)
        I.wr(obj, I.vmul(cur, v) if n == "operator*=" else I.vdiv(cur, v)); return obj
    if n in ("setZero", "setOnes", "setIdentity", "setConstant", "fill"):
        if n == "setIdentity": nv = mident(ov.r)
        else:
            x = ZERO if n == "setZero" else ONE if n == "setOnes" else P(I.ev(rest[0])); nv = ov.map(lambda _: x)
        I.wr(obj, Mat(nv.r, nv.c, nv.e, ov.arr)); return obj
    if n == "normalize":
        v = I.rd(obj); k = sqrt(sumsq(v)); I.wr(obj, v.map(lambda x: x / k)); return VOID
    if n == "transposeInPlace": I.wr(obj, I.rd(obj).T()); return VOID
    if n == "noalias" or n == "eval" or n == "derived" or n == "lazyProduct": return obj if not rest else NotImplemented
    if n == "operator<<":
        if not isinstance(obj, LV): return NotImplemented
        return comma_next(I, Comma(obj, 0), I.ev(rest[0]))
    if n == "swap":
        o2 = I.lv(rest[0]); a, b = I.rd(obj), I.rd(o2); I.wr(obj, b); I.wr(o2, a); return VOID
    v = val(I, obj)
    a = mvals(I, rest)
    if n in ("size", "rows", "cols"): return Poly.c({"size": len(v.e), "rows": v.r, "cols": v.c}[n])
    if n in ("operator*", "cwiseProduct", "operator/", "cwiseQuotient"):
        b = a[0]
        if n == "cwiseProduct": return Mat(v.r, v.c, [x * y for x, y in zip(v.e, b.e)], v.arr)
        if n == "cwiseQuotient": return Mat(v.r, v.c, [x / y for x, y in zip(v.e, b.e)], v.arr)
        return I.vmul(v, b) if n == "operator*" else I.vdiv(v, b)
    if n == "operator-" and not a: return v.map(lambda x: -x)
    if n in ("operator+", "operator-"): return I.vadd(v, a[0], 1 if n == "operator+" else -1)
    if n in ("operator==", "operator!="): return I.cmp(n[8:], v, a[0])
    if n == "dot":
        s = ZERO
        for x, y in zip(v.e, a[0].e): s = s + x * y
        return s
    if n == "squaredNorm": return sumsq(v)
    if n in ("norm", "stableNorm"): return sqrt(sumsq(v))
    if n in ("normalized", "stableNormalized"):
        k = sqrt(sumsq(v))
        # Eigen leaves a zero vector unchanged
        z = decide(eq0(sumsq(v)))
        return v.map(lambda x: ite(z, x, x / k) if z.op == "T" else x / k)
    if n == "cross":
        b = a[0]; x, y = v.e, b.e
        if len(x) == 3: return Mat(v.r, v.c, [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])
        return x[0] * y[1] - x[1] * y[0]
    if n in ("transpose", "adjoint"): return v.T()
    if n == "inverse":
        if v.arr: return v.map(lambda x: ONE / x)
        return vals.minv(v)
    if n == "cwiseInverse": return v.map(lambda x: ONE / x)
    if n == "determinant": return mdet(v)
    if n == "trace":
        s = ZERO
        for i in range(v.r): s = s + v.at(i, i)
        return s
    if n == "sum" or n == "mean":
        s = ZERO
        for x in v.e: s = s + x
        return s if n == "sum" else s / len(v.e)
    if n == "prod":
        s = ONE
        for x in v.e: s = s * x
        return s
    if n == "asDiagonal":
        k = len(v.e); return Mat(k, k, [v.e[i] if i == j else ZERO for i in range(k) for j in range(k)])
    if n in ("abs", "log", "exp", "sqrt", "tanh", "sinh", "cosh", "floor", "ceil", "sin", "cos", "tan", "asinh", "cwiseAbs", "cwiseSqrt"):
        f = {"cwiseAbs": "abs", "cwiseSqrt": "sqrt"}.get(n, n)
        return v.map(lambda x: fn(f, x))
    if n in ("square", "cwiseAbs2", "abs2"): return v.map(lambda x: x * x)
    if n == "cube": return v.map(lambda x: x * x * x)
    if n == "pow": return v.map(lambda x: fn("pow", x, P(a[0])))
    if n in ("max", "cwiseMax", "min", "cwiseMin"):
        f = mx if "ax" in n else mn
        b = a[0]
        if isinstance(b, Mat): return Mat(v.r, v.c, [f(x, y) for x, y in zip(v.e, b.e)], v.arr)
        return v.map(lambda x: f(x, P(b)))
    if n in ("maxCoeff", "minCoeff"):
        r = v.e[0]
        for x in v.e[1:]: r = mx(r, x) if n == "maxCoeff" else mn(r, x)
        return r
    if n in ("isZero",): return And(*[eq0(x) for x in v.e])
    if n in ("allFinite",): return bvar("finite", *v.e)
    if n in ("hasNaN",): return bvar("nan", *v.e)
    if n in ("any", "all"):
        cs = [Not(eq0(x)) for x in v.e]; return Or(*cs) if n == "any" else And(*cs)
    if n in ("cast",): return v
    if n == "data": return NotImplemented
    if n.startswith("operator ") or n == "value": return v.e[0] if len(v.e) == 1 else NotImplemented
    return NotImplemented
def comma_next(I, c, v):
    ov = I.peek(c.lv)
    xs = list(v.e) if isinstance(v, Mat) else [P(v)]
    p = c.pos
    for x in xs:
        I.wr(c.lv + ("c", Poly.c(p // ov.c), Poly.c(p % ov.c)), x); p += 1
    return Comma(c.lv, p)

def crec(I, mode, l): I.rec(mode, l.root, l.path + (("cont",),))
def vec_method(I, e, n, obj, ov, rest):
    if not isinstance(obj, LV): obj = LV(I.new(ov, "tmp"), ())
    if n in ("operator[]", "at"): return obj + ("i", P(I.ev(rest[0])))
    if n == "size": crec(I, "R", obj); return ov.size
    if n == "empty": crec(I, "R", obj); return eq0(ov.size)
    if n in ("begin", "cbegin", "data"): crec(I, "R", obj); return Iter(obj.root, obj.path, ZERO)
    if n in ("end", "cend"): crec(I, "R", obj); return Iter(obj.root, obj.path, ov.size)
    if n == "front": return obj + ("i", ZERO)
    if n == "back": return obj + ("i", ov.size - 1)
    if n in ("reserve", "shrink_to_fit", "capacity"):
        for a in rest: I.ev(a)
        crec(I, "W", obj); return VOID
    def put(A):
        I.S[obj.root] = I.pput(I.S[obj.root], obj.path, A, "set")
        crec(I, "W", obj)
    if n == "operator=":
        v = I.ev(rest[0])
        if isinstance(v, CL):
            A = ArrayV(ov.et, ("fill", None), (), Poly.c(len(v.els)))
            for i, a in enumerate(v.els): A = A.add(("set", TRUE, (), Poly.c(i), a))
            v = A
        if isinstance(v, Opq): v = I.havoc_like(ov, "opaque")
        put(v); return obj
    if n in ("push_back", "emplace_back"):
        if n == "emplace_back" and len(rest) != 1:
            m = matshape(ov.et)
            vs = [I.ev(a) for a in rest]
            v = Mat(m[0], m[1], [P(x) for x in vs], m[2]) if m and len(vs) == m[0] * m[1] else (I.default(ov.et, True) if not vs else Opq("emplace"))
        else: v = I.ev(rest[0])
        cur = I.peek(obj)
        put(ArrayV(cur.et, cur.base, cur.log + (("app", TRUE, v, cur.size),), cur.size + 1)); return VOID
    if n == "pop_back": put(ov.sized(ov.size - 1)); return VOID
    if n == "clear": put(ArrayV(ov.et, ("fill", None), (), ZERO)); return VOID
    if n == "resize":
        k = P(I.ev(rest[0])); cur = I.peek(obj)
        if I.simp(le(k, cur.size)).op == "T": put(cur.sized(k)); return VOID       # only shrinks
        if len(rest) > 1: f = I.ev(rest[1])
        else: f = I.default(cur.et, matshape(cur.et) is None, "resized element of " + (obj.path[-1][1] if obj.path and obj.path[-1][0] == "f" else "vector"))
        if cur.size.is_zero(): A = ArrayV(cur.et, ("fill", f), (), k)
        else: A = ArrayV(cur.et, cur.base, cur.log + (("res", TRUE, cur.size, k, f),), k)
        put(A); return VOID
    if n == "assign":
        a = [I.ev(x) for x in rest]
        if len(a) == 2 and not isinstance(a[0], Iter): put(ArrayV(ov.et, ("fill", a[1]), (), P(a[0]))); return VOID
        if len(a) == 2 and isinstance(a[0], Iter):
            src = I.peek(LV(a[0].root, a[0].path))
            if isinstance(src, ArrayV) and a[0].idx.is_zero() and a[1].idx == src.size: put(src); return VOID
    if n == "erase":
        a = [I.ev(x) for x in rest]
        cur = I.peek(obj)
        if len(a) == 2 and isinstance(a[0], Iter) and a[1].idx == cur.size:
            put(cur.sized(a[0].idx)); return a[0]
        if len(a) == 2 and isinstance(a[0], Iter):
            I.event(("erase", repr(obj.path), a[0].idx, a[1].idx))
            put(ArrayV(cur.et, ("in", f"erased{next(dom._fresh)}"), (), cur.size - (a[1].idx - a[0].idx))); return a[0]
        if len(a) == 1: put(ArrayV(cur.et, ("in", f"erased{next(dom._fresh)}"), (), cur.size - 1)); return a[0]
    if n == "insert":
        a = [I.ev(x) for x in rest]; cur = I.peek(obj)
        if len(a) == 2 and isinstance(a[0], Iter) and a[0].idx == cur.size:
            put(ArrayV(cur.et, cur.base, cur.log + (("app", TRUE, a[1], cur.size),), cur.size + 1)); return a[0]
        if len(a) == 3 and isinstance(a[0], Iter) and a[0].idx == cur.size and isinstance(a[1], Iter):
            src = I.peek(LV(a[1].root, a[1].path)); cnt = a[2].idx - a[1].idx
            b = I.binder(cnt); bP = Poly.of(b)
            v = I.aget(src, a[1].idx + bP)
            put(ArrayV(cur.et, cur.base, cur.log + (("for", TRUE, b, cnt, (("app", TRUE, v, cur.size + bP),)),), cur.size + cnt)); return a[0]
        if len(a) == 3 and isinstance(a[0], Iter) and a[0].idx == cur.size:
            cnt = P(a[1]); b = I.binder(cnt)
            put(ArrayV(cur.et, cur.base, cur.log + (("for", TRUE, b, cnt, (("app", TRUE, a[2], cur.size + Poly.of(b)),)),), cur.size + cnt)); return a[0]
    if n == "swap":
        o2 = I.lv(rest[0]); a, b = I.peek(obj), I.peek(o2)
        put(b); I.S[o2.root] = I.pput(I.S[o2.root], o2.path, a, "set"); crec(I, "W", o2); return VOID
    return NotImplemented
def cl_method(I, e, n, obj, ov, rest):
    if n in ("operator[]", "at"):
        i = P(I.ev(rest[0]))
        return obj + ("i", i) if isinstance(obj, LV) else I.pget(ov, (("i", i),))
    if n in ("size", "max_size"): return Poly.c(len(ov.els))
    if n == "empty": return B(not ov.els)
    if n in ("begin", "cbegin", "data", "end", "cend"):
        if not isinstance(obj, LV): obj = LV(I.new(ov, "tmp"), ())
        return Iter(obj.root, obj.path, ZERO if n in ("begin", "cbegin", "data") else Poly.c(len(ov.els)))
    if n in ("front", "back"): return obj + ("i", Poly.c(0 if n == "front" else len(ov.els) - 1))
    if n == "operator=":
        v = I.ev(rest[0]); I.wr(obj, v); return obj
    if n == "fill":
        x = I.ev(rest[0]); I.wr(obj, CL([x] * len(ov.els))); return VOID
    if n in ("push_back", "emplace_back"):
        I.wr(obj, CL(list(ov.els) + [I.ev(rest[0])])); return VOID
    return NotImplemented

STREAMS = ("std::basic_ostream", "std::basic_ofstream", "std::basic_ios", "std::basic_fstream", "std::basic_stringstream", "std::basic_ostringstream")
def opq_method(I, e, n, q, obj, ov, rest):
    if n == "operator<<" or (n == "write" and "PlyFile" not in q) or n == "put":
        return stream_out(I, obj, ov, rest)
    if n in ("open",):
        a = [I.ev(x) for x in rest]; I.event(("open", ov.tag, a[0] if a else None, tuple(repr(x) for x in a[1:]), "open")); return VOID
    if n in ("close",): I.event(("close", ov.tag)); return VOID
    if ov.tag.startswith("stream"):
        if n in ("operator bool", "good"): return bvar("streamgood", ov.tag)
        if n in ("operator!", "fail", "bad"): return Not(bvar("streamgood", ov.tag))
        if n == "is_open": return bvar("streamopen", ov.tag)
    if n == "add_properties_to_element":
        a = [I.ev0(x) if i in (3,) else I.ev0(x) for i, x in enumerate(rest)]
        vs = [I.rd(x) if isinstance(x, LV) else x for x in a]
        data = None
        for x in vs:
            if isinstance(x, Iter): data = (x, I.peek(LV(x.root, x.path)))
        I.event(("plyadd", ov.tag, tuple(v for v in vs), data)); return VOID
    if n == "write" and "PlyFile" in q:
        a = [I.ev(x) for x in rest]; cols = []
        for c, ev in I.S["EV"]:      # the columns are read through the registered pointers when the file is written
            if ev[0] == "plyadd" and ev[1] == ov.tag:
                it = ev[3][0] if ev[3] else None
                cols.append((c, ev[2], it, I.peek(LV(it.root, it.path)) if it is not None else None, it is not None and it.root in I.dead, ev[-1]))
        I.event(("plywrite", ov.tag, a[0].tag if isinstance(a[0], Opq) else repr(a[0]), a[1] if len(a) > 1 else FALSE, tuple(cols))); return VOID
    if n == "operator=" and isinstance(obj, LV):
        v = I.ev(rest[0]); I.wr(obj, v); return obj
    if n == "operator()" and ov.tag.startswith("func:"): return NotImplemented
    if n in ("operator[]", "operator()"):
        for a in rest: I.ev(a)
        return Opq(ov.tag + "[]")
    return NotImplemented
def is_console(tag): return any(x in tag for x in ("cout", "cerr", "clog"))
def stream_out(I, obj, ov, rest):
    tag = ov.tag
    if is_console(tag):
        for a in rest:
            try: I.ev(a)
            except Unsup: pass
        return Opq(tag)
    vs = [I.ev(a) for a in rest]
    for v in vs:
        if isinstance(v, Opq) and v.tag.startswith("func:"): I.event(("out", tag, Str(("\n",)) if "endl" in v.tag else Str(("",))))
        elif isinstance(v, (Poly, Cond, Str, Mat)): I.event(("out", tag, v))
        elif isinstance(v, Opq) and v.tag in ("setprecision", "setw", "setfill", "fixed", "scientific"): pass
        else: I.event(("out", tag, I.tostr(v)))
    return Opq(tag)

# ------------------------------------------------------------------ free functions
def rng(I, a, b):
    """(lvalue of container, array, lo, hi) for an iterator pair"""
    if not isinstance(a, Iter) or not isinstance(b, Iter): raise Unsup("iterator range")
    l = LV(a.root, a.path); return l, I.peek(l), a.idx, b.idx
def free(I, e, n, q, args):
    t = strip(e.get("t", ""))
    if n in ("Zero", "Ones", "Identity", "Constant", "Random", "UnitX", "UnitY", "UnitZ") and "Eigen" in q:
        m = mat_of(n, "", q) or mat_of(n, t, "")
        if m is None or m[0] <= 0: return NotImplemented
        vs = [I.ev(a) for a in args]
        if n == "Zero": return mzero(m[0], m[1], m[2])
        if n == "Ones": return Mat(m[0], m[1], [ONE] * (m[0] * m[1]), m[2])
        if n == "Identity": return mident(m[0])
        if n == "Constant": return Mat(m[0], m[1], [P(vs[-1])] * (m[0] * m[1]), m[2])
        if n == "Random": return Mat(m[0], m[1], [fresh("random") for _ in range(m[0] * m[1])], m[2])
        if n.startswith("Unit"):
            k = "XYZ".index(n[-1]); return Mat(m[0], m[1], [ONE if i == k else ZERO for i in range(m[0])])
    if "numeric_limits" in q:
        a = atom("in", q); dom.SIGNS.setdefault(a.id, 1) if n in ("infinity", "max", "epsilon", "min") else None
        return Poly.of(a) if n != "lowest" else -Poly.of(_pos("in", q.replace("lowest", "max")))
    if n in ("operator<<",) and len(args) == 2:
        a = I.ev0(args[0]); av = I.peek(a) if isinstance(a, LV) else a
        if isinstance(av, Opq): return stream_out(I, a, av, args[1:])
        if isinstance(av, Mat) and isinstance(a, LV): return comma_next(I, Comma(a, 0), I.ev(args[1]))
        if isinstance(av, Comma): return NotImplemented
    if n == "operator," and len(args) == 2:
        a = I.ev(args[0])
        if isinstance(a, Comma): return comma_next(I, a, I.ev(args[1]))
    if n in ("operator>>",): 
        for a in args[1:]:
            l = I.lv(a); I.wr(l, I.havoc_like(I.peek(l), "read from stream"))
        return I.ev(args[0])
    if n in BINOPS and len(args) == 2:
        a, b = I.ev(args[0]), I.ev(args[1])
        if isinstance(a, Opq) and isinstance(b, Opq) and "chrono" in q: return Opq("duration")
        return I.binop(n[8:], a, b, t)
    if n == "operator-" and len(args) == 1: return I.neg(I.ev(args[0]))
    if n in ("move", "forward", "ref", "cref", "as_const", "addressof") and len(args) == 1:
        v = I.ev0(args[0])
        return v if n != "addressof" else Ptr(v.root, v.path)
    if n == "swap" and len(args) == 2:
        a, b = I.lv(args[0]), I.lv(args[1]); x, y = I.rd(a), I.rd(b); I.wr(a, y); I.wr(b, x); return VOID
    if n in ("make_unique", "make_shared"):
        m = re.match(r"^std::(?:unique|shared)_ptr<(.*)>$", t); c = targs(t)[0] if m else None
        if c in I.prog.records:
            cs = [f for f in I.prog.funcs.values() if f.get("cls") == c and f["n"] == c and len(f["params"]) == len(args) and f.get("body") is not None]
            if len(cs) == 1: return Ptr(I.new(I.construct(c, cs[0], args, e), c), ())
            if not args: return Ptr(I.new(I.default(c), c), ())
        return NotImplemented
    if n in ("make_pair", "make_tuple", "tie"):
        return CL([I.ev(a) for a in args])
    if n == "get" and q.startswith("std::get") and args:
        m = re.search(r"get<(\d+)", q); l = I.ev0(args[0])
        if m and isinstance(l, LV): return l + ("i", Poly.c(int(m.group(1))))
    if n in MATH1 and len(args) == 1:
        v = I.ev(args[0]); f = MATH1[n]
        if n == "abs" and q == "abs" and strip(args[0].get("t", "")) in FLTS and t in INTS: return fn("abs", fn("trunc", P(v)))
        if isinstance(v, Mat): return v.map(lambda x: fn(f, x))
        if isinstance(v, (Poly, Cond)): return fn(f, P(v))
        return NotImplemented
    if n in ("pow", "atan2", "fmod", "hypot", "remainder", "copysign") and len(args) == 2:
        a, b = I.ev(args[0]), I.ev(args[1])
        if isinstance(a, Mat): return a.map(lambda x: fn(n, x, P(b)))
        if n == "hypot": return sqrt(P(a) * P(a) + P(b) * P(b))
        return fn(n, P(a), P(b))
    if n in ("max", "min", "fmax", "fmin"):
        f = mx if "ax" in n else mn
        if len(args) == 2: return f(P(I.ev(args[0])), P(I.ev(args[1])))
        if len(args) == 1:
            v = I.ev(args[0])
            if isinstance(v, CL):
                r = P(v.els[0])
                for x in v.els[1:]: r = f(r, P(x))
                return r
    if n == "clamp" and len(args) == 3:
        v, lo, hi = [P(I.ev(a)) for a in args]; return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))
    if n in ("isnan", "isfinite", "isinf", "signbit"):
        v = I.ev(args[0]); return bvar(n, v if isinstance(v, Poly) else repr(v))
    if n in ("to_string",): return I.tostr(I.ev(args[0]))
    if n == "fma":
        a, b, c = [P(I.ev(x)) for x in args]; return a * b + c
    # ---- algorithms
    if n in ("begin", "end", "size", "data", "cbegin", "cend") and len(args) == 1:
        l = I.lv(args[0]); v = I.peek(l)
        if isinstance(v, (ArrayV, CL)): return (vec_method if isinstance(v, ArrayV) else cl_method)(I, e, n, l, v, [])
    if n in ("fill", "fill_n", "iota", "copy", "copy_n", "transform", "for_each", "generate", "max_element", "min_element", "minmax_element", "accumulate", "count_if",
             "all_of", "any_of", "none_of", "find", "find_if", "sort", "reduce", "transform_reduce", "inner_product", "remove_if", "partial_sum", "distance", "next", "prev", "advance", "reverse"):
        ex = 1 if args and "execution" in args[0].get("t", "") else 0
        return algo(I, e, n, args[ex:], t)
    if n == "mkdir":
        a = [I.ev(x) for x in args]; I.event(("mkdir", a[0])); return fresh("mkdir")
    if n in ("create_directory", "create_directories"):
        a = [I.ev(x) for x in args]; I.event(("mkdir", a[0])); return bvar("mkdir", next(dom._fresh))
    if n in ("exit", "abort", "_Exit", "terminate", "quick_exit"):
        for a in args: I.ev(a)
        I.event(("exit", n)); e["noret"] = True; return VOID
    if n == "PoissonDiskSampling": return NotImplemented
    return NotImplemented
def _pos(*k):
    a = atom(*k); dom.SIGNS.setdefault(a.id, 1); return a
def upd(I, l, A): I.S[l.root] = I.pput(I.S[l.root], l.path, A, "set")
def callf(I, f, vs):
    if isinstance(f, Clo): return I.call_clo(f, None, vs)
    raise Unsup("callable")
def algo(I, e, n, args, t):
    if n in ("fill", "fill_n"):
        a = I.ev(args[0]); b = I.ev(args[1]); v = I.ev(args[2])
        if n == "fill_n": b = Iter(a.root, a.path, a.idx + P(b))
        l, A, lo, hi = rng(I, a, b)
        if isinstance(A, CL):
            if lo.is_const() and hi.is_const():
                els = list(A.els)
                for i in range(int(lo.const()), int(hi.const())): els[i] = v
                I.wr(l, CL(els)); return VOID
            raise Unsup("fill")
        v = I.conv(v, strip(A.et))
        if isinstance(v, Poly) and matshape(A.et): raise Unsup("fill value")
        b2 = I.binder(hi - lo)
        I.rec("W", l.root, l.path + (("i", lo + Poly.of(b2)),))
        if lo.is_zero() and hi == A.size:
            upd(I, l, A.add(("all", TRUE, v))); return VOID
        upd(I, l, A.add(("for", TRUE, b2, hi - lo, (("set", TRUE, (), lo + Poly.of(b2), v),)))); return VOID
    if n in ("distance",):
        a, b = I.ev(args[0]), I.ev(args[1]); return b.idx - a.idx
    if n in ("next", "prev"):
        a = I.ev(args[0]); d = P(I.ev(args[1])) if len(args) > 1 else ONE
        return Iter(a.root, a.path, a.idx + (d if n == "next" else -d))
    if n == "advance":
        l = I.lv(args[0]); a = I.rd(l); I.wr(l, Iter(a.root, a.path, a.idx + P(I.ev(args[1])))); return VOID
    a = I.ev(args[0]); b = I.ev(args[1])
    if n in ("copy_n",): b = Iter(a.root, a.path, a.idx + P(b))
    l, A, lo, hi = rng(I, a, b)
    cnt = hi - lo
    if n in ("max_element", "min_element", "minmax_element"):
        cmpf = I.ev(args[2]) if len(args) > 2 else None
        if not isinstance(A, ArrayV): raise Unsup("extremum range")
        kx = atom("var", "•x", cnt); ky = atom("var", "•y", cnt)
        for k in (kx, ky): dom.RANGES[k.id] = (ZERO, cnt); dom.INTEGRAL.add(k.id)
        ex, ey = I.aget(A, lo + Poly.of(kx)), I.aget(A, lo + Poly.of(ky))
        I.rec("R", l.root, l.path + (("i", Poly.of(kx)),))
        c = I.truth(callf(I, cmpf, [ex, ey])) if cmpf is not None else lt(ex, ey)
        key = split_lt(c, kx, ky)
        out = []
        for kind in ({"max_element": ["max"], "min_element": ["min"]}.get(n) or ["min", "max"]):
            if key is None:
                i = Poly.of(atom("fn", "arg" + kind + "?", repr(c), cnt)); I.note("comparator is not a key comparison")
            else:
                k2, s = key
                kd = kind if s > 0 else {"max": "min", "min": "max"}[kind]
                i = I.argidx(kd, subst(k2, {kx.id: Poly.of(atom("var", "•"))}), cnt)
            out.append(Iter(l.root, l.path, lo + i))
        return out[0] if len(out) == 1 else CL(out)
    if n in ("copy", "copy_n"):
        d = I.ev(args[2])
        if not isinstance(d, Iter): raise Unsup("copy destination")
        b2 = I.binder(cnt); bP = Poly.of(b2); v = I.aget(A, lo + bP)
        dl = LV(d.root, d.path); D = I.peek(dl)
        I.rec("R", l.root, l.path + (("i", lo + bP),)); I.rec("W", dl.root, dl.path + (("i", d.idx + bP),))
        upd(I, dl, D.add(("for", TRUE, b2, cnt, (("set", TRUE, (), d.idx + bP, v),)))); return Iter(d.root, d.path, d.idx + cnt)
    if n == "iota":
        v0 = P(b) if not isinstance(b, Iter) else P(I.ev(args[2]))
        b2 = I.binder(cnt); bP = Poly.of(b2)
        upd(I, l, A.add(("for", TRUE, b2, cnt, (("set", TRUE, (), lo + bP, v0 + bP),)))); return VOID
    if n == "transform" and len(args) == 4:
        d = I.ev(args[2]); f = I.ev(args[3])
        b2 = I.binder(cnt); bP = Poly.of(b2); v = callf(I, f, [I.aget(A, lo + bP)])
        dl = LV(d.root, d.path); D = I.peek(dl)
        I.rec("R", l.root, l.path + (("i", lo + bP),)); I.rec("W", dl.root, dl.path + (("i", d.idx + bP),))
        upd(I, dl, D.add(("for", TRUE, b2, cnt, (("set", TRUE, (), d.idx + bP, v),)))); return Iter(d.root, d.path, d.idx + cnt)
    if n == "for_each":
        f = I.ev(args[2]); b2 = I.binder(cnt); bP = Poly.of(b2)
        def body():
            callf(I, f, [LV(l.root, l.path + (("i", lo + bP),))]); return TRUE, {}
        I.generic(b2, cnt, body, None, None); return VOID
    if n in ("accumulate", "reduce"):
        init = I.ev(args[2]) if len(args) > 2 else ZERO
        b2 = I.binder(cnt); bP = Poly.of(b2)
        r = I.new(init, "acc")
        f = I.ev(args[3]) if len(args) > 3 else None
        def body():
            el = I.rd(LV(l.root, l.path + (("i", lo + bP),))); cur = I.rd(LV(r, ()))
            nv = callf(I, f, [cur, el]) if f is not None else I.vadd(cur, el)
            I.wr(LV(r, ()), nv); return TRUE, {}
        I.generic(b2, cnt, body, None, None)
        return I.rd(LV(r, ()))
    if n in ("any_of", "all_of", "none_of"):
        f = I.ev(args[2]); b2 = I.binder(cnt); bP = Poly.of(b2)
        c = I.truth(callf(I, f, [I.aget(A, lo + bP)]))
        from .interp import subst_binder
        if n == "all_of": return Not(Cond("b", atom("bvar", "any", cnt, subst_binder(Not(c), b2))))
        x = Cond("b", atom("bvar", "any", cnt, subst_binder(c, b2)))
        return x if n == "any_of" else Not(x)
    return NotImplemented
def split_lt(c, kx, ky):
    """c == key(x) < key(y): returns (key as a function of kx, sign) or None"""
    if c.op not in ("lt",): 
        return None
    p = c.a
    px = Poly({m: v for m, v in p.t.items() if any(depends(A(i), kx) for i, _ in m)})
    py = p - px
    if any(depends(A(i), ky) for i in px.atoms()) or any(depends(A(i), kx) for i in py.atoms()): return None
    if subst(px, {kx.id: Poly.of(ky)}) != -py: return None
    # c: px(x) - px(y) < 0  <=> px(x) < px(y)
    if dom.lead_sign(px) < 0: return -px, -1
    return px, 1
