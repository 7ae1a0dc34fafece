"""Gated abstract interpreter: one forward pass over the resolved syntax tree computes, for
every storage location, a value number (dom.Poly / dom.Cond) with joins as gates.  Loops are
summarised (never iterated) unless their trip count is a small constant.  No path is
enumerated, nothing is executed and no solver is involved."""
import os, itertools, re
from fractions import Fraction as Fr
from .dom import *
from . import dom, vals
from .vals import *
from .frontend import Anchor

class Frame:
    __slots__ = ("vars", "this", "parent", "fn", "owned")
    def __init__(self, this=None, parent=None, fn=None): self.vars = {}; self.this = this; self.parent = parent; self.fn = fn; self.owned = []
    def get(self, i):
        f = self
        while f is not None:
            if i in f.vars: return f.vars[i]
            f = f.parent
        return None

UNROLL = 16
NT = Poly.of(atom("in", "NT")); dom.SIGNS[atom("in", "NT").id] = 1

class Interp:
    def __init__(self, prog, inputs=None, over=None, consts=None):
        self.prog = prog; self.inputs = dict(inputs or {}); self.over = dict(over or {})
        self.S = {"EV": ()}; self.uid = itertools.count(1); self.frame = None; self.dead = set(); self.picks = {}
        self.known = []            # stack of sets of conditions holding on the current path
        self.notes = []            # imprecision notes
        self.loc = (None, 0); self.depth = 0
        self.regions = []          # open parallel regions
        self.acc = None            # access recorder
        self.redops = []           # (loop, variable, declared reduction operator, operation performed)
        self.prot = []             # open critical/atomic
        self.loops = []            # open symbolic loops: dict(binder, arrays read)
        self.inlined = set(); self.breaks = []; self.loop_hook = None
        self.dim = prog.cfg["dim"]
        self.globals = {}
        self.stickies = 0
        vals.LAZY = self.lazy_field

    # ------------------------------------------------------------ inputs / defaults
    def note(self, msg):
        m = f"{os.path.basename(str(self.loc[0]))}:{self.loc[1]}: {msg}"
        if m not in self.notes: self.notes.append(m)
    def lazy_field(self, o, f):
        fd = self.field(o.cls, f)
        if fd is None: raise Unsup(f"field {o.cls}::{f}")
        return self.input(f"{o.lazy}.{f}" if o.lazy else f, fd["t"], fd)
    def field(self, cls, f):
        r = self.prog.records.get(cls)
        if r is None: return None
        for x in r["fields"]:
            if x["n"] == f: return x
        for b in r["bases"]:
            y = self.field(b, f)
            if y: return y
        return None
    def input(self, name, t, fd=None):
        if name in self.inputs:
            v = self.inputs[name]
            return v() if callable(v) else v
        if fd is not None and t.startswith("const ") and fd.get("init"):
            return self.conv(self.ev(fd["init"]), strip(t))
        s = strip(t)
        if s in FLTS: return Poly.of(atom("in", name))
        if s == "bool": return bvar(name)
        if s in INTS:
            a = atom("in", name); dom.INTEGRAL.add(a.id)
            if s.startswith("unsigned"): dom.SIGNS.setdefault(a.id, 0)
            return Poly.of(a)
        if s in self.prog.enums:
            a = atom("in", name); dom.INTEGRAL.add(a.id); dom.SIGNS.setdefault(a.id, 0); return Poly.of(a)
        m = matshape(s)
        if m and m[0] > 0 and m[1] > 0:
            return Mat(m[0], m[1], [Poly.of(atom("in", name, i) if m[1] == 1 else atom("in", name, i, j)) for i in range(m[0]) for j in range(m[1])], m[2])
        if s.startswith("std::vector<"):
            a = atom("in", name + ".size"); dom.INTEGRAL.add(a.id); dom.SIGNS.setdefault(a.id, 0)
            sz = self.inputs.get(name + ".size", Poly.of(a))
            return ArrayV(targs(s)[0], ("in", name), (), sz)
        if s.startswith("std::array<"):
            et, n = targs(s)[:2]
            return CL([self.input(f"{name}[{i}]", et) for i in range(int(n))])
        if s.startswith("std::basic_string"): return Str((("in", name),))
        if s in self.prog.records: return Obj(s, {}, name)
        return Opq("in:" + name)
    def elem_in(self, A, k):
        """element k of an input array"""
        name = A.base[1]; s = strip(A.et)
        if ("elem", name) in self.inputs: return self.inputs[("elem", name)](k)
        if s in FLTS or s in INTS or s in self.prog.enums:
            a = atom("sel", name, k)
            if s in INTS: dom.INTEGRAL.add(a.id)
            return Poly.of(a)
        if s == "bool": return Cond("b", atom("bvar", name, k))
        m = matshape(s)
        if m: return Mat(m[0], m[1], [Poly.of(atom("sel", name, k, (i,) if m[1] == 1 else (i, j))) for i in range(m[0]) for j in range(m[1])], m[2])
        if s.startswith("std::array<"):
            et, n = targs(s)[:2]
            return CL([Poly.of(atom("sel", name, k, (i,))) for i in range(int(n))])
        if s in self.prog.records: raise Unsup("input array of records")
        return Opq("elem:" + name)
    def default(self, t, zero=False, name="tmp"):
        s = strip(t)
        site = (name, os.path.basename(str(self.loc[0])), self.loc[1])
        if s in FLTS or s in INTS or s in self.prog.enums or s.endswith("*"):
            return ZERO if zero else Poly.of(atom("uninit", *site))
        if s == "bool": return FALSE if zero else Cond("b", atom("uninit", *site))
        m = matshape(s)
        if m:
            if m[0] < 0 or m[1] < 0: return Opq("dynamic matrix")
            return mzero(*m) if zero else Mat(m[0], m[1], [Poly.of(atom("uninit", site[0] + f"({i},{j})", *site[1:])) for i in range(m[0]) for j in range(m[1])], m[2])
        if s.startswith("std::vector<"): return ArrayV(targs(s)[0], ("fill", None), (), ZERO)
        if s.startswith("std::array<"):
            et, n = targs(s)[:2]
            return CL([self.default(et, zero, f"{name}[{i}]") for i in range(int(n))])
        if s.startswith("std::basic_string"): return Str(())
        if s in self.prog.records:
            f = {}
            for b in [s] + self.bases(s):
                for x in self.prog.records[b]["fields"]:
                    if x["n"] in f: continue
                    if x.get("init"): f[x["n"]] = self.conv(self.ev(x["init"]), strip(x["t"]))
                    else: f[x["n"]] = self.default(x["t"], zero, f"{name}.{x['n']}")
            return Obj(s, f)
        import re
        mm = re.match(r"^(.*)\[(\d+)\]$", s)
        if mm: return CL([self.default(mm.group(1), zero, f"{name}[{i}]") for i in range(int(mm.group(2)))])
        return Opq(s.split("<")[0])
    def bases(self, c):
        out = []
        for b in self.prog.records.get(c, {}).get("bases", []): out.append(b); out += self.bases(b)
        return out

    # ------------------------------------------------------------ store
    def new(self, v, name=""):
        r = ("L", next(self.uid), name); self.S[r] = v; return r
    def private(self, root, region):
        return isinstance(root, tuple) and root[0] == "L" and root[1] >= region["uid0"] or root in region["priv"]
    def rec(self, mode, root, path):
        if self.acc is None or not self.regions: return
        rg = self.regions[0]
        if self.private(root, rg): return
        for x in self.regions:
            if self.private(root, x): return
        if any(root in w.get("red", ()) for w in self.regions): red = True
        else: red = False
        lpriv = any(isinstance(root, tuple) and root[0] == "L" and root[1] >= l["uid0"] for l in self.loops if l.get("ws"))
        if lpriv: return
        self.acc.append(dict(static=rg.get("static", False), mode=mode, root=root, path=path, region=rg["id"], phase=rg["phase"], ws=[l["binder"] for l in self.loops if l.get("ws")],
                             inner=[l["binder"] for l in self.loops if not l.get("ws")], prot=tuple(self.prot), red=red, once=rg.get("once", False), wsid=rg.get("wsid"),
                             loc=self.loc, known=frozenset(x for k in self.known for x in k)))
    def rd(self, lv):
        self.rec("R", lv.root, lv.path)
        if lv.root not in self.S: raise Unsup(f"unknown root {lv.root}")
        return self.pget(self.S[lv.root], lv.path, lv.root)
    def wr(self, lv, v, mode="set"):
        self.rec("W", lv.root, lv.path)
        self.S[lv.root] = self.pput(self.S[lv.root], lv.path, v, mode, lv)
    def factor(self, lv):
        """thread multiplicity of an additive contribution"""
        if not self.regions: return None
        rg = self.regions[-1]
        if not rg["explicit"]: return None
        priv = self.private(lv.root, rg)
        ws = rg.get("ws_uid")
        if ws is not None:
            if priv and lv.root[0] == "L" and lv.root[1] < ws: return ONE / NT
            return None
        if not priv and not rg.get("once"): return NT
        return None

    def pget(self, v, path, root=None):
        for n, s in enumerate(path):
            k = s[0]
            if isinstance(v, Ptr): v = self.pget(self.S[v.root], v.path)
            if k == "f":
                if isinstance(v, Obj):
                    if s[1] in v.f: v = v.f[s[1]]
                    elif v.lazy is not None: v = self.lazy_field(v, s[1])
                    else: raise Unsup(f"no field {s[1]}")
                elif isinstance(v, Opq): v = Opq(f"{v.tag}.{s[1]}")
                elif isinstance(v, CL) and s[1] in ("first", "second"): v = v.els[0 if s[1] == "first" else 1]
                else: raise Unsup(f"field {s[1]} of {type(v).__name__}")
            elif k == "i":
                if isinstance(v, ArrayV):
                    for l in self.loops: l["reads"].append((root, path[:n], s[1]))
                    v = self.aget(v, s[1])
                elif isinstance(v, CL):
                    c = s[1].const()
                    if c is None: v = self.clsel(v, s[1])
                    elif not 0 <= c < len(v.els): raise Unsup(f"index {c} out of range {len(v.els)}")
                    else: v = v.els[int(c)]
                elif isinstance(v, Mat): v = self.mcoef(v, s[1], None)
                elif isinstance(v, Opq): v = Opq(v.tag + "[]")
                else: raise Unsup(f"index of {type(v).__name__}")
            elif k == "c": v = self.mcoef(v, s[1], s[2])
            elif k == "view": v = self.mview(v, s)
            elif k == "size": v = v.size
            else: raise Unsup(f"path step {k}")
        return v
    def clsel(self, v, k):
        r = v.els[-1]
        for i in range(len(v.els) - 2, -1, -1): r = vite(eq(k, i), v.els[i], r)
        return r
    def mcoef(self, v, i, j):
        if isinstance(v, Opq): return fresh(v.tag)
        if not isinstance(v, Mat): raise Unsup(f"coefficient of {type(v).__name__}")
        ci = i.const(); cj = None if j is None else j.const()
        if ci is None or (j is not None and cj is None):
            if j is None:
                r = v.e[-1]
                for k in range(len(v.e) - 2, -1, -1): r = ite(eq(i, k), v.lin(k), r)
                return r
            r = v.e[-1]
            for a in range(v.r):
                for b in range(v.c): r = ite(And(eq(i, a), eq(j, b)), v.at(a, b), r)
            return r
        if j is None:
            if not 0 <= ci < len(v.e): raise Unsup("coefficient out of range")
            return v.lin(int(ci))
        if not (0 <= ci < v.r and 0 <= cj < v.c): raise Unsup("coefficient out of range")
        return v.at(int(ci), int(cj))
    def mview(self, v, s):
        idx = self.viewidx(v, s)
        r, c = idx[0]
        return Mat(r, c, [v.e[i] for i in idx[1]], v.arr if s[1] not in ("array", "matrix") else s[1] == "array")
    def viewidx(self, v, s):
        k = s[1]; a = [int(x.const()) if isinstance(x, Poly) else x for x in s[2:]]
        if any(x is None for x in a): raise Unsup("symbolic view")
        if k in ("array", "matrix", "all"): return (v.r, v.c), list(range(len(v.e)))
        if k == "row": return (1, v.c), [a[0] * v.c + j for j in range(v.c)]
        if k == "col": return (v.r, 1), [i * v.c + a[0] for i in range(v.r)]
        if k == "seg":
            n = a[1]; o = a[0]
            return ((n, 1) if v.c == 1 else (1, n)), list(range(o, o + n))
        if k == "blk": return (a[2], a[3]), [(a[0] + i) * v.c + a[1] + j for i in range(a[2]) for j in range(a[3])]
        if k == "diag": return (min(v.r, v.c), 1), [i * v.c + i for i in range(min(v.r, v.c))]
        if k == "T": return (v.c, v.r), [i * v.c + j for j in range(v.c) for i in range(v.r)]
        raise Unsup("view " + k)
    def pput(self, v, path, new, mode, lv=None):
        if not path:
            if mode == "add": return self.vadd(v, new)
            if isinstance(v, Mat) and isinstance(new, Mat) and v.arr != new.arr: new = Mat(new.r, new.c, new.e, v.arr)
            return new
        s, rest = path[0], path[1:]; k = s[0]
        if isinstance(v, Ptr):
            self.S[v.root] = self.pput(self.S[v.root], v.path + path, new, mode, lv); return v
        if k == "f":
            if isinstance(v, Opq): return v
            if not isinstance(v, Obj):
                if isinstance(v, CL) and s[1] in ("first", "second"):
                    i = 0 if s[1] == "first" else 1
                    e = list(v.els); e[i] = self.pput(e[i], rest, new, mode); return CL(e)
                raise Unsup("field store")
            old = v.f.get(s[1])
            if old is None and (rest or mode == "add"): old = self.lazy_field(v, s[1])
            f = dict(v.f); f[s[1]] = self.pput(old, rest, new, mode, lv)
            return Obj(v.cls, f, v.lazy)
        if k == "i":
            if isinstance(v, ArrayV):
                return v.add((mode, TRUE, rest, s[1], new))
            if isinstance(v, CL):
                c = s[1].const(); e = list(v.els)
                if c is None:
                    for i in range(len(e)): e[i] = vite(eq(s[1], i), self.pput(e[i], rest, new, mode), e[i])
                else:
                    if not 0 <= c < len(e): raise Unsup("index out of range")
                    e[int(c)] = self.pput(e[int(c)], rest, new, mode)
                return CL(e)
            if isinstance(v, Mat): return self.mput(v, s[1], None, new, mode)
            if isinstance(v, Opq): return v
            raise Unsup("index store")
        if k == "c":
            return self.mput(v, s[1], s[2], new, mode)
        if k == "view":
            (r, c), idx = self.viewidx(v, s); e = list(v.e)
            if rest:
                sub = self.pput(Mat(r, c, [e[i] for i in idx]), rest, new, mode)
                for t, i in enumerate(idx): e[i] = sub.e[t]
            else:
                if not isinstance(new, Mat): raise Unsup("view store")
                for t, i in enumerate(idx): e[i] = e[i] + new.e[t] if mode == "add" else new.e[t]
            return Mat(v.r, v.c, e, v.arr)
        if k == "size": return v.sized(new)
        raise Unsup("store step " + k)
    def mput(self, v, i, j, new, mode):
        if not isinstance(v, Mat): raise Unsup("coefficient store")
        new = P(new)
        e = list(v.e)
        if j is None:
            ci = i.const()
            if ci is not None:
                p = int(ci) if (v.c == 1 or v.r == 1) else (int(ci) % v.r) * v.c + int(ci) // v.r
                if not 0 <= p < len(e): raise Unsup("coefficient out of range")
                e[p] = e[p] + new if mode == "add" else new
                return Mat(v.r, v.c, e, v.arr)
            for p in range(len(e)): e[p] = ite(eq(i, p), e[p] + new if mode == "add" else new, e[p])
            return Mat(v.r, v.c, e, v.arr)
        ci, cj = i.const(), j.const()
        if ci is None or cj is None:
            for a in range(v.r):
                for b in range(v.c):
                    p = a * v.c + b; e[p] = ite(And(eq(i, a), eq(j, b)), e[p] + new if mode == "add" else new, e[p])
            return Mat(v.r, v.c, e, v.arr)
        if not (0 <= ci < v.r and 0 <= cj < v.c): raise Unsup("coefficient out of range")
        p = int(ci) * v.c + int(cj)
        e[p] = e[p] + new if mode == "add" else new
        return Mat(v.r, v.c, e, v.arr)

    # ------------------------------------------------------------ arrays
    def aget(self, A, k):
        val = None; start = 0
        for i in range(len(A.log) - 1, -1, -1):
            u = A.log[i]
            if u[1].op != "T": continue
            if u[0] == "all": val = u[2]; start = i + 1; break
            if u[0] == "set" and u[2] == () and u[3] == k: val = u[4]; start = i + 1; break
            if u[0] == "for":
                r = self.for_exact(A, u, k)
                if r is not None: val = r; start = i + 1; break
        if val is None: val = self.abase(A, k)
        for u in A.log[start:]: val = self.aapply(A, u, k, val)
        return val
    def abase(self, A, k):
        b = A.base
        if b[0] == "in": return self.elem_in(A, k)
        if b[0] == "fill": return self.default(A.et, True) if b[1] is None else b[1]
        if b[0] == "ite": return vite(b[1], self.aget(b[2], k), self.aget(b[3], k))
        if b[0] == "map":   # binder, value
            return vsubst(b[2], {b[1].id: k})
        raise Unsup("array base")
    def aapply(self, A, u, k, val):
        t = u[0]
        if t in ("set", "add"):
            c = decide(And(u[1], self.ieq(u[3], k)))
            if c.op == "F": return val
            if t == "set":
                return vite(c, self.pput(val, u[2], u[4], "set"), val)
            d = u[4] if c.op == "T" else vite(c, u[4], self.zero_like(u[4]))
            return self.pput(val, u[2], d, "add")
        if t == "all": return vite(u[1], u[2], val)
        if t == "app":
            if self.within(k, u[3]): return val
            c = decide(And(u[1], self.ieq(u[3], k)))
            return val if c.op == "F" else vite(c, u[2], val)
        if t == "res":   # resize from old to new size with fill value
            c = And(u[1], le(u[2], k))
            c = decide(c)
            if c.op != "F" and self.within(k, u[2]): return val
            return val if c.op == "F" else vite(c, u[4], val)
        if t == "for":
            flat = list(self.flatten(u[4], [(u[2], u[3])], u[1]))
            if all(x[0] == "add" for x, _, _ in flat):
                for x, bs, g in flat:
                    c = decide(And(g, x[1], self.ieq(x[3], k)))
                    if c.op == "F": continue
                    d = vite(c, x[4], self.zero_like(x[4]))
                    # exact solve
                    s = self.solve_idx(x[3], bs, k)
                    if s is not None:
                        cc, mp = s
                        d = vsubst(vite(And(g, x[1]), x[4], self.zero_like(x[4])), mp)
                        d = vite(cc, d, self.zero_like(d))
                    else:
                        for b, cnt in reversed(bs):
                            d = self.vsum(b, cnt, d)
                    val = self.pput(val, x[2], d, "add")
                return val
            if all(x[0] == "app" for x, _, _ in flat):
                def first(x, bs):
                    p = x[3]
                    for b, _ in reversed(bs): p = subst(p, {b.id: ZERO})
                    return p
                if all(self.within(k, first(x, bs)) or self.within(k, x[3]) for x, bs, g in flat): return val
            # sets: all updates must solve to the same binder values
            sols = []
            for x, bs, g in flat:
                if x[0] == "all":
                    self.note("whole-array update inside a loop"); return self.havoc_like(val, "loop-all")
                idx = x[3] if x[0] != "app" else x[3]
                s = self.solve_idx(idx, bs, k)
                if s is None and all(y[0] == "app" and [b for b, _ in zs] == [b for b, _ in bs] for y, zs, _ in flat):
                    pk = self.pick(flat, k, val)
                    if pk is not None: return pk
                if s is None:
                    self.note(f"array update index {short(idx)} not invertible"); return self.havoc_like(val, "index")
                sols.append((x, g) + s)
            for x, g, cc, mp in sols:
                y = upmap_subst(x, mp); gg = And(g, cc)
                gg = vsubst(gg, mp) if True else gg
                y = (y[0], And(gg, y[1])) + y[2:]
                val = self.aapply(A, y, k, val)
            return val
        raise Unsup("update " + t)
    def for_exact(self, A, u, k):
        """a quantified unconditional full set that certainly covers k"""
        flat = list(self.flatten(u[4], [(u[2], u[3])], u[1]))
        if len(flat) != 1: return None
        x, bs, g = flat[0]
        if x[0] != "set" or x[2] != () or x[1].op != "T" or g.op != "T": return None
        s = self.solve_idx(x[3], bs, k)
        if s is None or s[0].op != "T": return None
        return vsubst(x[4], s[1])
    def flatten(self, ups, bs, g):
        for x in ups:
            if x[0] == "for": yield from self.flatten(x[4], bs + [(x[2], x[3])], And(g, x[1]))
            else: yield x, bs, g
    def ieq(self, a, b):
        d = a - b
        if d.is_const(): return B(d.const() == 0)
        return eq0(d)
    def within(self, k, n):
        """0 <= k < n provable from loop ranges"""
        if k.is_const() and n.is_const(): return 0 <= k.const() < n.const()
        if k.is_zero() and sign(n) == 1: return True
        if len(k.t) == 1:
            (m, c), = k.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                rg = dom.RANGES.get(m[0][0])
                if rg and rg[0].is_const() and rg[0].const() >= 0 and (rg[1] == n or sign(n - rg[1]) in (0, 1)): return True
        # n = a*b, k = q*b + r
        if len(n.t) == 1 and len(k.t) >= 2:
            (m, c), = n.t.items()
            if c == 1:
                for i, e in m:
                    b = Poly.of(A(i)); q = idiv(k, b); r = k - q * b
                    if any(A(j).kind == "fn" and A(j).args[0] == "idiv" for j in q.atoms()): continue
                    if self.within(r, b) and self.within(q, n / b): return True
        return False
    def pick(self, flat, k, val):
        """element k of a sequence filled by guarded appends: the appended value of some loop iteration whose guard holds"""
        bs = flat[0][1]; mp = {}
        for j, (b, cnt) in enumerate(bs):
            a = atom("fn", "pick", f"{b!r}", P(k), Poly.c(j)); dom.INTEGRAL.add(a.id); dom.SIGNS[a.id] = 0; mp[b.id] = Poly.of(a)
        gs = [vsubst(And(g, x[1]), mp) for x, _, g in flat]
        for i in range(len(gs)):
            for j in range(i):
                if And(gs[i], gs[j]).op != "F": return None
        r = vsubst(flat[-1][0][2], mp)
        for (x, _, _), g in list(zip(flat, gs))[:-1]: r = vite(g, vsubst(x[2], mp), r)
        rng = TRUE
        for b, cnt in bs: rng = And(rng, lt(Poly.of(b), cnt))
        self.picks[tuple(repr(b) for b, _ in bs)] = (list(bs), rng, Or(*[And(g, x[1]) for x, _, g in flat]))
        return r
    def solve_idx(self, idx, bs, k):
        """binder values with idx == k: (cond, {binder id: Poly}) or None"""
        dep = [(b, n) for b, n in bs if depends(idx, b)]
        if not dep:
            return None
        ids = {b.id for b, _ in dep}
        if len(dep) == 1:
            b, n = dep[0]
            co = Poly({tuple(x for x in m if x[0] != b.id): c for m, c in idx.t.items() if dict(m).get(b.id) == 1})
            rest = Poly({m: c for m, c in idx.t.items() if b.id not in dict(m)})
            if depends(rest, b) or any(dict(m).get(b.id, 0) not in (0, 1) for m in idx.t): return None
            if co.is_const() and abs(co.const()) == 1:
                s = (k - rest) * Poly.c(1 / co.const())
                cond = TRUE if self.within(s, n) else And(le(0, s), lt(s, n))
                if len(bs) > 1: # remaining binders do not determine the index
                    if any(x[0] is not b for x in bs): return None
                return decide(cond), {b.id: s}
            return None
        if len(dep) != len(bs): return None
        # mixed radix: coefficient of each binder is the product of the counts of the faster ones
        cos = {}
        for b, n in dep:
            co = Poly({tuple(x for x in m if x[0] != b.id): c for m, c in idx.t.items() if dict(m).get(b.id) == 1})
            if any(depends(co, x) for x, _ in dep): return None
            cos[b.id] = (b, n, co)
        rest = idx
        for b, n, co in cos.values(): rest = rest - co * Poly.of(b)
        if any(depends(rest, b) for b, _ in dep): return None
        cur = ONE; order = []; left = dict(cos)
        while left:
            hit = next((i for i, (b, n, co) in left.items() if co == cur), None)
            if hit is None: return None
            b, n, co = left.pop(hit); order.append((b, n)); cur = cur * n
        mp = {}; r = k - rest
        for b, n in order[:-1]:
            q = idiv(r, n); mp[b.id] = r - q * n; r = q
        mp[order[-1][0].id] = r
        cond = TRUE if self.within(k - rest, cur) else And(le(0, k - rest), lt(k - rest, cur))
        return decide(cond), mp
    def vsum(self, b, cnt, d):
        f = lambda p: mksum(b, ZERO, cnt, p)
        return vmap(d, f, lambda c: c)
    def zero_like(self, v):
        if isinstance(v, Mat): return mzero(v.r, v.c, v.arr)
        if isinstance(v, CL): return CL([self.zero_like(x) for x in v.els])
        return ZERO
    def havoc_like(self, v, label):
        if isinstance(v, Poly): return fresh(label)
        if isinstance(v, Cond): return Cond("b", atom("havoc", label, next(dom._fresh)))
        if isinstance(v, Mat): return Mat(v.r, v.c, [fresh(label) for _ in v.e], v.arr)
        if isinstance(v, CL): return CL([self.havoc_like(x, label) for x in v.els])
        if isinstance(v, Obj): return Obj(v.cls, {k: self.havoc_like(x, label) for k, x in v.f.items()}, v.lazy)
        if isinstance(v, ArrayV): return ArrayV(v.et, ("in", f"havoc{next(dom._fresh)}"), (), fresh(label))
        return Opq("havoc")

    # ------------------------------------------------------------ arithmetic on values
    def vadd(self, a, b, s=1):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if (a.r, a.c) != (b.r, b.c): raise Unsup("shape mismatch in sum")
            return Mat(a.r, a.c, [x + y if s > 0 else x - y for x, y in zip(a.e, b.e)], a.arr)
        if isinstance(a, Mat) and a.arr: return a.map(lambda x: x + P(b) if s > 0 else x - P(b))
        if isinstance(b, Mat) and b.arr: return b.map(lambda x: P(a) + x if s > 0 else P(a) - x)
        if isinstance(a, Iter): return Iter(a.root, a.path, a.idx + (P(b) if s > 0 else -P(b))) if not isinstance(b, Iter) else a.idx - b.idx
        if isinstance(b, Iter): return Iter(b.root, b.path, b.idx + P(a))
        if isinstance(a, Str) or isinstance(b, Str): return self.tostr(a) + self.tostr(b)
        if isinstance(a, (Opq, Ptr)) or isinstance(b, (Opq, Ptr)): return Opq("arith")
        return P(a) + P(b) if s > 0 else P(a) - P(b)
    def vmul(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat):
            if a.arr or b.arr: return Mat(a.r, a.c, [x * y for x, y in zip(a.e, b.e)], True)
            if a.r == 1 and a.c == 1 and b.r != 1: return b.map(lambda x: x * a.e[0])
            return mmulm(a, b)
        if isinstance(a, Mat): b = P(b); return a.map(lambda x: x * b)
        if isinstance(b, Mat): a = P(a); return b.map(lambda x: a * x)
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq("arith")
        return P(a) * P(b)
    def vdiv(self, a, b):
        if isinstance(a, Mat) and isinstance(b, Mat): return Mat(a.r, a.c, [x / y for x, y in zip(a.e, b.e)], True)
        if isinstance(a, Mat): b = P(b); return a.map(lambda x: x / b)
        if isinstance(b, Mat): a = P(a); return b.map(lambda x: a / x)
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq("arith")
        return P(a) / P(b)
    def tostr(self, v):
        if isinstance(v, Str): return v
        if isinstance(v, Poly): return Str((("num", v),))
        if isinstance(v, Cond): return Str((("num", P(v)),))
        return Str((("opq", repr(v)),))
    def truth(self, v):
        if isinstance(v, Cond): return self.simp(v)
        if isinstance(v, Poly): return self.simp(decide(Not(eq0(v))))
        if isinstance(v, Ptr): return TRUE
        return Cond("b", atom("havoc", "opaque condition", next(dom._fresh)))
    def simp(self, c):
        """use conditions already holding on this path"""
        c = decide(c)
        if c.op in "TF" or not self.known: return c
        if c.op in ("and", "or"):
            xs = [self.simp(x) for x in c.a]
            return And(*xs) if c.op == "and" else Or(*xs)
        n = Not(c)
        for k in self.known:
            if c in k: return TRUE
            if n in k: return FALSE
        return c
    def assume(self, c):
        s = set()
        def add(x):
            if x.op == "and":
                for y in x.a: add(y)
            elif x.op not in "TF":
                s.add(x)
                if x.op == "lt": s.add(Cond("le", x.a)); s.add(Not(eq0(x.a)))
                if x.op == "eq":
                    s.add(Cond("le", x.a)); s.add(Cond("le", -x.a))
        add(c)
        self.known.append(s)

    # ------------------------------------------------------------ expressions
    def where(self, e):
        l = e.get("l")
        if l: self.loc = (self.loc[0], l)
    def ev(self, e):
        v = self.ev0(e)
        if isinstance(v, LV): return self.rd(v)
        return v
    def lv(self, e):
        """location of a glvalue expression (temporaries get their own)"""
        v = self.ev0(e)
        if isinstance(v, LV): return v
        return LV(self.new(v, "tmp"), ())
    def ev0(self, e):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsup(f"expression kind {k} at {self.loc}")
        if "l" in e: self.loc = (self.loc[0], e["l"])
        return m(e)
    def e_int(self, e): return Poly.c(int(e["v"]))
    def e_flt(self, e):
        s = e.get("src") or e["v"]
        s = s.rstrip("fFlL")
        try: f = Fr(s)
        except ValueError: f = Fr(float(e["v"]))
        if f.denominator > 10**12 and abs(f) > Fr(1, 10**6): f = f.limit_denominator(1000)
        return Poly.c(f)
    def e_bool(self, e): return B(e["v"] in (True, "true", 1, "1"))
    def e_str(self, e): return Str((e["v"],))
    def e_null(self, e): return Opq("nullptr")
    def e_zero(self, e): return self.default(e["t"], True)
    def e_this(self, e): return Ptr(self.this().root, self.this().path)
    def this(self):
        f = self.frame
        while f is not None:
            if f.this is not None: return f.this
            f = f.parent
        raise Unsup("this outside of a method")
    def e_ref(self, e):
        dk = e["dk"]
        if dk == "enum": return Poly.c(int(e["v"]))
        if dk == "var" or dk == "binding":
            b = self.frame.get(e["id"])
            if b is not None: return LV(b[0], b[1])
            if e.get("ginit"): return self.conv(self.ev(e["ginit"]), strip(e["t"]))
            if "q" in e: return self.glob(e)
            raise Unsup(f"unbound variable {e['n']}")
        if dk in ("global", "smember"): return self.glob(e)
        if dk == "func": return Opq("func:" + e.get("q", e["n"]))
        raise Unsup("reference " + dk)
    def glob(self, e):
        r = ("G", e.get("q", e["n"]))
        if r not in self.S:
            if e.get("ginit"): v = self.conv(self.ev(e["ginit"]), strip(e["t"]))
            elif re.fullmatch(r"std::integral_constant<bool, (true|false)>::value", e.get("q", "")): v = B("true" in e["q"])
            elif "numeric_limits" in e.get("q", ""): v = Poly.of(atom("in", e["q"]))
            else: v = self.input(e.get("q", e["n"]), e["t"])
            self.S[r] = v
        return LV(r, ())
    def deref(self, v):
        if isinstance(v, LV): v = self.rd(v)
        if isinstance(v, Ptr): return LV(v.root, v.path)
        if isinstance(v, Iter): return LV(v.root, v.path + (("i", v.idx),))
        if isinstance(v, Opq): return LV(self.new(Opq("*" + v.tag)), ())
        raise Unsup(f"dereference of {type(v).__name__}")
    def e_mem(self, e):
        if e.get("dk") == "func": raise Unsup("member function reference")
        if e["arrow"]: b = self.deref(self.ev0(e["b"]))
        else:
            v = self.ev0(e["b"])
            b = v if isinstance(v, LV) else LV(self.new(v, "tmp"), ())
        if b.root not in self.S: raise Unsup("member base")
        return b + ("f", e["n"])
    def e_un(self, e):
        op = e["op"]
        if op == "*": return self.deref(self.ev(e["a"]))
        if op == "&":
            l = self.lv(e["a"]); return Ptr(l.root, l.path)
        if op in ("++", "--", "post++", "post--"):
            l = self.lv(e["a"]); return self.incdec(l, op)
        v = self.ev(e["a"])
        if op == "-":
            if isinstance(v, Mat): return v.map(lambda x: -x)
            return -P(v) if not isinstance(v, Opq) else v
        if op == "+": return v
        if op == "!": return Not(self.truth(v))
        raise Unsup("unary " + op)
    def incdec(self, l, op):
        old = self.rd(l); d = ONE if "++" in op else -ONE
        f = self.factor(l)
        if f is not None: d = d * f
        new = Iter(old.root, old.path, old.idx + d) if isinstance(old, Iter) else (P(old) + d if not isinstance(old, Opq) else old)
        self.wr(l, new) if not self.in_array(l) else self.wr(l, d, "add")
        return old if op.startswith("post") else l
    def in_array(self, l):
        if not any(s[0] == "i" for s in l.path): return False
        v = self.S[l.root]
        for n, s in enumerate(l.path):
            if isinstance(v, Ptr): v = self.pget(self.S[v.root], v.path)
            if s[0] == "i" and isinstance(v, ArrayV): return True
            if s[0] not in ("f", "i"): return False
            try: v = self.pget(v, (s,))
            except Unsup: return False
        return False
    def e_bin(self, e):
        op = e["op"]
        if op == ",": self.ev(e["a"]); return self.ev0(e["b"])
        if op in ("&&", "||"):
            a = self.truth(self.ev(e["a"]))
            if a.op == ("F" if op == "&&" else "T"): return a
            pre = dict(self.S)
            self.assume(a if op == "&&" else Not(a))
            try: b = self.truth(self.ev(e["b"]))
            finally: self.known.pop()
            if self.S != pre and a.op not in "TF": self.S = self.merge(a if op == "&&" else Not(a), self.S, pre)
            return And(a, b) if op == "&&" else Or(a, b)
        a, b = self.ev(e["a"]), self.ev(e["b"])
        return self.binop(op, a, b, e.get("t", ""), e["a"].get("t", ""), e["b"].get("t", ""))
    def binop(self, op, a, b, t="", ta="", tb=""):
        if op in ("==", "!=", "<", "<=", ">", ">="): return self.cmp(op, a, b)
        if op == "+": return self.vadd(a, b)
        if op == "-": return self.vadd(a, b, -1)
        if op == "*": return self.vmul(a, b)
        if op == "/":
            if strip(t) in INTS and isinstance(a, (Poly, Cond)) and isinstance(b, (Poly, Cond)): return idiv(P(a), P(b))
            return self.vdiv(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq("bin")
        if op == "%": return imod(P(a), P(b))
        if op in ("&", "|", "^", "<<", ">>"):
            if isinstance(a, Cond) and isinstance(b, Cond) and op in "&|": return And(a, b) if op == "&" else Or(a, b)
            a, b = P(a), P(b)
            if a.is_const() and b.is_const():
                x, y = int(a.const()), int(b.const())
                return Poly.c({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if y < 64 else 0, ">>": x >> y}[op])
            return fn("bit" + op, a, b)
        raise Unsup("binary " + op)
    def cmp(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter): a, b = a.idx, b.idx
        if isinstance(a, Cond) and isinstance(b, Cond):
            x = Or(And(a, b), And(Not(a), Not(b)))
            if op == "==": return x
            if op == "!=": return Not(x)
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(a, Str) and isinstance(b, Str) and a == b: return B(op == "==")
            if isinstance(a, Str) and isinstance(b, Str) and all(isinstance(x, str) for x in a.p + b.p): return B((a == b) == (op == "=="))
            c = bvar("streq", repr(a), repr(b))
            return c if op == "==" else Not(c)
        if isinstance(a, Mat) and isinstance(b, Mat):
            c = And(*[eq(x, y) for x, y in zip(a.e, b.e)])
            return c if op == "==" else Not(c)
        if isinstance(a, (Opq, Ptr)) or isinstance(b, (Opq, Ptr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr): return B((a == b) == (op == "=="))
            if isinstance(a, Ptr) or isinstance(b, Ptr): return B(op == "!=")
            return Cond("b", atom("havoc", "opaque comparison", next(dom._fresh)))
        a, b = P(a), P(b)
        c = {"==": lambda: eq(a, b), "!=": lambda: Not(eq(a, b)), "<": lambda: lt(a, b), "<=": lambda: le(a, b), ">": lambda: lt(b, a), ">=": lambda: le(b, a)}[op]()
        return self.simp(c)
    def same(self, a, b):
        """structurally equal expression trees (ignoring positions)"""
        if isinstance(a, dict) and isinstance(b, dict):
            ka = {k for k in a if k not in ("l", "src")}; kb = {k for k in b if k not in ("l", "src")}
            return ka == kb and all(self.same(a[k], b[k]) for k in ka)
        if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b
    def strip_casts(self, e):
        while e["k"] == "cast" or (e["k"] == "ctor" and len(e.get("args", [])) == 1): e = e["a"] if e["k"] == "cast" else e["args"][0]
        return e
    def as_add(self, lhs, rhs):
        """lhs = lhs + v  ->  v expression and sign"""
        r = self.strip_casts(rhs)
        if r["k"] == "bin" and r["op"] in "+-": a, b, op = r["a"], r["b"], r["op"]
        elif r["k"] == "call" and r["n"] in ("operator+", "operator-") and len(r.get("args", [])) == 2: a, b, op = r["args"][0], r["args"][1], r["n"][-1]
        else: return None
        if self.same(self.strip_casts(a), lhs): return b, op
        if op == "+" and self.same(self.strip_casts(b), lhs): return a, "+"
        return None
    def e_asg(self, e):
        op = e["op"]
        if op == "=":
            l = None
            aa = self.as_add(e["a"], e["b"])
            if aa is not None:
                l = self.lv(e["a"]); f = self.factor(l)
                if f is not None or self.in_array(l):
                    return self.addto(l, self.ev(aa[0]), 1 if aa[1] == "+" else -1)
            v = self.ev(e["b"]); l = l or self.lv(e["a"])
            self.assign(l, self.conv(v, strip(e["a"].get("t", "")))); return l
        v = self.ev(e["b"]); l = self.lv(e["a"])
        return self.compound(l, op, v, e["a"].get("t", ""))
    def addto(self, l, v, s):
        f = self.factor(l)
        if s < 0: v = self.neg(v)
        if f is not None: v = self.vmul(v, f)
        if self.in_array(l):
            self.rec("R", l.root, l.path)
            self.wr(l, v, "add")
        else:
            old = self.rd(l); self.wr(l, self.vadd(old, v))
        return l
    def neg(self, v): return v.map(lambda x: -x) if isinstance(v, Mat) else (-P(v) if not isinstance(v, Opq) else v)
    def compound(self, l, op, v, t=""):
        o = op[:-1]
        if o in "+-":
            cur = None
            if isinstance(v, Str) or not self.in_array(l):
                cur = self.rd(l)
                if isinstance(cur, (Str, Iter, Opq)) or isinstance(v, (Str, Opq)):
                    self.wr(l, self.vadd(cur, v, 1 if o == "+" else -1)); return l
            if strip(t) in INTS and isinstance(v, Poly) and not is_integral(v): 
                cur = self.rd(l); self.wr(l, fn("trunc", P(cur) + (v if o == "+" else -v))); return l
            return self.addto(l, v, 1 if o == "+" else -1)
        cur = self.rd(l)
        self.wr(l, self.conv(self.binop(o, cur, v, t), strip(t))); return l
    def assign(self, l, v):
        self.wr(l, v)
    def conv(self, v, t):
        if t == "bool": return self.truth(v) if not isinstance(v, (Opq,)) else v
        if isinstance(v, Cond): return P(v)
        if t in INTS and isinstance(v, Poly): return v if is_integral(v) else fn("trunc", v)
        m = matshape(t)
        if m and isinstance(v, Mat):
            return Mat(v.r, v.c, v.e, m[2]) if v.arr != m[2] else v
        if isinstance(v, Mat) and t in FLTS and len(v.e) == 1: return v.e[0]
        return v
    def e_cond(self, e):
        c = self.truth(self.ev(e["c"]))
        if c.op == "T": return self.ev0(e["a"])
        if c.op == "F": return self.ev0(e["b"])
        pre = dict(self.S)
        self.assume(c)
        try: a = self.ev(e["a"]); Sa = self.S
        finally: self.known.pop()
        self.S = pre; self.assume(Not(c))
        try: b = self.ev(e["b"])
        finally: self.known.pop()
        if Sa != self.S: self.S = self.merge(c, Sa, self.S)
        if isinstance(a, Cond) != isinstance(b, Cond): a, b = P(a), P(b)
        return vite(c, a, b)
    def e_idx(self, e):
        b = self.ev0(e["a"]); i = P(self.ev(e["b"]))
        if isinstance(b, LV):
            v = self.rd(b)
            if isinstance(v, (Ptr, Iter)): b = v
            else: return b + ("i", i)
        if isinstance(b, Iter): return LV(b.root, b.path + (("i", b.idx + i),))
        if isinstance(b, Ptr): return LV(b.root, b.path + (("i", i),))
        return LV(self.new(b), (("i", i),))
    def e_cast(self, e):
        ck = e.get("ck", ""); t = strip(e.get("t", ""))
        if ck == "ToVoid": self.ev(e["a"]); return VOID
        if ck in ("FloatingToIntegral",):
            v = self.ev(e["a"]); return self.conv(v, t if t in INTS else "int")
        if ck in ("IntegralToFloating", "IntegralCast", "FloatingCast", "BooleanToSignedIntegral"):
            v = self.ev(e["a"])
            return P(v) if isinstance(v, (Cond, Poly)) else v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth(self.ev(e["a"]))
        return self.ev0(e["a"])
    def e_init(self, e): return self.ev0(e["a"]) if "a" in e else self.e_ilist(e) if "args" in e else self.default(e["t"], True)
    def e_unk(self, e):
        self.note(f"unmodelled expression {e.get('n') or e.get('c') or ''}")
        return Opq("unk")
    def e_throw(self, e): raise Thrown()
    def e_delete(self, e): self.ev(e["a"]) if "a" in e else None; return VOID
    def e_new(self, e):
        v = self.ev(e["init"]) if e.get("init") else self.default(e["t"].rstrip("*").strip(), False)
        return Ptr(self.new(v, "new"), ())
    def e_lambda(self, e):
        caps = {}
        for c in e.get("caps", []):
            if c.get("this"): continue
            if c.get("byref"): continue
            if "id" in c:
                if c.get("init"): caps[c["id"]] = self.new(self.ev(c["init"]), c.get("n", ""))
                else:
                    b = self.frame.get(c["id"])
                    if b: caps[c["id"]] = self.new(self.rd(LV(*b)), c.get("n", ""))
            # by-reference init captures
        for c in e.get("caps", []):
            if c.get("byref") and c.get("init") and "id" in c:
                l = self.lv(c["init"]); caps[c["id"]] = (l.root, l.path)
        return Clo(e, self.frame, caps)
    def e_ilist(self, e):
        t = strip(e.get("t", ""))
        m = matshape(t)
        xs = e.get("args", e.get("a", []))
        if isinstance(xs, dict): return self.ev(xs)
        args = [self.ev(x) for x in xs]
        if t.endswith("]"): return CL(args)
        if m:
            flat = []
            for a in args: flat += list(a.els) if isinstance(a, CL) else list(a.e) if isinstance(a, Mat) else [a]
            if len(flat) == m[0] * m[1]: return Mat(m[0], m[1], [P(x) for x in flat], m[2])
            if len(args) == 1 and isinstance(args[0], Mat): return args[0]
            raise Unsup("matrix init list")
        if t.startswith("std::vector<"):
            A = ArrayV(targs(t)[0], ("fill", None), (), Poly.c(len(args)))
            for i, a in enumerate(args): A = A.add(("set", TRUE, (), Poly.c(i), a))
            return A
        if t in self.prog.records:
            o = self.default(t); fs = [x["n"] for b in reversed([t] + self.bases(t)) for x in self.prog.records[b]["fields"]]
            f = dict(o.f)
            for n, a in zip(fs, args): f[n] = a
            return Obj(t, f)
        if t in FLTS or t in INTS or t == "bool" or t in self.prog.enums:
            return self.conv(args[0], t) if args else self.default(t, True)
        if t.startswith("std::array<"):
            et, n = targs(t)[:2]
            if len(args) == 1 and isinstance(args[0], CL): args = list(args[0].els)
            args += [self.default(et, True)] * (int(n) - len(args))
            return CL(args)
        if t.startswith("std::basic_string"): return args[0] if args else Str(())
        return CL(args)
    def e_ctor(self, e):
        t = strip(e.get("t", "")); args = e.get("args", [])
        cls = e.get("cls", "")
        if t in self.prog.records or cls in self.prog.records:
            c = t if t in self.prog.records else cls
            if (e.get("copy") or e.get("move")) and len(args) == 1: return self.ev(args[0])
            f = self.prog.funcs.get(e.get("usr"))
            if f is None:
                if not args: return self.default(t)
                if len(args) == 1: return self.ev(args[0])
                return Opq(t)
            return self.construct(c, f, args, e)
        m = matshape(t)
        if m:
            if not args: return self.default(t, e.get("zero", False), "tmp")
            vs = [self.ev(a) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Mat):
                v = vs[0]
                if m[0] > 0 and (v.r, v.c) != (m[0], m[1]):
                    if (v.c, v.r) == (m[0], m[1]) and 1 in (v.r, v.c): v = v.T()
                    else: raise Unsup("matrix conversion shape")
                return Mat(v.r, v.c, v.e, m[2])
            if len(vs) == 1 and isinstance(vs[0], (CL,)): vs = list(vs[0].els)
            if len(vs) == 1 and isinstance(vs[0], Opq): return self.havoc_like(self.default(t, True), "opaque matrix")
            if len(vs) == m[0] * m[1]: return Mat(m[0], m[1], [P(x) for x in vs], m[2])
            if m[0] < 0: return Opq("dynamic matrix")
            if len(vs) == 1 and isinstance(vs[0], Poly): return self.default(t)
            raise Unsup("matrix constructor")
        if t.startswith("std::vector<"):
            vs = [self.ev(a) for a in args if not a.get("t", "").startswith(("std::allocator", "const std::allocator"))]
            et = targs(t)[0]
            if not vs: return ArrayV(et, ("fill", None), (), ZERO)
            if len(vs) == 1:
                if isinstance(vs[0], (ArrayV, CL)):
                    if isinstance(vs[0], CL):
                        A = ArrayV(et, ("fill", None), (), Poly.c(len(vs[0].els)))
                        for i, a in enumerate(vs[0].els): A = A.add(("set", TRUE, (), Poly.c(i), a))
                        return A
                    return vs[0]
                if isinstance(vs[0], Opq): return ArrayV(et, ("in", f"ext:{vs[0].tag}"), (), fresh("size"))
                return ArrayV(et, ("fill", None if matshape(et) is None else self.default(et, False, "element")), (), P(vs[0]))
            if isinstance(vs[0], Iter): 
                src = self.rd(LV(vs[0].root, vs[0].path))
                if vs[0].idx.is_zero() and isinstance(src, ArrayV) and vs[1].idx == src.size: return src
                raise Unsup("vector range constructor")
            return ArrayV(et, ("fill", vs[1] if not isinstance(vs[1], Cond) else vs[1]), (), P(vs[0]))
        if t.startswith("std::basic_string"):
            if not args: return Str(())
            v = self.ev(args[0])
            return v if isinstance(v, Str) else self.tostr(v)
        if t.startswith("std::array<"):
            if args: return self.ev(args[0])
            return self.default(t, e.get("zero", False))
        if "JacobiSVD" in t or "BDCSVD" in t or "JacobiSVD" in cls:
            if not args: return Opq("svd")
            return self.svd(self.ev(args[0]))
        if t.startswith("std::basic_ofstream") or t.startswith("std::basic_fstream") or t.startswith("std::basic_ifstream"):
            vs = [self.ev(a) for a in args]
            o = Opq(f"stream{next(self.uid)}")
            if vs: self.event(("open", o.tag, vs[0], tuple(repr(x) for x in vs[1:]), t))
            else: self.event(("mkstream", o.tag, None, (), t))
            return o
        if t.startswith(("std::pair<", "std::tuple<")): return CL([self.ev(a) for a in args]) if len(args) != 1 else self.ev(args[0])
        if t.startswith(("std::unique_ptr<", "std::shared_ptr<")): return self.ev(args[0]) if args else Opq("nullptr")
        if t.startswith("std::function<"): return self.ev(args[0]) if args else Opq("function")
        if len(args) >= 1 and (e.get("copy") or e.get("move") or len(args) == 1):
            return self.ev(args[0])
        for a in args: self.ev(a)
        if t in FLTS or t in INTS or t == "bool": return self.default(t, True)
        return Opq(f"{t.split('<')[0]}#{next(self.uid)}" if not args else t.split("<")[0])
    def construct(self, c, f, args, e):
        o = self.default(c, False, c)
        r = self.new(o, c)
        self.call_fn(f, args, LV(r, ()), ctor=True)
        return self.S[r]
    def svd(self, M):
        if not isinstance(M, Mat): raise Unsup("svd argument")
        n = M.r; key = M.e
        U = Mat(n, n, [Poly.of(atom("svd", "U", i, j, key)) for i in range(n) for j in range(n)])
        V = Mat(n, n, [Poly.of(atom("svd", "V", i, j, key)) for i in range(n) for j in range(n)])
        s = []
        for i in range(n):
            a = atom("svd", "S", i, 0, key); dom.SIGNS[a.id] = 1; s.append(Poly.of(a))
        return SVDv(U, V, Mat(n, 1, s))
    def event(self, ev): self.S["EV"] = self.S["EV"] + ((TRUE, ev + ((os.path.basename(str(self.loc[0])), self.loc[1]),)),)

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        n = e["n"]; q = e.get("q", n)
        o = self.over.get(q) or self.over.get(n if not e.get("cls") else None)
        if o is not None:
            r = o(self, e)
            if r is not NotImplemented: return r
        if e.get("oper") and e.get("meth") and e["n"] == "operator()" and e.get("args"):
            v = self.ev0(e["args"][0])
            w = self.rd(v) if isinstance(v, LV) and not self.is_big(v) else v
            if isinstance(w, Clo): return self.call_clo(w, e["args"][1:])
            return self.coef(v, e["args"][1:])
        f = self.prog.funcs.get(e.get("usr"))
        if f is not None and f.get("body") is not None and not e.get("virt"):
            this = None
            args = e.get("args", [])
            if e.get("meth"):
                if e.get("oper") and "obj" not in e: this = self.lv(args[0]); args = args[1:]
                else: this = self.objlv(e)
            return self.call_fn(f, args, this)
        if e.get("virt"):
            this = self.objlv(e)
            try: v = self.rd(this)
            except Unsup: v = None
            if isinstance(v, Obj):
                g = self.resolve_virtual(e, v.cls)
                if g is not None: return self.call_fn(g, e.get("args", []), this)
            return self.uninterp(e, this)
        return self.lib(e, n, q)
    def is_big(self, l):
        return False
    def resolve_virtual(self, e, cls):
        for c in [cls] + self.bases(cls):
            for f in self.prog.by_name(e["n"], c):
                if len(f["params"]) == len(e.get("args", [])): return f
        return None
    def objlv(self, e):
        if "obj" not in e: return self.this()
        if e.get("arrow"): return self.deref(self.ev0(e["obj"]))
        v = self.ev0(e["obj"])
        return v if isinstance(v, LV) else LV(self.new(v, "tmp"), ())
    def uninterp(self, e, this):
        args = [self.ev(a) for a in e.get("args", [])]
        name = e.get("q", e["n"])
        flat = []
        for a in args: flat += list(a.e) if isinstance(a, Mat) else [a] if isinstance(a, (Poly, Cond)) else [repr(a)]
        tag = f"{name}@{this.root[2] if len(this.root) > 2 else this.root}{''.join(str(s[1]) for s in this.path)}" if this else name
        t = strip(e.get("t", ""))
        if t == "bool": return Cond("b", atom("bvar", tag, *flat))
        m = matshape(t)
        if m: return Mat(m[0], m[1], [Poly.of(atom("fn", f"{tag}#{i}", *flat)) for i in range(m[0] * m[1])])
        return Poly.of(atom("fn", tag, *flat))
    def call_clo(self, c, args, vals_=None):
        fr = Frame(None, c.frame, c.node.get("fn") or "lambda")
        for i, r in c.caps.items(): fr.vars[i] = r if isinstance(r[1], tuple) and not isinstance(r, str) and r[0] != "L" and r[0] != "G" else (r, ())
        for i, r in c.caps.items():
            if isinstance(r, tuple) and len(r) == 3 and r[0] in ("L", "G"): fr.vars[i] = (r, ())
            elif isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], tuple): fr.vars[i] = r
        ps = c.node["params"]
        return self.run_body(c.node["body"], fr, ps, args, vals_, c.node.get("ret", ""), self.loc[0])
    def call_fn(self, f, args, this=None, ctor=False, vals_=None):
        self.depth += 1
        if self.depth > 60: raise Unsup("inlining depth")
        self.inlined.add(f["q"])
        fr = Frame(this, None, f["q"])
        save = self.loc
        try:
            return self.run_body(f["body"], fr, f["params"], args, vals_, f.get("ret", ""), os.path.normpath(f["file"]), f.get("inits") if ctor else None)
        finally:
            self.depth -= 1; self.loc = save
    def run_body(self, body, fr, params, args, vals_, ret, file, inits=None):
        bound = []
        for i, p in enumerate(params):
            t = p["t"]
            if vals_ is not None:
                v = vals_[i]
                if isinstance(v, LV) and is_ref(t): fr.vars[p["id"]] = (v.root, v.path)
                else:
                    if isinstance(v, LV): v = self.rd(v)
                    fr.vars[p["id"]] = (self.new(v, p["n"]), ())
                continue
            if i < len(args):
                a = args[i]
                if is_ref(t):
                    v = self.ev0(a)
                    if isinstance(v, LV): fr.vars[p["id"]] = (v.root, v.path)
                    else: fr.vars[p["id"]] = (self.new(self.conv(v, strip(t)), p["n"]), ())
                else:
                    v = self.ev(a)
                    fr.vars[p["id"]] = (self.new(self.conv(v, strip(t)), p["n"]), ())
            elif p.get("init"):
                fr.vars[p["id"]] = (self.new(self.conv(self.ev(p["init"]), strip(t)), p["n"]), ())
        old = self.frame; oldloc = self.loc
        byval = [fr.vars[p["id"]][0] for p in params if p["id"] in fr.vars and not is_ref(p["t"])]
        self.frame = fr; self.loc = (file, self.loc[1])
        mark = next(self.uid)
        nk = len(self.known)
        try:
            if inits:
                for it in inits:
                    if "field" in it and it.get("e"):
                        v = self.ev(it["e"]); fd = self.field(self.S[fr.this.root].cls if not fr.this.path else self.rd(fr.this).cls, it["field"])
                        self.wr(fr.this + ("f", it["field"]), self.conv(v, strip(fd["t"])) if fd else v)
                    elif "base" in it and it.get("e"):
                        be = it["e"]; bf = self.prog.funcs.get(be.get("usr")) if be.get("k") == "ctor" else None
                        if bf is not None: self.call_ctor_on(bf, be.get("args", []), fr.this)
            nc, outs = self.ex(body)
            val = VOID
            if "R" in outs:
                c, S, v = outs["R"]
                if nc.op == "F": self.S = S; val = v
                else:
                    self.S = self.merge(c, S, self.S); val = v
            elif nc.op == "F" and "X" in outs:
                self.S = outs["X"][1]
            if is_ref(ret):
                return val
            if isinstance(val, LV): val = self.rd(val)
            if strip(ret) and strip(ret) != "void" and not isinstance(val, LV): val = self.conv(val, strip(ret))
            return val
        finally:
            del self.known[nk:]
            self.dead.update(fr.owned); self.dead.update(byval)
            self.frame = old; self.loc = oldloc
    def call_ctor_on(self, f, args, this):
        self.depth += 1
        try: self.run_body(f["body"], Frame(this, None, f["q"]), f["params"], args, None, "", os.path.normpath(f["file"]), f.get("inits"))
        finally: self.depth -= 1
    def coef(self, base, args):
        idx = [P(self.ev(a)) for a in args]
        if isinstance(base, LV):
            if len(idx) == 1: return base + ("c", idx[0], None)
            return base + ("c", idx[0], idx[1])
        return self.mcoef(base, idx[0], idx[1] if len(idx) > 1 else None)

    # ------------------------------------------------------------ statements
    def merge(self, c, a, b):
        if a is b: return a
        if c.op == "T": return a
        if c.op == "F": return b
        out = {}
        for k, x in a.items():
            y = b.get(k)
            out[k] = x if (y is None or x is y) else vite(c, x, y)
        for k, y in b.items():
            if k not in out: out[k] = y
        return out
    @staticmethod
    def _acc(interp, outs, k, c, S, v):
        if k in outs:
            c0, S0, v0 = outs[k]
            if isinstance(v, LV) and not (isinstance(v0, LV) and v0.root == v.root and v0.path == v.path): v = interp.pget(S[v.root], v.path)
            if isinstance(v0, LV) and not isinstance(v, LV): v0 = interp.pget(S0[v0.root], v0.path)
            if isinstance(v0, LV): vv = v0
            elif v0 is None or v is None: vv = v0 if v is None else v
            else:
                if isinstance(v0, Cond) != isinstance(v, Cond) and isinstance(v0, (Cond, Poly)) and isinstance(v, (Cond, Poly)):
                    v0, v = P(v0), P(v)
                vv = vite(c0, v0, v)
            outs[k] = (Or(c0, c), interp.merge(c0, S0, S), vv)
        else: outs[k] = (c, S, v)
    def ex(self, s):
        """executes s; returns (condition of normal completion, {kind: (cond, store, value)})"""
        if s is None: return TRUE, {}
        k = s["k"]
        if "l" in s: self.loc = (self.loc[0], s["l"])
        return getattr(self, "s_" + k)(s)
    def s_block(self, s):
        cur = TRUE; outs = {}; n0 = len(self.known); own0 = len(self.frame.owned)
        for x in s["s"]:
            nc, o = self.ex(x)
            for k, (c, S, v) in o.items(): self._acc(self, outs, k, And(cur, c), S, v)
            cur = And(cur, nc)
            if nc.op == "F": cur = FALSE; break
            if nc.op != "T": self.assume(nc)
        del self.known[n0:]
        self.dead.update(self.frame.owned[own0:]); del self.frame.owned[own0:]
        return cur, outs
    def s_null(self, s): return TRUE, {}
    def s_expr(self, s):
        try: self.ev0(s["e"])
        except Thrown: return FALSE, {"X": (TRUE, self.S, None)}
        if s["e"].get("noret"): return FALSE, {"X": (TRUE, self.S, None)}
        return TRUE, {}
    def s_decl(self, s):
        for v in s["v"]: self.declare(v)
        return TRUE, {}
    def declare(self, v):
        t = v.get("t", "")
        if v.get("binds") is not None and v.get("binds"):
            x = self.ev0(v["init"])
            base = x if isinstance(x, LV) else LV(self.new(x), ())
            if not is_ref(t) and isinstance(x, LV): base = LV(self.new(self.rd(x)), ())
            val = self.rd(base)
            for i, b in enumerate(v["binds"]):
                st = ("i", Poly.c(i))
                if isinstance(val, Obj):
                    st = ("f", [y["n"] for y in self.prog.records[val.cls]["fields"]][i])
                self.frame.vars[b["id"]] = (base.root, base.path + (st,))
            return
        init = v.get("init")
        if is_ref(t) and init is not None:
            x = self.ev0(init)
            if isinstance(x, LV): self.frame.vars[v["id"]] = (x.root, x.path)
            else: self.frame.vars[v["id"]] = (self.new(x, v["n"]), ())
            return
        if v.get("static"):
            r = ("G", "static " + v["n"] + str(v["id"]))
            if r not in self.S: self.S[r] = self.input("static." + v["n"], t)
            self.frame.vars[v["id"]] = (r, ()); return
        if init is None: val = self.default(t, False, v["n"])
        else:
            st = strip(t)
            if init["k"] == "ctor" and not init.get("args") and matshape(st): val = self.default(t, init.get("zero", False), v["n"])
            else: val = self.conv(self.ev(init), st)
            if isinstance(val, Opq) and val.tag.startswith(("std::", "tinyply", "timer")): val = Opq(f"{val.tag.split('#')[0]}#{v['n']}")
        r = self.new(val, v["n"]); self.frame.vars[v["id"]] = (r, ()); self.frame.owned.append(r)
    def s_ret(self, s):
        v = None
        if s.get("a") is not None:
            try: v = self.ev0(s["a"])
            except Thrown: return FALSE, {"X": (TRUE, self.S, None)}
            if isinstance(v, LV) and not self.ret_is_ref(): v = self.rd(v)
        return FALSE, {"R": (TRUE, self.S, v if v is not None else VOID)}
    def ret_is_ref(self):
        return False if self.frame is None else getattr(self, "_retref", False)
    def s_break(self, s): return FALSE, {"B": (TRUE, self.S, None)}
    def s_continue(self, s): return FALSE, {"C": (TRUE, self.S, None)}
    def s_try(self, s): return self.ex(s["body"])
    def s_unk(self, s):
        self.note("unmodelled statement"); return TRUE, {}
    def s_if(self, s):
        if s.get("init"): self.ex(s["init"])
        if s.get("cvar"): self.declare(s["cvar"])
        c = self.truth(self.ev(s["c"]))
        if c.op == "T": return self.ex(s["a"])
        if c.op == "F": return self.ex(s.get("b"))
        pre = self.S; n0 = len(self.known)
        self.S = dict(pre); self.assume(c)
        na, oa = self.ex(s["a"]); Sa = self.S
        del self.known[n0:]
        self.S = dict(pre); self.assume(Not(c))
        nb, ob = self.ex(s.get("b")); Sb = self.S
        del self.known[n0:]
        outs = {}
        for k, (cc, S, v) in oa.items(): self._acc(self, outs, k, And(c, cc), S, v)
        for k, (cc, S, v) in ob.items(): self._acc(self, outs, k, And(Not(c), cc), S, v)
        if na.op == "F" and nb.op == "F": return FALSE, outs
        if na.op == "F": self.S = Sb; return And(Not(c), nb), outs
        if nb.op == "F": self.S = Sa; return And(c, na), outs
        self.S = self.merge(c, Sa, Sb)
        return Or(And(c, na), And(Not(c), nb)) if not (na.op == "T" and nb.op == "T") else TRUE, outs
    def s_switch(self, s):
        if s.get("init"): self.ex(s["init"])
        v = self.ev(s["c"]); v = P(v)
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        # flatten nested case labels
        items = []
        def flat(x, labels):
            if x["k"] == "case":
                if "v" not in x: raise Unsup("case label")
                flat(x["s"], labels + [Poly.c(int(x["v"]))])
            elif x["k"] == "default": flat(x["s"], labels + ["default"])
            else: items.append((labels, x))
        for x in body: flat(x, [])
        allc = [l for ls, _ in items for l in ls if l != "default"]
        pre = self.S; conds = []
        outs = {}; live = FALSE; cur = None; n0 = len(self.known)
        matched = Or(*[eq(v, l) for l in allc]) if allc else FALSE
        S = dict(pre); live = FALSE; endS = None; endc = FALSE
        Scur = None
        for ls, x in items:
            if ls:
                c = Or(*[(Not(matched) if l == "default" else eq(v, l)) for l in ls]); c = self.simp(c)
                if live.op == "F": Scur = dict(pre)
                else: Scur = self.merge(live, Scur, dict(pre))
                live = Or(live, c)
            if live.op == "F": continue
            self.S = Scur if Scur is not None else dict(pre)
            self.assume(live)
            nc, o = self.ex(x)
            del self.known[n0:]
            Scur = self.S
            for k, (cc, S2, vv) in o.items():
                if k == "B":
                    if endS is None: endS, endc = S2, And(live, cc)
                    else: endS = self.merge(endc, endS, S2); endc = Or(endc, And(live, cc))
                else: self._acc(self, outs, k, And(live, cc), S2, vv)
            live = And(live, nc)
        if live.op != "F":
            if endS is None: endS, endc = Scur, live
            else: endS = self.merge(endc, endS, Scur); endc = Or(endc, live)
        if not any("default" in ls for ls, _ in items):
            nm = self.simp(Not(matched))
            if nm.op != "F":
                endS = pre if endS is None else self.merge(endc, endS, pre); endc = Or(endc, nm)
        if endS is None: self.S = pre; return FALSE, outs
        self.S = dict(endS)
        if not outs: endc = TRUE
        return endc, outs

    # ------------------------------------------------------------ loops
    def s_for(self, s, ws=None):
        if s.get("init"): self.ex(s["init"])
        return self.loop(s.get("c"), s.get("inc"), s["body"], False, ws)
    def s_while(self, s): return self.loop(s["c"], None, s["body"], False, None)
    def s_do(self, s): return self.loop(s["c"], None, s["body"], True, None)
    def s_rfor(self, s, ws=None):
        l = self.lv(s["range"])
        v = self.rd(l) if not isinstance(self.peek(l), ArrayV) else self.peek(l)
        var = s["var"]
        if isinstance(v, CL):
            cur = TRUE; outs = {}; n0 = len(self.known)
            brk = None
            for i in range(len(v.els)):
                self.bind(var, LV(l.root, l.path + (("i", Poly.c(i)),)))
                nc, o = self.ex(s["body"])
                nc, o, b = self.fold_cb(nc, o)
                for k, (c, S, vv) in o.items(): self._acc(self, outs, k, And(cur, c), S, vv)
                if b is not None:
                    bc, bS = And(cur, b[0]), b[1]
                    brk = (bc, bS) if brk is None else (Or(brk[0], bc), self.merge(brk[0], brk[1], bS))
                cur = And(cur, nc)
                if nc.op == "F": cur = FALSE; break
                if nc.op != "T": self.assume(nc)
            del self.known[n0:]
            if brk is not None:
                self.S = brk[1] if cur.op == "F" else self.merge(brk[0], brk[1], self.S); cur = Or(cur, brk[0])
            return cur, outs
        if isinstance(v, ArrayV):
            b = self.binder(v.size)
            def body():
                if is_ref(var["t"]): self.frame.vars[var["id"]] = (l.root, l.path + (("i", Poly.of(b)),))
                else: self.bind(var, LV(l.root, l.path + (("i", Poly.of(b)),)))
                nc, o = self.ex(s["body"])
                nc, o, brk = self.fold_cb(nc, o)
                if brk is not None: o["B"] = (brk[0], brk[1], None)
                return nc, o
            return self.generic(b, v.size, body, None, ws)
        if isinstance(v, Opq): return TRUE, {}
        raise Unsup(f"range-for over {type(v).__name__}")
    def peek(self, l): return self.pget(self.S[l.root], l.path)
    def bind(self, var, l):
        if is_ref(var["t"]): self.frame.vars[var["id"]] = (l.root, l.path)
        else: self.frame.vars[var["id"]] = (self.new(self.rd(l), var["n"]), ())
    def fold_cb(self, nc, o):
        """merge continue into normal; split off break"""
        if "C" in o:
            c, S, _ = o.pop("C")
            if nc.op == "F": self.S = S; nc = c
            else: self.S = self.merge(c, S, self.S); nc = Or(nc, c)
            if not o: nc = TRUE
        b = o.pop("B", None)
        return nc, o, b
    def binder(self, n):
        a = atom("var", f"n{len(self.loops)}@{os.path.basename(str(self.loc[0]))}:{self.loc[1]}", next(dom._fresh))
        dom.RANGES[a.id] = (ZERO, n); dom.INTEGRAL.add(a.id)
        return a
    def loop(self, cond, inc, body, isdo, ws):
        # try to unroll: the condition must stay decided
        if ws is None and not isdo and cond is not None:
            r = self.try_unroll(cond, inc, body)
            if r is not None: return r
        return self.symbolic_loop(cond, inc, body, isdo, ws)
    def trip(self, cond, inc):
        """constant trip count guess from the header only (loop variable incremented by a constant)"""
        S0 = self.S; n0 = len(self.notes)
        try:
            self.S = dict(S0); acc, self.acc = self.acc, None
            n = 0
            while n <= UNROLL:
                c = self.truth(self.ev(cond))
                if c.op == "F": return n
                if c.op != "T": return None
                if inc is None: return None
                self.ev0(inc); n += 1
            return n
        except Unsup: return None
        finally: self.S = S0; self.acc = acc; del self.notes[n0:]
    def try_unroll(self, cond, inc, body):
        n = self.trip(cond, inc)
        if n is None or n > UNROLL: return None
        cur = TRUE; outs = {}; brk = None; n0 = len(self.known)
        for it in range(UNROLL + 1):
            c = self.truth(self.ev(cond))
            if c.op == "F": break
            if c.op != "T" or it == UNROLL:
                if it == 0: return None
                raise Unsup("loop with changing trip count")
            nc, o = self.ex(body)
            nc, o, b = self.fold_cb(nc, o)
            for k, (cc, S, vv) in o.items(): self._acc(self, outs, k, And(cur, cc), S, vv)
            if b is not None:
                bc, bS = And(cur, b[0]), b[1]
                brk = (bc, bS) if brk is None else (Or(brk[0], bc), self.merge(brk[0], brk[1], bS))
            cur = And(cur, nc)
            if nc.op == "F": cur = FALSE; break
            if nc.op != "T": self.assume(nc)
            if inc is not None: self.ev0(inc)
        del self.known[n0:]
        if brk is not None:
            if cur.op == "F": self.S = dict(brk[1])
            else: self.S = self.merge(brk[0], brk[1], self.S)
            cur = Or(cur, brk[0])
            if not outs: cur = TRUE
        return cur, outs

    def leaves_diff(self, a, b, root, path, out):
        """scalar leaves that differ between two values of the same location"""
        if a is b: return
        if isinstance(a, (Poly, Cond)) or isinstance(b, (Poly, Cond)) or type(a) != type(b):
            if a != b: out.append((root, path))
            return
        if isinstance(a, Mat):
            if (a.r, a.c) != (b.r, b.c): out.append((root, path)); return
            for i in range(a.r):
                for j in range(a.c):
                    if a.at(i, j) != b.at(i, j): out.append((root, path + (("c", Poly.c(i), Poly.c(j)),)))
            return
        if isinstance(a, Obj):
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                x = a.f.get(k); y = b.f.get(k)
                if x is None and a.lazy is not None: x = self.lazy_field(a, k)
                if y is None and b.lazy is not None: y = self.lazy_field(b, k)
                if x is None or y is None: out.append((root, path + (("f", k),))); continue
                self.leaves_diff(x, y, root, path + (("f", k),), out)
            return
        if isinstance(a, ArrayV):
            if a.base != b.base or b.log[:len(a.log)] != a.log: out.append((root, path)); return
            if a.size != b.size: out.append((root, path + (("size",),)))
            return
        if isinstance(a, CL):
            if len(a.els) != len(b.els): out.append((root, path)); return
            for i, (x, y) in enumerate(zip(a.els, b.els)): self.leaves_diff(x, y, root, path + (("i", Poly.c(i)),), out)
            return
        if isinstance(a, Iter):
            if a.root == b.root and a.path == b.path:
                if a.idx != b.idx: out.append((root, path + (("idx",),)))
            else: out.append((root, path))
            return
        if isinstance(a, tuple): return
        if a != b: out.append((root, path))
    def lget(self, S, leaf):
        root, path = leaf
        if path and path[-1][0] == "idx": return self.pget(S[root], path[:-1]).idx
        return self.pget(S[root], path)
    def lput(self, S, leaf, v):
        root, path = leaf
        if path and path[-1][0] == "idx":
            it = self.pget(S[root], path[:-1]); v = Iter(it.root, it.path, v); path = path[:-1]
        S[root] = self.pput(S[root], path, v, "set")
    def logsuffix(self, pre, post, path, out):
        """array update suffixes per location"""
        if pre is post: return
        if isinstance(post, ArrayV) and isinstance(pre, ArrayV):
            if len(post.log) > len(pre.log): out.append((path, len(pre.log)))
        elif isinstance(post, Obj) and isinstance(pre, Obj):
            for k in post.f:
                x = pre.f.get(k)
                if x is None and pre.lazy is not None: x = self.lazy_field(pre, k)
                if x is not None: self.logsuffix(x, post.f[k], path + (("f", k),), out)
        elif isinstance(post, CL) and isinstance(pre, CL):
            for i, (x, y) in enumerate(zip(pre.els, post.els)): self.logsuffix(x, y, path + (("i", Poly.c(i)),), out)

    def symbolic_loop(self, cond, inc, body, isdo, ws):
        site = f"{os.path.basename(str(self.loc[0]))}:{self.loc[1]}"
        # trip count placeholder
        N = Poly.of(atom("trip", site, len(self.loops), next(dom._fresh)))
        dom.INTEGRAL.add(next(iter(N.atoms()))); dom.SIGNS[next(iter(N.atoms()))] = 0
        b = atom("var", f"n{len(self.loops)}@{site}", next(dom._fresh))
        dom.RANGES[b.id] = (ZERO, N); dom.INTEGRAL.add(b.id)
        st = {}
        def run():
            outs0 = {}
            c = TRUE
            if not isdo and cond is not None: c = self.truth(self.ev(cond))
            st["cond"] = c
            self.assume(c)
            nc, o = self.ex(body)
            nc, o, brk = self.fold_cb(nc, o)
            self.known.pop()
            if nc.op != "F" and inc is not None: self.ev0(inc)
            if isdo: st["cond"] = self.truth(self.ev(cond))
            if brk is not None: o["B"] = brk
            return nc, o
        return self.generic(b, N, run, st, ws, site)
    def generic(self, b, N, run, st, ws, site=None):
        """summarise a loop with binder b (0 <= b < N)"""
        site = site or f"{os.path.basename(str(self.loc[0]))}:{self.loc[1]}"
        pre = self.S
        bP = Poly.of(b); id0 = len(dom._list)
        carries = {}        # leaf -> (kind, value at iteration start, carry atom)
        induct = {}         # leaf -> (x0, delta)
        info = dict(binder=b, reads=[], ws=ws is not None, uid0=next(self.uid))
        self.loops.append(info)
        loc = self.loc
        nacc = len(self.acc) if self.acc is not None else 0
        try:
            for rnd in range(8):
                S = dict(pre)
                if self.acc is not None: del self.acc[nacc:]      # only the accesses of the final, stable round count
                cs = {}
                for leaf, c in carries.items():
                    self.lput(S, leaf, c)
                    cs[leaf] = c
                for leaf, (x0, d) in induct.items(): self.lput(S, leaf, x0 + bP * d)
                entry = dict(S)
                self.S = S; info["reads"] = []; self.loc = loc
                nc, outs = run()
                end = self.S
                diff = []
                for r in pre:
                    if r == "EV": continue
                    self.leaves_diff(entry[r], end[r], r, (), diff)
                for k, (c, S2, v) in outs.items():
                    if k in ("B",):
                        for r in pre:
                            if r != "EV": self.leaves_diff(entry[r], S2[r], r, (), diff)
                new = []
                for leaf in dict.fromkeys(diff):
                    if leaf in carries or leaf in induct: continue
                    new.append(leaf)
                # induction candidates: constant delta
                prom = []
                ok = True
                if not new:
                    for leaf, c in carries.items():
                        x1 = self.lget(end, leaf)
                        if isinstance(c, Poly) and isinstance(x1, Poly):
                            d = x1 - c
                            if d and not self.dep_any(d, carries, b): prom.append((leaf, d))
                    prom = [(l, d) for l, d in prom if not d.is_zero()]
                    if prom:
                        for l, d in prom:
                            carries.pop(l); induct[l] = (self.lget(pre, l), d)
                        continue
                    # drop carries that never change
                    idle = [l for l, c in carries.items() if self.lget(end, l) == c and not (outs.get("B") and self.lget(outs["B"][1], l) != c)]
                    for l, (x0, d) in list(induct.items()):
                        x1 = self.lget(end, l)
                        if x1 != x0 + bP * d + d:   # delta was not stable: demote
                            del induct[l]; self.dem = getattr(self, "dem", set()); carries[l] = self.mkcarry(pre, l, site); ok = False
                    if idle:
                        for l in idle: carries.pop(l)
                        ok = False
                    if ok: break
                    continue
                if rnd == 0 and not carries:
                    # first guess: scalars stepping by a loop-invariant constant are inductions
                    for leaf in new:
                        x0 = self.lget(pre, leaf); x1 = self.lget(end, leaf)
                        carries[leaf] = self.mkcarry(pre, leaf, site)
                else:
                    for leaf in new: carries[leaf] = self.mkcarry(pre, leaf, site)
            else:
                raise Unsup(f"loop at {site} did not stabilise")
        finally:
            self.loops.pop(); self.loc = loc
        if self.loop_hook: self.loop_hook(dict(site=site, pre=pre, entry=entry, end=end, nc=nc, outs=outs, cond=st["cond"] if st else None))
        # ---- trip count
        sub = {}
        exact = True
        if st is not None:
            c = self.known_free(st["cond"])
            cntB = self.count_from(c, b, carries)
            cnt = None if "B" in outs else cntB
            if cnt is not None: sub[next(iter(N.atoms()))] = cnt
            else: exact = False
        cntP = sub.get(next(iter(N.atoms())), N) if sub else N
        # ---- classify carries
        fin = {}; sub2 = {}
        unresolved = []
        todo = dict(carries)
        carry_ids = {self.cid(c): l for l, c in carries.items()}
        progress = True; lastpass = False
        resolved = {}
        if ws is not None and self.regions:
            rr = self.regions[-1]["red"]
            for leaf in list(carries) + list(induct):
                op = rr.get(leaf[0], rr.get(leaf))
                if op is not None: self.redops.append((site, leafname(leaf), op, self.redkind(leaf, carries, induct, end, b)))
        while todo and (progress or not lastpass):
            lastpass = not progress
            progress = False
            for leaf, c in list(todo.items()):
                x1 = self.lget(end, leaf); x0 = self.lget(pre, leaf)
                if not isinstance(x1, (Poly, Cond)): continue
                if x1 == c:     # changes only where the loop is left early
                    fin[leaf] = x0; resolved[self.cid(c)] = x0; del todo[leaf]; progress = True; continue
                x1 = vsubst_c(x1, resolved)
                others = [i for i in carry_ids if i != self.cid(c) and carry_ids[i] in todo]
                if isinstance(c, Poly) and isinstance(x1, Poly):
                    d = x1 - c
                    if not self.dep_ids(d, others + [self.cid(c)]):
                        # accumulator
                        part = mksum_part(b, d)
                        resolved[self.cid(c)] = x0 + part
                        fin[leaf] = x0 + mksum(b, ZERO, N, d)
                        del todo[leaf]; progress = True; continue
                    ext = self.extremum(c, x1, b)
                    if ext is not None and not self.dep_any(ext[1], todo, None):
                        kind, e = ext
                        v = self.argext(kind, e, b, N)
                        fin[leaf] = v if self.is_instance(x0, e, b) or self.is_inf(x0) else (mx(x0, v) if kind == "max" else mn(x0, v))
                        del todo[leaf]; progress = True; resolved[self.cid(c)] = Poly.of(atom("havoc", "partial " + kind, next(dom._fresh))); continue
                if not self.dep_ids(x1, others + [self.cid(c)]):
                    # overwritten in every iteration
                    if "B" not in outs:
                        last = vsubst(x1, {b.id: N - 1})
                        fin[leaf] = vite(lt(0, N), last, x0) if not (N.is_const()) else last
                        prev = vsubst(x1, {b.id: bP - 1})
                        pv = vite(eq(bP, 0), x0, prev)
                        resolved[self.cid(c)] = pv
                        del todo[leaf]; progress = True; continue
                sk = self.sticky(c, x1)
                if sk is not None:
                    v, cc = sk
                    if not self.dep_ids(cc, [i for i in carry_ids if carry_ids[i] in todo]):
                        flag = self.anyiter(cc, b, N)
                    elif not lastpass: continue
                    else:
                        flag = Cond("b", atom("bvar", "any", site, leafname(leaf), next(dom._fresh)))
                    fin[leaf] = vite(flag, v, x0)
                    part = Cond("b", atom("bvar", "earlier", site, leafname(leaf), next(dom._fresh)))
                    resolved[self.cid(c)] = vite(part, v, x0)
                    del todo[leaf]; progress = True; continue
        late = {}
        for leaf, c in todo.items():
            x0 = self.lget(pre, leaf)
            x1 = self.lget(end, leaf)
            if isinstance(x1, (Poly, Cond)) and isinstance(x0, (Poly, Cond)) and not isinstance(c, str):
                # state after the last iteration, from an arbitrary state before it: keeps the relations between the loop's variables
                late[leaf] = (x0, x1)
            else: fin[leaf] = self.havoc_like(x0, f"after loop {site}: {leafname(leaf)}") if not isinstance(c, str) else None
        mp = {}; cm = {}
        for i, v in resolved.items():
            if isinstance(v, Cond): cm[i] = v
            else: mp[i] = v
        def rp(v): return vsubst_all(v, mp, cm)
        for leaf, (x0, x1) in late.items(): fin[leaf] = vite(lt(0, N), vsubst(rp(x1), {b.id: N - 1}), x0)
        # ---- arrays and events
        out = dict(pre)
        for r in pre:
            if r == "EV": continue
            sfx = []
            self.logsuffix(entry[r], end[r], (), sfx)
            for path, n in sfx:
                arr = self.pget(end[r], path)
                ups = tuple(rp_up(u, mp, cm) for u in arr.log[n:])
                if any(u[0] == "all" and u[1].op == "T" and not vdeps(u) & {b.id} for u in ups) and len(ups) == 1:
                    grp = ups[0]
                else: grp = ("for", TRUE, b, N, ups)
                self.cross_check(info["reads"], r, path, ups, b, site)
                old = self.pget(out[r], path)
                out[r] = self.pput(out[r], path, ArrayV(old.et, old.base, old.log + (grp,), old.size), "set")
        for leaf, v in fin.items():
            if v is not None:
                try: self.lput(out, leaf, v)
                except Unsup: pass
        for leaf, (x0, d) in induct.items(): self.lput(out, leaf, x0 + N * d)
        ev0 = pre["EV"]; evs = end["EV"][len(ev0):]
        if evs: out["EV"] = ev0 + ((TRUE, ("loop", b, N, tuple((rp(c), vsubst_all(e, mp, cm)) for c, e in evs))),)
        ncout = TRUE; outs2 = {}
        # ---- abnormal exits
        if "B" in outs:
            outN = out
            if st is not None and cntB is not None and cntB.is_const():     # not left early: all iterations ran
                outN = {r: (vsubst(x, {next(iter(N.atoms())): cntB}) if x is not pre.get(r) else x) for r, x in out.items()}
            c, SB, _ = outs["B"]
            flag = Cond("b", atom("bvar", "break", site, next(dom._fresh)))
            if st is not None: self.breaks.append((site, flag, rp(c)))
            S2 = dict(out)
            for r in pre:
                if r == "EV": continue
                dl = []
                self.leaves_diff(out[r], SB[r], r, (), dl)
                for leaf in dl:
                    try: self.lput(S2, leaf, rp(self.lget(SB, leaf)))
                    except Unsup: pass
            out = self.merge(flag, S2, outN)
        hmp, hcm = {}, {}
        if late and st is not None and "R" in outs:
            # state at the start of an arbitrary iteration: the initial one, or the end of an arbitrary earlier iteration
            rmp, rcm = self.rename_since(id0, [x1 for _, x1 in late.values()])
            for leaf, (x0, x1) in late.items():
                x1 = vsubst(vsubst_all(rp(x1), rmp, rcm), {b.id: bP - 1})
                (hcm if isinstance(x0, Cond) else hmp)[self.cid(carries[leaf])] = vite(eq(bP, 0), x0, x1)
        for k in ("R", "X"):
            if k in outs:
                c, SR, v = outs[k]
                flag = Cond("b", atom("bvar", "loop-exit", site, next(dom._fresh)))
                S2 = {r: (vsubst_all(x, mp, cm) if r in pre and x is not pre[r] else x) for r, x in SR.items()}
                v2 = vsubst_all(self.pget(SR[v.root], v.path) if isinstance(v, LV) else v, mp, cm)
                if hmp or hcm: S2 = {r: (vsubst_all(x, hmp, hcm) if r in pre and x is not pre[r] else x) for r, x in S2.items()}; v2 = vsubst_all(v2, hmp, hcm)
                outs2[k] = (flag, S2, v2); ncout = And(ncout, Not(flag))
        if sub:
            self.S = {r: (vsubst(x, sub) if r not in pre or x is not pre[r] else x) for r, x in out.items()}
            # binder ranges
            dom.RANGES[b.id] = (ZERO, cntP)
            self.S = {r: (self.rebind(x, b, cntP) if r not in pre or x is not pre[r] else x) for r, x in self.S.items()}
            outs2 = {k: (c, {r: (vsubst(x, sub) if r in pre and x is not pre[r] else x) for r, x in S2.items()}, vsubst(v, sub)) for k, (c, S2, v) in outs2.items()}
            info["N"] = cntP
            if self.acc is not None:
                for a in self.acc[:]: 
                    a.setdefault("cnt", {})[b.id] = cntP
        else:
            self.S = out
        return ncout, outs2
    def redkind(self, leaf, carries, induct, end, b):
        """the operation by which one iteration combines its contribution"""
        if leaf in induct: return "+"
        c = carries[leaf]; x1 = self.lget(end, leaf)
        ids = [self.cid(x) for x in carries.values() if not isinstance(x, str)]
        if isinstance(c, Poly) and isinstance(x1, Poly):
            if not self.dep_ids(x1 - c, ids): return "+"
            ext = self.extremum(c, x1, b)
            if ext is not None and not self.dep_ids(ext[1], ids): return ext[0]
            return None
        if isinstance(c, Cond) and isinstance(x1, Cond):
            t = lambda v: vsubst_c(x1, {self.cid(c): v})
            if t(TRUE).op == "T": return "||"
            if t(FALSE).op == "F": return "&&"
        return None
    def anyiter(self, cc, b, N):
        """cc holds in some iteration"""
        if cc.op == "eq":
            p = cc.a; co = Poly({tuple(x for x in m if x[0] != b.id): v for m, v in p.t.items() if dict(m).get(b.id) == 1})
            rest = Poly({m: v for m, v in p.t.items() if b.id not in dict(m)})
            if co.is_const() and not co.is_zero() and not depends(rest, b) and all(dict(m).get(b.id, 0) in (0, 1) for m in p.t):
                k = -rest / co
                if is_integral(k): return And(le(0, k), lt(k, N))
        return Cond("b", atom("bvar", "any", N, subst_binder(cc, b)))
    def rename_since(self, id0, vs):
        """fresh copies of the unknowns introduced since"""
        ids = set()
        for v in vs: ids |= vdeps(v)
        mp, cm = {}, {}
        for i in ids:
            a = dom.A(i)
            if i < id0 or a.kind not in ("havoc", "trip", "bvar"): continue
            n = atom(a.kind, "earlier " + str(a.args[0]), next(dom._fresh))
            for t in (dom.SIGNS, dom.RANGES):
                if i in t: t[n.id] = t[i]
            if i in dom.INTEGRAL: dom.INTEGRAL.add(n.id)
            mp[i] = Poly.of(n); cm[i] = Cond("b", n)
        return mp, cm
    def rebind(self, x, b, cnt): return x
    def known_free(self, c): return c
    def cid(self, c):
        if isinstance(c, Cond): return c.a.id
        return next(iter(c.atoms()))
    def mkcarry(self, pre, leaf, site):
        x0 = self.lget(pre, leaf)
        a = atom("havoc", f"loop {site}: {leafname(leaf)}", next(dom._fresh))
        if isinstance(x0, Cond): return Cond("b", a)
        if isinstance(x0, Poly):
            if is_integral(x0): dom.INTEGRAL.add(a.id)
            return Poly.of(a)
        if isinstance(x0, (Str, Opq, Ptr, ArrayV, Clo)):
            self.note(f"loop-carried {type(x0).__name__} {leafname(leaf)}")
            return Opq("carried")
        raise Unsup(f"loop-carried {type(x0).__name__} {leafname(leaf)} at {site}")
    def dep_any(self, d, carries, b):
        ds = any_deps(d)
        if b is not None and b.id in ds: return True
        return any(isinstance(c, (Poly, Cond)) and self.cid(c) in ds for c in carries.values())
    def dep_ids(self, x, ids):
        ds = vdeps(x)
        return any(i in ds for i in ids)
    def count_from(self, c, b, carries):
        """trip count from the continuation condition as a function of the binder"""
        if c.op not in ("lt", "le", "ne"): return None
        p = c.a
        if self.dep_any(p, carries, None): return None
        co = Poly({tuple(x for x in m if x[0] != b.id): v for m, v in p.t.items() if dict(m).get(b.id) == 1})
        rest = Poly({m: v for m, v in p.t.items() if b.id not in dict(m)})
        if depends(rest, b) or depends(co, b) or any(dict(m).get(b.id, 0) not in (0, 1) for m in p.t): return None
        if co.is_zero(): return None
        if c.op == "ne":
            q = -rest / co
            return q
        s = sign(co)
        if s not in (1, 0): return None
        q = -rest / co
        if is_integral(q): return q if c.op == "lt" else q + 1
        return fn("ceil", q) if c.op == "lt" else fn("floor", q) + 1
    def extremum(self, c, x1, b):
        """x1 == max(c, e) or min(c, e)"""
        if len(x1.t) != 1: return None
        (m, v), = x1.t.items()
        if v != 1 or len(m) != 1 or m[0][1] != 1: return None
        a = A(m[0][0])
        if a.kind != "ite": return None
        cd, x, y = a.args
        if cd.op != "lt": return None
        if x == c: e = y
        elif y == c: e = x
        else: return None
        if depends(e, self.cid(c)): return None
        # condition lt0(p): p = +-(c - e) positive multiple
        for sgn_, kind_if_x in ((1, "max"), (-1, "min")):
            if cd.a == dom._scale((c - e) * Poly.c(sgn_)):
                # cd: c<e (sgn 1) or e<c (sgn -1)
                picks_e = (x == e)
                if sgn_ == 1: return ("max" if picks_e else "min", e)
                return ("min" if picks_e else "max", e)
        return None
    def argext(self, kind, e, b, N):
        f = e
        if len(f.t) == 1:
            (m, v), = f.t.items()
            if v == 1 and len(m) == 1 and m[0][1] == 1 and A(m[0][0]).kind == "fn" and A(m[0][0]).args[0] == "sqrt": f = A(m[0][0]).args[1]
        key = subst(f, {b.id: Poly.of(atom("var", "•"))})
        return subst(e, {b.id: self.argidx(kind, key, N)})
    def argidx(self, kind, key, N):
        if key.t and dom.lead_sign(key) < 0: key = -key; kind = {"max": "min", "min": "max"}[kind]
        a = atom("fn", "arg" + kind, dom._scale(key), N); dom.INTEGRAL.add(a.id); dom.SIGNS[a.id] = 0
        return Poly.of(a)
    def is_instance(self, x0, e, b):
        z = subst(e, {b.id: ZERO})
        return x0 == z
    def is_inf(self, x0):
        return len(x0.t) == 1 and any(A(i).kind == "in" and "numeric_limits" in str(A(i).args[0]) for i in x0.atoms()) or (x0.is_const() and abs(x0.const()) >= 10**9)
    def sticky(self, c, x1):
        """x1 selects between c and one carry-free constant"""
        vals_ = []; conds = []
        if isinstance(c, Cond):
            # x1 = c or cc
            if x1.op == "or" and c in x1.a: return TRUE, Or(*[y for y in x1.a if y != c])
            if x1.op == "and" and c in x1.a: return FALSE, Not(And(*[y for y in x1.a if y != c]))
            return None
        def go(p, g):
            if p == c: return True
            if p.is_const():
                vals_.append(p); conds.append(g); return True
            if len(p.t) == 1:
                (m, v), = p.t.items()
                if v == 1 and len(m) == 1 and m[0][1] == 1 and A(m[0][0]).kind == "ite":
                    cd, x, y = A(m[0][0]).args
                    return go(x, And(g, cd)) and go(y, And(g, Not(cd)))
            return False
        if go(x1, TRUE) and vals_ and all(v == vals_[0] for v in vals_): return vals_[0], Or(*conds)
        return None
    def cross_check(self, reads, root, path, ups, b, site):
        idxs = set()
        def go(us):
            for u in us:
                if u[0] in ("set",): idxs.add(u[3])
                elif u[0] == "add": idxs.add(u[3])
                elif u[0] == "for": go(u[4])
        go(ups)
        if not idxs: return
        for r, p, k in reads:
            if r == root and p == path and k not in idxs:
                self.note(f"loop {site} reads {leafname((root, path))}[{short(k)}] while writing other elements")

    # ------------------------------------------------------------ OpenMP
    def s_omp(self, s):
        d = s["dir"]; body = s.get("body"); cl = s.get("clauses", [])
        parts = d.replace("OMP", "").strip().split()
        if "parallel" in parts:
            rg = dict(id=(self.loc[0], s.get("l", self.loc[1])), uid0=next(self.uid), priv=set(), phase=0, explicit="for" not in parts, red={}, static=self.static_sched(cl))
            back = self.privatise(rg, cl)
            self.regions.append(rg)
            try:
                if "for" in parts: rg["ws_uid"] = next(self.uid); rg["wsid"] = 1; return self.ws_loop(body, self.collapse(cl))
                return self.ex(body)
            finally: self.regions.pop(); self.S.update(back)
        if "for" in parts or "simd" in parts:
            if not self.regions or "for" not in parts: return self.ex(body)
            rg = self.regions[-1]
            old = rg.get("ws_uid"); rg["ws_uid"] = next(self.uid); rg["wsid"] = rg.get("nws", 0) + 1; rg["nws"] = rg["wsid"]
            oldred = rg["red"]; oldpriv = rg["priv"]; oldst = rg["static"]
            rg["red"] = dict(oldred); rg["priv"] = set(oldpriv); rg["static"] = self.static_sched(cl)
            back = self.privatise(rg, cl)
            try: return self.ws_loop(body, self.collapse(cl))
            finally:
                rg["ws_uid"] = old; rg["wsid"] = None; rg["red"] = oldred; rg["priv"] = oldpriv; rg["static"] = oldst; self.S.update(back)
                if not any(c["n"] == "nowait" for c in cl): rg["phase"] += 1
        if "critical" in parts or "atomic" in parts or "ordered" in parts:
            self.prot.append((parts[0], s.get("name", "")))
            try: return self.ex(body)
            finally: self.prot.pop()
        if "single" in parts or "master" in parts or "masked" in parts or "section" in parts:
            rg = self.regions[-1] if self.regions else {}
            o = rg.get("once"); rg["once"] = ("single", s.get("l")) if "single" in parts else ("master",)
            try: return self.ex(body)
            finally:
                rg["once"] = o
                if "single" in parts and not any(c["n"] == "nowait" for c in cl): rg["phase"] = rg.get("phase", 0) + 1
        if "barrier" in parts:
            if self.regions: self.regions[-1]["phase"] += 1
            return TRUE, {}
        return self.ex(body) if body else (TRUE, {})
    def static_sched(self, cl): return any(c["n"] == "schedule" and c.get("op") == 0 for c in cl)
    def privatise(self, rg, cl):
        """private copies start undefined and are discarded at the end of the construct"""
        back = {}
        for c in cl:
            if c["n"] in ("private", "firstprivate", "lastprivate"):
                for v in c.get("vars", []):
                    r = self.clause_root(v)
                    if not isinstance(r, tuple) or r not in self.S: continue
                    rg["priv"].add(r); old = self.S[r]
                    if c["n"] != "lastprivate": back[r] = old
                    if c["n"] != "firstprivate": self.S[r] = vmap(old, lambda p: Poly.of(atom("uninit", "private " + leafname((r, ())), next(dom._fresh))), lambda q: Cond("b", atom("uninit", "private " + leafname((r, ())), next(dom._fresh))))
            if c["n"] == "reduction":
                for v in c.get("vars", []): rg["red"][self.clause_root(v)] = c.get("op", "?")
        return back
    def clause_root(self, v):
        if isinstance(v, dict):
            if v.get("k") == "mem" or v.get("field"):
                t = self.this(); return (t.root, t.path + (("f", v["n"]),))
            x = self.frame.get(v.get("id"))
            if x: return x[0] if not x[1] else x
            t = None
            try: t = self.this()
            except Unsup: pass
            if t: return (t.root, t.path + (("f", v.get("n")),))
        return v
    def collapse(self, cl):
        for c in cl:
            if c["n"] == "collapse": return int(P(self.ev(c["e"])).const()) if c.get("e") else 2
        return 1
    def ws_loop(self, s, n):
        if s["k"] == "block" and len(s["s"]) == 1: return self.ws_loop(s["s"][0], n)
        if s["k"] == "for":
            if n <= 1: return self.s_for(s, ws=True)
            inner = s["body"]
            while inner["k"] == "block" and len(inner["s"]) == 1: inner = inner["s"][0]
            s2 = dict(s); s2["body"] = {"k": "wsnest", "inner": inner, "n": n - 1, "l": s.get("l")}
            return self.s_for(s2, ws=True)
        if s["k"] == "rfor": return self.s_rfor(s, ws=True)
        return self.ex(s)
    def s_wsnest(self, s): return self.ws_loop(s["inner"], s["n"])

    # ------------------------------------------------------------ library
    def lib(self, e, n, q):
        from .lib import libcall
        return libcall(self, e, n, q)

class Thrown(Exception): pass
def leafname(leaf):
    r, p = leaf
    s = r[2] if isinstance(r, tuple) and len(r) > 2 else str(r)
    for x in p:
        if x[0] == "f": s += "." + x[1]
        elif x[0] == "i": s += f"[{short(x[1])}]"
        elif x[0] == "c": s += f"({short(x[1])}" + (f",{short(x[2])})" if x[2] is not None else ")")
        else: s += "." + x[0]
    return s
def mksum_part(b, d):
    """sum of d over iterations before the current one"""
    t = Poly.of(b)
    return mksum(b, ZERO, t, d) if not d.is_zero() else ZERO
def subst_binder(c, b): return Rewriter(lambda a: Poly.of(atom("var", "•")) if a.id == b.id else None).cond(c)
def upmap_subst(u, mp):
    rw = Rewriter(lambda a: mp.get(a.id)); return upmap(u, rw.poly, rw.cond)
def vsubst_all(v, mp, cm):
    if not mp and not cm: return v
    def cleaf(c):
        if c.op in ("b", "nb") and c.a.id in cm:
            r = cm[c.a.id]; return r if c.op == "b" else Not(r)
        return None
    rw = Rewriter(lambda a: mp.get(a.id), cleaf if cm else None)
    return vmap(v, rw.poly, rw.cond)
def vsubst_c(v, res):
    mp = {i: x for i, x in res.items() if isinstance(x, Poly)}; cm = {i: x for i, x in res.items() if isinstance(x, Cond)}
    return vsubst_all(v, mp, cm)
def rp_up(u, mp, cm):
    def cleaf(c):
        if c.op in ("b", "nb") and c.a.id in cm:
            r = cm[c.a.id]; return r if c.op == "b" else Not(r)
        return None
    if not mp and not cm: return u
    rw = Rewriter(lambda a: mp.get(a.id), cleaf if cm else None)
    return upmap(u, rw.poly, rw.cond)
