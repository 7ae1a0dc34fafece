"""Cell decomposition and equality decision for gated value numbers.

Two terms are compared in every sign cell of the guards occurring in them.  A cell is
identified by a vector of guard outcomes; cells are discovered by evaluating the *terms*
(never the program) at generated assignments, so that only satisfiable cells are kept.
Within a cell both terms are made gate-free and compared by polynomial normal form; when
the normal form does not decide, the terms are evaluated at the cell's assignments
(identity testing), and only a numerical difference counts as a mismatch."""
import numpy as np, zlib, math
np.seterr(all="ignore")
from .dom import *
from . import dom

class Hints:
    """inverse-cdf samplers per input name"""
    def __init__(self, table=None): self.table = dict(table or {})
    def with_(self, **kw): return Hints({**self.table, **kw})
    def get(self, name):
        n = str(name)
        if n in self.table: return self.table[n]
        last = n.split(".")[-1]
        return self.table.get(last)
def pos(lo=0.1, hi=3.0): return lambda u: lo * (hi / lo) ** u
def real(a=-2.0, b=2.0): return lambda u: a + (b - a) * u
def ints(a, b): return lambda u: np.floor(a + (b - a) * u)
def const(v): return lambda u: v + 0 * u

class Env:
    def __init__(self, n, seed, hints, fixed=None, wide=0.0, only=None):
        self.probe = False; self.wide = wide; self.only = only      # decades spanned by inputs without a stated range (0: plain interval)
        self.n = n; self.sick = np.zeros(n, bool); self.rng = np.random.default_rng(seed); self.hints = hints
        self.memo = {}; self.cm = {}; self.salt = self.rng.uniform(0, 6.28, n); self.over = dict(fixed or {}); self.seed = seed
    def free(self, u, i=None):
        if not self.wide or (self.only is not None and i not in self.only): return -2 + 4 * u
        x = 2 * u - 1; return np.sign(x) * 10 ** ((1 - np.abs(x)) * -self.wide + np.abs(x) * self.wide)
    def base(self, key):
        h = zlib.crc32(repr(key).encode())
        return np.random.default_rng((h, self.seed)).uniform(0, 1, self.n)
    def smooth(self, key, *vals):
        h = zlib.crc32(repr(key).encode())
        r = np.random.default_rng(h)
        x = self.salt * r.uniform(0.5, 1.5) + r.uniform(0, 6.28)
        for v in vals: x = x + v * r.uniform(0.7, 1.9)
        return 0.5 + 0.499 * np.sin(x)
    def poly(self, p):
        v, _ = self.polymag(p); return v
    def polymag(self, p):
        r = self.memo.get(p)
        if r is None:
            v = np.zeros(self.n); mag = np.zeros(self.n)
            for m, c in p.t.items():
                t = np.full(self.n, float(c))
                for i, e in m: t = t * self.atom(A(i)) ** e
                v = v + t; mag = mag + np.abs(t)
            r = (v, mag); self.memo[p] = r
        return r
    def atom(self, a):
        r = self.over.get(a.id)
        if r is None:
            r = self._atom(a); self.over[a.id] = r
        return r
    def any(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, Cond): return self.cond(x).astype(float)
        return None
    def _atom(self, a):
        k = a.kind
        if k == "fn":
            f = a.args[0]; v = [self.any(x) for x in a.args[1:]]
            v = [x for x in v if x is not None]
            if f == "abs": return np.abs(v[0])
            if f == "sqrt": return np.sqrt(np.maximum(v[0], 0)) if True else 0
            if f == "floor": return np.floor(np.round(v[0], 9))
            if f == "ceil": return np.ceil(np.round(v[0], 9))
            if f == "trunc": return np.trunc(np.round(v[0], 9))
            if f == "idiv": return np.floor_divide(np.round(v[0]), np.maximum(np.round(v[1]), 1))
            if f in ("exp", "sinh", "cosh"): self.sick |= ~(np.abs(v[0]) <= 50)      # beyond the range in which terms are compared
            if f == "exp": return np.exp(np.clip(v[0], -50, 50))
            if f == "log" and isinstance(a.args[1], Poly):       # a logarithm of a cancelled sum carries no digits
                _, mg = self.polymag(a.args[1]); self.sick |= np.abs(v[0]) <= 1e-8 * mg
            if f == "log": return np.log(np.abs(v[0]) + 1e-300)
            if f == "pow": return np.power(np.abs(v[0]), v[1])
            if f in ("tanh", "sinh", "cosh", "sin", "cos", "tan", "cbrt"): return getattr(np, f)(v[0])
            if f in ("atan", "asinh"): return getattr(np, "arc" + f[1:])(v[0])
            if f == "atan2": return np.arctan2(v[0], v[1])
            if f == "fmod": return np.fmod(v[0], v[1])
            hint = self.hints.get(f)
            strs = tuple(x for x in a.args[1:] if isinstance(x, str))
            u = self.smooth(("fn", f) + strs, *v)
            return hint(u) if hint else self.free(u, a.id)
        if k == "ite": return np.where(self.cond(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2]))
        if k == "inv":
            v = self.poly(a.args[0]); return 1.0 / np.where(v == 0, 1e-300, v)
        if k == "big": return self.poly(a.args[0])
        if k == "sum":
            return (self.poly(a.args[2]) - self.poly(a.args[1])) * self.poly(a.args[3])
        if k == "sel":
            name, idx = a.args[0], a.args[1]
            rest = a.args[2:]
            hint = self.hints.get(name)
            u = self.smooth(("sel", str(name), str(rest)), self.any(idx) if isinstance(idx, (Poly, Cond)) else 0.0)
            return hint(u) if hint else self.free(u, a.id)
        if k == "in":
            hint = self.hints.get(a.args[0] if len(a.args) == 1 else ".".join(map(str, a.args)))
            if hint is None and len(a.args) > 1: hint = self.hints.get(a.args[0])
            u = self.base((k, tuple(str(x) for x in a.args)))
            return hint(u) if hint else self.free(u, a.id)
        if k == "var":
            rg = RANGES.get(a.id)
            u = self.base((k, str(a.args)))
            if rg:
                lo, hi = self.poly(rg[0]), self.poly(rg[1])
                return np.floor(lo + u * np.maximum(hi - lo, 1))
            return np.floor(u * 7)
        hint = self.hints.get(a.args[0]) if a.args else None
        u = self.base((k, tuple(str(x) for x in a.args)))
        vals = [self.any(x) for x in a.args if isinstance(x, (Poly, Cond))]
        if vals: u = self.smooth((k, tuple(str(x) for x in a.args if not isinstance(x, (Poly, Cond)))), *vals)
        return hint(u) if hint else self.free(u, a.id)
    def cond(self, c):
        r = self.cm.get(c)
        if r is None:
            r = self._cond(c); self.cm[c] = r
        return r
    def _cond(self, c):
        if c.op == "T": return np.ones(self.n, bool)
        if c.op == "F": return np.zeros(self.n, bool)
        if c.op in ("lt", "le", "eq", "ne"):
            v, mag = self.polymag(c.a)
            z = np.abs(v) <= 1e-11 * mag
            if c.op == "lt": return (v < 0) & ~z
            if c.op == "le": return (v < 0) | z
            return z if c.op == "eq" else ~z
        if c.op == "and":
            r = np.ones(self.n, bool)
            for x in c.a: r = r & self.cond(x)
            return r
        if c.op == "or":
            r = np.zeros(self.n, bool)
            for x in c.a: r = r | self.cond(x)
            return r
        a = c.a
        key = tuple(str(x) for x in a.args if not isinstance(x, (Poly, Cond)))
        vals = [self.any(x) for x in a.args if isinstance(x, (Poly, Cond))]
        for x in a.args:
            if isinstance(x, tuple): vals += [self.any(y) for y in x if isinstance(y, (Poly, Cond))]
        hint = self.hints.get(a.args[0])
        if vals: u = self.smooth(("b",) + key, *vals)
        else: u = self.base(("b",) + key)
        v = (u < 0.5) if hint is None else (hint(u) > 0.5)
        return v if c.op == "b" else ~v

class Result:
    def __init__(self): self.cells = 0; self.exact = 0; self.tested = 0; self.bad = []; self.undecided = 0; self.vague = []; self.probed = 0; self.unmet = 0
    def merge(self, o):
        self.cells += o.cells; self.exact += o.exact; self.tested += o.tested; self.bad += o.bad; self.undecided += o.undecided

def solve_boundary(env, leaf):
    """assignment on the boundary leaf.a == 0 by solving for one input atom occurring linearly"""
    p = leaf.a
    cands = []
    for i in p.atoms():
        a = A(i)
        if a.kind not in ("in", "sel", "havoc"): continue
        if a.kind == "sel": continue
        if any(dict(m).get(i, 0) not in (0, 1) for m in p.t): continue
        # must not occur nested elsewhere in p
        if any(j != i and i in atom_deps(A(j)) for j in p.atoms()): continue
        cands.append(i)
    return cands

INTERPRETED = set("abs sqrt floor ceil trunc idiv exp log pow tanh sinh cosh sin cos tan cbrt atan asinh atan2 fmod".split())
def switch(l, want, deps, hints, setup, seed, n, until, tries=4):
    """environments in which the guard l, by a change of one of its inputs alone, just takes the wanted outcome (bisection on the value of the guard's term)"""
    import time
    def key(a): return (a.kind, str(a.args[0]), tuple(str(x) for x in a.args[1:] if not isinstance(x, (Poly, Cond))))
    own = {}
    for i in deps:
        a = A(i)
        if a.kind == "sel": own.setdefault(key(a), []).append(i)
    e0 = Env(n, seed, hints)
    if setup: setup(e0)
    fixed = set(e0.over)
    out = []; done = 0
    for i in sorted(any_deps(l.a), key=lambda i: (A(i).kind != "in", atom_str(A(i)))):
        a = A(i)
        if a.kind not in ("in", "sel") or i in dom.INTEGRAL or i in fixed: continue
        if a.kind == "sel" and len(own.get(key(a), ())) > 1: continue          # the same storage under another index
        if done >= tries or time.time() > until: break
        done += 1
        hint = hints.get(a.args[0] if len(a.args) == 1 else ".".join(map(str, a.args))) if a.kind == "in" else hints.get(a.args[0])
        if hint is None and a.kind == "in" and len(a.args) > 1: hint = hints.get(a.args[0])
        us = np.linspace(0, 1, 9)
        r = hint(us) if hint else -2 + 4 * us
        if np.all(r == np.round(r)): continue                                   # counts and flags
        lo, hi = float(np.min(r)), float(np.max(r)); s = dom.SIGNS.get(i)
        top = hi if lo >= 0 else max(abs(lo), hi) * 1e4
        mags = np.geomspace(lo / 50 if lo > 0 else 1e-14 * top, top, 18 if lo >= 0 else 26)
        scan = list(mags) if lo >= 0 or s in (0, 1) else list(-mags[::-1]) + list(mags)
        def val(x):
            e = Env(n, seed, hints); e.over[i] = np.full(n, float(x)) if np.ndim(x) == 0 else x
            if setup: setup(e)
            return e.poly(l.a) < 0
        prev = None; A0 = np.full(n, np.nan); B0 = np.full(n, np.nan)
        for x in scan:
            if time.time() > until: return out
            c = val(x)
            if prev is not None:
                sw = (c != prev[1]) & np.isnan(A0)
                A0[sw] = prev[0]; B0[sw] = x
            prev = (x, c)
        ok = ~np.isnan(A0)
        if not ok.any(): continue
        a_ = np.where(ok, A0, scan[0]); b_ = np.where(ok, B0, scan[-1]); ca = val(a_)
        for _ in range(45):
            if time.time() > until: return out
            m = np.where(a_ * b_ > 0, np.sign(a_) * np.sqrt(np.abs(a_ * b_)), (a_ + b_) / 2)
            c = val(m); left = c == ca
            a_ = np.where(left, m, a_); b_ = np.where(left, b_, m)
        goal = ca == want if want is not None else np.arange(n) % 2 == 0
        side = np.where(goal, a_, b_); step = np.where(goal, np.sign(a_ - b_), np.sign(b_ - a_))
        rel = 10 ** np.random.default_rng(seed).uniform(-7, -.5, n)
        e = Env(n, seed, hints); e.over[i] = np.where(ok, side + step * np.abs(side) * rel, e0.atom(a)); e.probe = True
        if setup: setup(e)
        if want is None or (e.cond(l) == want).any(): out.append(e)
    return out
def vague(g, w, rw, basis):
    """the computed term depends, in this cell, on an over-approximated value that the specification does not mention: no verdict"""
    if not any(A(i).kind == "havoc" for i in any_deps(g)): return False
    go = rw.poly if isinstance(g, Poly) else rw.cond
    hg = {i for i in any_deps(go(g)) if A(i).kind == "havoc"}
    if not hg: return False
    ok = set(any_deps(go(w)))
    for x in basis: ok |= any_deps(rw.any(x))
    return bool(hg - ok)
def mkrw(m):
    def cleaf(c): return m.get(c)
    def leaf(a):
        if a.kind == "fn" and a.args[0] == "abs":
            r = m.get(lt0(a.args[1]))
            if r is not None and r.op in "TF":
                q = rw.poly(a.args[1])
                return -q if r.op == "T" else q
        return None
    rw = Rewriter(leaf, cleaf)
    return rw
def compare(pairs, hints, pre=TRUE, n=600, seed=1, boundary=False, rtol=1e-7, maxcells=400, names=None, exact_s=12.0, setup=None, basis=(), atol=1e-10, probe_s=3.0):
    """pairs: list of (label, got, want) Polys/Conds. Returns Result with .bad = [(label, msg)]"""
    res = Result()
    conds = set()
    for _, g, w in pairs:
        all_conds(g, conds); all_conds(w, conds)
    all_conds(pre, conds)
    leaves = sorted({l if l.op not in ("le", "ne", "nb") else Not(l) for l in conds if l.op not in "TF"}, key=repr)
    batches = [(Env(n, seed, hints), False, None)]
    batches.append((Env(n, seed + 7, hints), False, None))
    if boundary:
        for l in leaves:
            if l.op not in ("lt", "eq"): continue
            for i in solve_boundary(None, l)[:2]:
                e = Env(max(60, n // 6), seed + 13, hints)
                # evaluate p = p0 + p1*a
                p1 = Poly({tuple(x for x in m if x[0] != i): c for m, c in l.a.t.items() if dict(m).get(i, 0) == 1})
                p0 = Poly({m: c for m, c in l.a.t.items() if dict(m).get(i, 0) == 0})
                probe = Env(e.n, e.seed, hints)
                v1 = probe.poly(p1); v0 = probe.poly(p0)
                with np.errstate(all="ignore"):
                    val = -v0 / v1
                ok = np.isfinite(val)
                hint = hints.get(A(i).args[0]) if A(i).args else None
                s = dom.SIGNS.get(i)
                if s == 1: ok &= val > 0
                if s == 0: ok &= val >= 0
                if i in dom.INTEGRAL: ok &= np.abs(val - np.round(val)) < 1e-9; val = np.round(val)
                if not ok.any(): continue
                e.over[i] = np.where(ok, val, 1.0)
                batches.append((e, True, ok))
    # inputs without a stated range over several decades; then, per guard outcome not met so far, its own inputs over many decades
    batches.append((Env(n, seed + 23, hints, wide=3.0), False, None))
    if setup:
        for e, _, _ in batches: setup(e)
    import time
    if leaves:
        unmet = set(leaves); met = {}
        with np.errstate(all="ignore"):
            for e, _, ok in batches:
                sel = e.cond(pre) if ok is None else e.cond(pre) & ok
                for l in list(unmet):
                    v = e.cond(l)[sel]
                    if len(v): met.setdefault(l, set()).update((bool(v.any()), bool(v.all())))
                    if len(met.get(l, ())) == 2: unmet.discard(l)
        for k, l in enumerate(sorted((l for l in unmet if l.op in ("lt", "eq")), key=repr)[:10]):
            e = Env(max(200, n // 3), seed + 31 + k, hints, wide=7.0, only=set(any_deps(l)))
            if setup: setup(e)
            batches.append((e, False, None))
            with np.errstate(all="ignore"):
                v = e.cond(l)[e.cond(pre)]
                if len(v): met.setdefault(l, set()).update((bool(v.any()), bool(v.all())))
        unmet = {l for l in unmet if len(met.get(l, ())) < 2}
        # guard outcomes still not met: find an input of the guard at which it switches, and value the terms next to it
        one = set(); two = set()
        for _, g, w in pairs: all_conds(g, one); all_conds(w, two)
        norm = lambda cs: {l if l.op not in ("le", "ne", "nb") else Not(l) for l in cs}
        both = norm(one) & norm(two)
        deps = any_deps(pre)
        for _, g, w in pairs: deps = deps | any_deps(g) | any_deps(w)
        t0 = time.time()
        for k, l in enumerate(sorted((l for l in unmet if l.op == "lt"), key=lambda l: (l in both, repr(l)))[:12]):
            if time.time() - t0 > probe_s: break
            want = not (True in met.get(l, ()))          # the outcome not met
            for e in switch(l, want, deps, hints, setup, seed + 43 + k, max(120, min(n // 4, 400)), t0 + probe_s): batches.append((e, False, None)); res.probed += 1
        # guards that only one of the two sides has: both sides of their switch, so that the gap between two similar guards is met
        t0 = time.time()
        for k, l in enumerate(sorted((l for l in (norm(one) ^ norm(two)) - unmet if l.op == "lt"), key=lambda l: (len(any_deps(l.a)), repr(l)))[:16]):
            if time.time() - t0 > probe_s: break
            for e in switch(l, None, deps, hints, setup, seed + 71 + k, max(120, min(n // 4, 300)), t0 + probe_s, 2): batches.append((e, False, None)); res.probed += 1
        res.unmet = len(unmet)
    seen = {}; spent = 0.0
    same = [(isinstance(g, Poly) and isinstance(w, Poly) and g == w) or (isinstance(g, Cond) and g == w) for _, g, w in pairs]
    for env, isb, ok in batches:
        with np.errstate(all="ignore"):
            sel = env.cond(pre).copy()
            if ok is not None: sel &= ok
            cols = [env.cond(l) for l in leaves]
            zero = [np.abs(env.polymag(l.a)[0]) <= 1e-11 * env.polymag(l.a)[1] if l.op in ("lt", "eq") else np.zeros(env.n, bool) for l in leaves]
            vals = [((env.poly(g), env.poly(w)) if isinstance(g, Poly) else (env.cond(g).astype(float), env.cond(w).astype(float))) for _, g, w in pairs]
        sel &= ~env.sick
        groups = {}
        for j in np.nonzero(sel)[0]:
            key = tuple(bool(c[j]) for c in cols) + tuple(bool(z[j]) for z in zero)
            groups.setdefault(key, []).append(j)
        for key, js in groups.items():
            if len(seen) > maxcells and key not in seen: continue
            L = len(leaves); anyzero = any(key[L:])
            if isb and not anyzero: continue
            st = seen.get(key)
            js = np.array(js)
            newcell = key not in seen
            if newcell:
                res.cells += 1
                m = {}
                for l, tv in zip(leaves, key[:L]):
                    m[l] = B(tv); m[Not(l)] = B(not tv)
                rw = mkrw(m)
                st = {"rw": rw}
                seen[key] = st
            for t, (lab, g, w) in enumerate(pairs):
                if st.get(t) == "exact": continue
                if same[t]:
                    if newcell: st[t] = "exact"; res.exact += 1
                    continue
                if newcell and not anyzero and spent < exact_s:
                    t1 = time.time()
                    try:
                        if isinstance(g, Poly):
                            gg, ww = rw.poly(g), rw.poly(w)
                            if gg == ww or reduce_zero(gg - ww, 6000, t1 + 1.0): st[t] = "exact"; res.exact += 1; continue
                        else:
                            gg, ww = rw.cond(g), rw.cond(w)
                            if gg == ww and True: st[t] = "exact"; res.exact += 1; continue
                    except RecursionError: pass
                    finally: spent += time.time() - t1
                a, b = vals[t][0][js], vals[t][1][js]
                fin = np.isfinite(a) & np.isfinite(b)
                with np.errstate(all="ignore"):
                    err = np.abs(a - b) > rtol * (np.abs(a) + np.abs(b)) + atol
                    if (env.wide or env.probe) and isinstance(g, Poly): err &= np.abs(a - b) > (1e-7 if env.probe else 0) + 1e-9 * (env.polymag(g)[1] + env.polymag(w)[1])[js] + 1e-6 * np.minimum(np.abs(a), np.abs(b))
                bad = fin & err
                if bad.any() and vague(g, w, st["rw"], basis):
                    if st.get(t) != "und": st[t] = "und"; res.undecided += 1; res.vague.append(lab)
                elif bad.any():
                    # require a robust difference: ignore isolated rounding artefacts
                    j = int(js[np.nonzero(bad)[0][0]])
                    if st.get(t) != "bad":
                        st[t] = "bad"
                        res.bad.append((lab, f"got {float(vals[t][0][j]):.8g}, expected {float(vals[t][1][j]):.8g} at {witness(env, j, [g, w])}"))
                elif fin.any():
                    if t not in st: st[t] = "tested"; res.tested += 1
                else:
                    if t not in st: st[t] = "und"; res.undecided += 1
    return res

def witness(env, j, xs, limit=14):
    ids = set()
    for x in xs: ids |= any_deps(x)
    out = []
    for i in sorted(ids):
        a = A(i)
        if a.kind in ("in", "sel", "havoc", "var") :
            v = env.over.get(i)
            if v is None: continue
            out.append(f"{atom_str(a)}={float(v[j]):.6g}")
    bs = []
    for c, v in env.cm.items():
        if c.op == "b" and c.a.id in ids: bs.append(f"{atom_str(c.a)}={bool(v[j])}")
    out += bs
    if len(out) > limit: out = out[:limit] + ["…"]
    return "{" + ", ".join(out) + "}"
