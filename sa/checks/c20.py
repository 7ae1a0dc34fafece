from ..model import *
RULE = ("value numbers of every particle quantity, of the particle count, spacing, volume and mass after each sampling routine (uncropped, every crop shape, level set), the appended points and the append guard of an arbitrary loop iteration, "
        "and the arguments handed to the Poisson-disk sampler, in every guard cell, 2D and 3D")
SHAPES = {2: (0, 1, 7), 3: (0, 1, 2, 7)}
H = hints(PDS=ints(1, 40), dx=pos(.05, .4), Lx=pos(.5, 2), Ly=pos(.5, 2), Lz=pos(.5, 2), ppc=pos(2, 9), pick=ints(0, 30), RR=ints(0, 30), pds=lambda u: 2 * u, kRadius=pos(.01, .3), bmin=real(-1, 0), bmax=real(.6, 2), rho=pos(.3, 3), attempts=ints(3, 50), seed=ints(1, 99), QQ=ints(0, 30))
for _d in range(3): H.table[f"bmin{_d}"] = real(-1, 1); H.table[f"bext{_d}"] = pos(.5, 2)
NEUTRAL = "v pic flip eps_pl_dev eps_pl_vol eps_pl_vol_pradhana delta_gamma viscosity muI F Bmat tau".split()
def run(ck):
    ck.rule = RULE
    for dim in (2, 3): program(dim, 2, True)
    its = []
    for dim in (2, 3):
        for s in SHAPES[dim]: its += [(box, dim, "sampleParticles", s), (box, dim, "regularSampleParticles", s)]
        its += [(vdb, dim, "sampleParticlesFromVdb"), (vdb, dim, "regularSampleParticlesFromVdb")]
    ck.parallel(lambda it: it[0](ck, *it[1:]), its)
def t_(f): return f"{os.path.basename(f['file'])}:{f['line']} {f['n']}"
LL = ["Lx", "Ly", "Lz"]
class Ctx: pass
def mk(prog, dim):
    c = Ctx(); c.calls = []
    def pds(I, e):
        a = [I.ev(x) for x in e["args"]]; c.calls.append((a, I.loc))
        return ArrayV(f"std::array<double, {dim}>", ("in", "pds"), (), inp("PDS", 1, True))
    def bounds(I, e):
        a, b = (I.ev0(x) for x in e["args"])
        I.wr(a, Mat(dim, 1, [inp(f"bmin{d}") for d in range(dim)])); I.wr(b, Mat(dim, 1, [inp(f"bmin{d}") + inp(f"bext{d}", 1) for d in range(dim)])); return None
    over = {"thinks::PoissonDiskSampling": pds, "ObjectVdb::bounds": bounds, "ObjectVdb::inside": lambda I, e: bvar("inside@vdb", *I.ev(e["args"][0]).e)}
    S = c.S = Sim(prog, {}, plates=[], objects=[], over=over); return c
def src(dim, k): return [Poly.of(atom("sel", "pds", P(k), (d,))) for d in range(dim)]
def comps(v, dim):
    if isinstance(v, Mat): return list(v.e)
    if isinstance(v, CL): return [P(x) for x in v.els]
def crop(dim, s, x, dx):
    Lx, Lz = inp("Lx"), inp("Lz")
    if dim == 2 and s == 1: return lt(x[1], Poly.c(Fr(1, 20)) + 100 * (x[0] - Lx) ** 2 - dx / 2)
    if dim == 3 and s == 1: return lt((x[0] - Lx / 2) ** 2 + (x[2] - Lz / 2) ** 2, (Lx / 2) ** 2)
    if dim == 3 and s == 2: return lt((x[0] - Lx / 2) ** 2 + (x[2] - Lz / 2) ** 2, (fn("tanh", x[1]) + 1) ** 2)
    return TRUE
def common(ck, c, tag, dim, cell):
    """neutral state, equal lengths, particle count, volume and mass"""
    S = c.S; I = S.I; R = inp("RR", 0, True); Np = P(S.get("Np")); pairs = []
    pt = S.get("particles"); names = [x["n"] for x in S.prog.records["Particles"]["fields"]]
    for n in names:
        A_ = S.get("particles", n)
        if not isinstance(A_, ArrayV): ck.unk(f"{tag}: particle quantity {n} has no array form"); return
        pairs.append((f"length of particles.{n}", P(A_.size), Np))
        if n == "x": continue
        v = I.aget(A_, R); m = comps(v, dim) if not isinstance(v, Poly) else [v]
        want = [ONE if i % (dim + 1) == 0 else ZERO for i in range(dim * dim)] if n == "F" else [ZERO] * len(m)
        pairs += [(f"initial particles.{n}({i})", P(a), b) for i, (a, b) in enumerate(zip(m, want))]
    for n in NEUTRAL:
        if n not in names: raise Anchor(f"particle quantity {n} missing")
    ppc = inp("ppc"); dx = P(S.get("dx")); vol = dx ** dim / ppc
    pairs += [("particle volume", P(S.get("particle_volume")), vol), ("particle mass", P(S.get("particle_mass")), inp("rho") * vol)]
    ck.cmp(tag, pairs, H, pre=lt(R, Np), n=ck.n(300, 2000), boundary=False)
def poisson_args(ck, c, tag, dim, lo, hi, full):
    if len(c.calls) != 1: ck.bad(tag, f"{len(c.calls)} Poisson-disk samplings"); return False
    a, loc = c.calls[0]
    l, h = comps(a[1], dim), comps(a[2], dim)
    if l is None or h is None: ck.unk(f"{tag}: corners of the sampled box"); return False
    pairs = [("sampling radius", P(a[0]), inp("kRadius"))] + [(f"lower corner {d}", l[d], lo[d]) for d in range(dim)] + [(f"upper corner {d}", h[d], hi[d]) for d in range(dim)]
    if full: pairs += [("attempts", P(a[3]), inp("attempts")), ("seed", P(a[4]), inp("seed"))]
    ck.cmp(tag, pairs, H, n=ck.n(200, 800)); return True
def points(ck, c, tag, dim, poisson, pred, lo, ext):
    """every particle is a source point of the requested domain, and every such source point becomes a particle"""
    S = c.S; I = S.I; R = inp("RR", 0, True)
    A_ = S.get("particles", "x"); x = comps(I.aget(A_, R), dim); Np = P(S.get("Np"))
    if x is None: ck.unk(f"{tag}: position of a particle"); return
    dx = P(S.get("dx")); sp = None if poisson else dx / (fn("cbrt", inp("ppc")) if dim == 3 else sqrt(inp("ppc")))
    n = None if poisson else [fn("trunc", ext[d] / sp) for d in range(dim)]
    pre = And(le(ZERO, R), lt(R, Np)); pairs = []
    total = inp("PDS")
    if not poisson:
        total = ONE
        for y in n: total = total * y
    pa = {a for v in x for a in deep(v) if a.kind == "fn" and a.args[0] == "pick"}
    if pa:
        nm = {a.args[1] for a in pa}; sel = [v for k, v in I.picks.items() if set(k) & nm]
        if len(sel) != 1: ck.unk(f"{tag}: points selected {len(sel)} times"); return
        bs, rn, g = sel[0]; mp = {}; cnt = ite(g, ONE, ZERO); g = And(rn, g)
        for b, m in reversed(bs): cnt = mksum(b, ZERO, m, cnt)
        ck.cmp(tag, [("particle count is the number of selected points", Np, cnt)], H, n=ck.n(1000, 4000), boundary=False)
        for j, (b, _) in enumerate(bs):
            a = atom("fn", "pick", repr(b), R, Poly.c(j)); mp[b.id] = Poly.of(a)
        if any(Poly.of(a) not in list(mp.values()) for a in pa): ck.bad(tag, "particle r is not the r-th selected point"); return
        pk = list(mp.values()); ids = [next(iter(q.atoms())) for q in pk]; g = vsubst(g, mp)
        # guard of an arbitrary iteration <=> source index in range and point in the domain
        if poisson:
            if len(pk) != 1: ck.unk(f"{tag}: selection over {len(pk)} loops"); return
            s = src(dim, pk[0]); rng = And(le(ZERO, pk[0]), lt(pk[0], total))
        elif len(pk) == dim: s = [lo[d] + sp * (pk[d] + Poly.c(Fr(1, 2))) for d in range(dim)]; rng = And(*[And(le(ZERO, pk[d]), lt(pk[d], n[d])) for d in range(dim)])
        elif len(pk) == 1: s = None; rng = And(le(ZERO, pk[0]), lt(pk[0], total))
        else: ck.unk(f"{tag}: selection over {len(pk)} loops"); return
        free = TRUE
        if s is None:    # lattice points numbered in one sequence: the point of iteration k
            s = x; ck.cmp(tag, lattice(x, lo, sp, n, dim), H, pre=rng, n=ck.n(2000, 8000), boundary=False)
            k2 = inp("QQ", 0, True); y = [subst(v, {dom.A(ids[0]).id: k2}) for v in x]
            ck.cmp(tag, [("distinct source points", Or(eq(pk[0], k2), *[Not(eq(a, b)) for a, b in zip(x, y)]), TRUE)], H, pre=And(rng, lt(k2, total)), n=ck.n(2000, 8000), boundary=False)
        ck.cmp(tag, [("a source point becomes a particle exactly when it lies in the domain", g, And(rng, pred(s, dx)))], H, n=ck.n(3000, 12000), boundary=False)
        ck.cmp(tag, [(f"position {d}", x[d], s[d]) for d in range(dim)], H, pre=And(g, rng, pre), n=ck.n(2000, 6000), boundary=False)
    else:
        p = pred(x, dx)
        if p.op != "T": ck.cmp(tag, [("points lie in the domain", p, TRUE)], H, pre=pre, n=ck.n(3000, 9000), boundary=False)
        ck.cmp(tag, [("particle count", Np, total)], H, n=ck.n(300, 900), boundary=False)
        if poisson: ck.cmp(tag, [(f"position {d}", x[d], src(dim, R)[d]) for d in range(dim)], H, pre=pre, n=ck.n(300, 900))
        else:
            k2 = inp("QQ", 0, True); y = [subst(v, {atom("in", "RR").id: k2}) for v in x]
            ck.cmp(tag, lattice(x, lo, sp, n, dim), H, pre=pre, n=ck.n(2000, 8000), boundary=False)
            ck.cmp(tag, [("distinct points", Or(eq(R, k2), *[Not(eq(a, b)) for a, b in zip(x, y)]), TRUE)], H, pre=And(pre, lt(k2, Np)), n=ck.n(3000, 9000), boundary=False)
def deep(v, seen=None):
    """all atoms a value depends on"""
    seen = {} if seen is None else seen
    for i in (v.atoms() if isinstance(v, Poly) else ()):
        a = dom.A(i)
        if a.id in seen: continue
        seen[a.id] = a
        for y in a.args:
            if isinstance(y, Poly): deep(y, seen)
            elif isinstance(y, Cond):
                for z in catoms(y): deep(z, seen)
    return seen.values()
def catoms(c):
    if c.op in ("lt", "le", "eq", "ne"): return [c.a]
    if c.op in ("and", "or"): return [y for x in c.a for y in catoms(x)]
    if c.op == "not": return catoms(c.a)
    if c.op == "b": return [Poly.of(c.a)]
    return []
def lattice(x, lo, sp, n, dim):
    out = []
    for d in range(dim):
        t = (x[d] - lo[d]) / sp - Poly.c(Fr(1, 2)); r = fn("floor", t + Poly.c(Fr(1, 4)))
        out += [(f"lattice coordinate {d}", t, r), (f"lattice index {d} in range", And(le(ZERO, r), lt(r, n[d])), TRUE)]
    return out
def box(ck, dim, name, s):
    prog = program(dim, 2, True); f = prog.one(name); tag = f"{t_(f)}[{dim}D shape {s}]"; po = name == "sampleParticles"
    c = mk(prog, dim); S = c.S; inp("ppc", 1); inp("kRadius", 1)
    a = [S.lv, inp("kRadius"), inp("ppc"), Poly.c(s), inp("attempts"), inp("seed")] if po else [S.lv, inp("ppc"), Poly.c(s)]
    try: S.I.call_fn(f, [], None, vals_=a)
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ck.use(S.I); ext = [inp(LL[d]) for d in range(dim)]; lo = [ZERO] * dim
    vol = ONE
    for e in ext: vol = vol * e
    ck.cmp(tag, [(LL[d], P(S.get(LL[d])), ext[d]) for d in range(dim)] + [("density", P(S.get("rho")), inp("rho"))], H, n=50)
    if po:
        if not poisson_args(ck, c, tag, dim, lo, ext, True): return
        ck.cmp(tag, [("cell volume", P(S.get("dx")) ** dim, inp("ppc") * vol / inp("PDS")), ("cell size positive", lt(ZERO, P(S.get("dx"))), TRUE)], H, n=ck.n(300, 1500))
    else: ck.cmp(tag, [("cell size", P(S.get("dx")), inp("dx"))], H, n=50)
    common(ck, c, tag, dim, vol)
    points(ck, c, tag, dim, po, lambda x, dx: crop(dim, s, x, dx), lo, ext)
def vdb(ck, dim, name):
    prog = program(dim, 2, True); f = prog.one(name); tag = f"{t_(f)}[{dim}D]"; po = name == "sampleParticlesFromVdb"
    c = mk(prog, dim); S = c.S; inp("ppc", 1); inp("kRadius", 1)
    o = S.I.new(Obj("ObjectVdb", {}, "obj"), "obj")
    a = [S.lv, LV(o, ()), inp("kRadius"), inp("ppc")] if po else [S.lv, LV(o, ()), inp("ppc")]
    try: S.I.call_fn(f, [], None, vals_=a)
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ck.use(S.I); lo = [inp(f"bmin{d}") for d in range(dim)]; ext = [inp(f"bext{d}", 1) for d in range(dim)]; hi = [a + b for a, b in zip(lo, ext)]
    vol = ONE
    for e in ext: vol = vol * e
    ck.cmp(tag, [(LL[d], P(S.get(LL[d])), ext[d]) for d in range(dim)] + [("density", P(S.get("rho")), inp("rho"))], H, n=50)
    if po:
        if not poisson_args(ck, c, tag, dim, lo, hi, False): return
        ck.cmp(tag, [("cell volume", P(S.get("dx")) ** dim, inp("ppc") * vol / inp("PDS")), ("cell size positive", lt(ZERO, P(S.get("dx"))), TRUE)], H, n=ck.n(300, 1500))
    else: ck.cmp(tag, [("cell size", P(S.get("dx")), inp("dx"))], H, n=50)
    common(ck, c, tag, dim, vol)
    points(ck, c, tag, dim, po, lambda x, dx: bvar("inside@vdb", *x), lo, ext)
