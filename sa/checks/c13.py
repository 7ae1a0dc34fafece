from ..model import *
from .c05 import PH, rec, phases
from .c03 import nodeK, sums, S0
RULE = ("the append updates of the particle arrays under the image insertion, summed over all particles, equal one image per particle inside the band at each end of the period, shifted by one period, with every array the transfer reads carrying the "
        "source particle's value at the image's own index; after the removal all array sizes, the particle count and every element are those of the real particles; value numbers of the positions after the wrap; phase order puts images around every transfer")
def entries(log):
    """flatten an update log to (kind, guard, binders, value, idx)"""
    out = []
    def go(us, g, bs):
        for u in us:
            g2 = And(g, u[1])
            if u[0] == "for": go(u[4], g2, bs + [(u[2], u[3])])
            elif u[0] == "app": out.append((g2, tuple(bs), u[2], u[3]))
            else: raise Unsup(f"{u[0]} update of a particle array while images are inserted")
    go(log, TRUE, [])
    return out
def total(ents, f):
    s = ZERO
    for g, bs, v, idx in ents:
        t = ite(g, f(v, idx), ZERO)
        for b, n in reversed(bs): t = mksum(b, ZERO, P(n), t)
        s = s + t
    return s
def comps(v): return [P(x) for x in v.e] if isinstance(v, Mat) else [P(v)]
def source(v, name):
    """index of the particle whose coordinates the image takes"""
    out = set()
    for c in comps(v):
        for i in any_deps(c):
            a = dom.A(i)
            if a.kind == "sel" and a.args[0] == name: out.add(a.args[1])
    if len(out) != 1: raise Unsup("image position does not derive from one particle")
    return next(iter(out))
def reads(dim):
    """particle arrays the transfer to the grid reads, from the value numbers of the grid arrays it writes"""
    prog = program(dim); f = transfer_inputs(dim); part_sizes(prog, f)
    S = Sim(prog, f, plates=[], objects=[]); I = S.I
    K = P(S.call("ind", [inp(f"I{d}") for d in range(dim)])); S.call("P2G"); out = {"x"}
    for a in ("v", "mass", "force", "friction"):
        for i in vdeps(S.elem(("grid", a), K)):
            t = dom.A(i)
            if t.kind == "sel" and str(t.args[0]).startswith("particles."): out.add(t.args[0].split(".", 1)[1])
    return sorted(out)
def run(ck):
    ck.rule = RULE
    H = hints(dx=pos(.2, 1), Lx=pos(9, 14), Np=ints(3, 7), PP=ints(0, 3), n_threads=ints(1, 4), **{"particles.x": real(-1, 15), "particles": real()})
    HB = hints(dx=lambda u: np.where(u < .5, .25, .5), Lx=lambda u: 9 + np.floor(u * 8) / 4, Np=ints(3, 7), PP=ints(0, 3), **{"particles.x": lambda u: np.where(u < .8, np.floor((u / .8) * 48) / 4, 9 + np.floor((u - .8) * 40) / 4), "particles": real()})
    pp = inp("PP", 0, True); dom.RANGES[atom("in", "PP").id] = (ZERO, inp("Np"))
    for dim in (2, 3):
        prog = program(dim); fa = prog.one("advanceStep", "Simulation"); fadd = prog.one("PBCAddParticles", "Simulation")
        # --- band width the step asks for, and phase order
        sf = []
        def add(I, e): sf.append(P(I.ev(e["args"][0]))); I.event(("phase", "PBCAddParticles"))
        for musl in (False, True):
            tag = f"{os.path.basename(fa['file'])}:{fa['line']} advanceStep[{dim}D pbc musl={int(musl)}]"
            over = {"Simulation::" + n: rec(n) for n in PH}; over["Simulation::PBCAddParticles"] = add
            S = Sim(prog, {"pbc": TRUE, "use_musl": B(musl)}, plates=[], objects=[], over=over); I = S.I
            dom.SIGNS[atom("in", "current_time_step").id] = 1; dom.INTEGRAL.add(atom("in", "current_time_step").id)
            try: S.call("advanceStep")
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
            ck.use(I)
            seq = [n for c, n, w in phases(I.S["EV"]) if c.op != "F"]; img = False
            for n in seq:
                if n == "PBCAddParticles":
                    if img: ck.bad(tag, "images are added again before those of the previous transfer are removed")
                    img = True
                elif n == "PBCDelParticles":
                    if not img: ck.bad(tag, "images are removed although none were added")
                    img = False
                elif n == "P2G":
                    if not img: ck.bad(tag, f"{n} transfers particles to the grid while no periodic images are present")
                    else: ck.ok(f"{tag}: {n} with images")
                elif n in ("G2P", "MUSL", "deformationUpdate", "positionUpdate"):
                    if img: ck.bad(tag, f"{n} runs while periodic images are present")
                    else: ck.ok()
            if img: ck.bad(tag, "images are not removed within the step")
        for x in sf:
            # nodes read by a particle next to the end lie up to one cell beyond it and are reached by images within two further cells
            if x.is_const() and x.const() >= 3: ck.ok(f"image band of {x} cells")
            elif x.is_const(): ck.bad(tag, f"images are only taken within {x} cells of the ends; nodes read near the ends collect from three")
            else: ck.unk(f"band width {x}")
        if not sf: ck.unk("no image insertion found"); continue
        # --- the insertion itself
        tag = f"{os.path.basename(fadd['file'])}:{fadd['line']} PBCAddParticles[{dim}D]"
        try: rd = reads(dim)
        except Unsup as ex: ck.unk(f"{tag}: transfer reads: {ex}"); rd = ["x", "v", "F", "Bmat", "tau", "muI"]
        ck.extra.setdefault("arrays_read_by_transfer", {})[f"{dim}D"] = rd
        f = {"pbc": TRUE}; part_sizes(prog, f)
        S = Sim(prog, f, plates=[], objects=[]); I = S.I
        old = {a: S.get("particles", a) for a in [x["n"] for x in prog.records["Particles"]["fields"]]}
        Np, dx, Lx = inp("Np"), inp("dx"), inp("Lx")
        try:
            S.call("PBCAddParticles", [sf[0]])
            X = S.get("particles", "x"); ex_ = entries(X.log); img = lambda v, i: fn("img", *comps(v))
            b = I.binder(Np); xb = I.elem_in(old["x"], Poly.of(b)); band = sf[0] * dx
            right = And(lt(Lx - band, xb.e[0]), lt(xb.e[0], Lx)); left = And(le(0, xb.e[0]), lt(xb.e[0], band))
            sh = lambda s: fn("img", xb.e[0] + s, *xb.e[1:])
            want = mksum(b, ZERO, Np, ite(right, sh(ZERO - Lx), ZERO)) + mksum(b, ZERO, Np, ite(left, sh(Lx), ZERO))
            cnt = mksum(b, ZERO, Np, ite(right, ONE, ZERO)) + mksum(b, ZERO, Np, ite(left, ONE, ZERO))
            pairs = [("images of the particles near the ends of the period", total(ex_, img), want), ("particle count with images", P(S.get("Np")), Np + cnt)]
            for a in rd: pairs.append((f"size of particles.{a} with images", P(S.get("particles", a).size), Np + cnt))
            for a in rd:
                if a == "x": continue
                A_ = S.get("particles", a)
                w = ZERO
                for g, bs, v, idx in ex_:
                    t = ite(g, fn("at", idx, *comps(I.elem_in(old[a], source(v, "particles.x")))), ZERO)
                    for bb, n in reversed(bs): t = mksum(bb, ZERO, P(n), t)
                    w = w + t
                pairs.append((f"particles.{a} of the images is that of their source particle", total(entries(A_.log), lambda v, i: fn("at", i, *comps(v))), w))
            for a in old:
                u, v = S.elem(("particles", a), pp), I.elem_in(old[a], pp)
                pairs += [(f"particles.{a}({i}) of a real particle with images present", g, w) for i, (g, w) in enumerate(zip(comps(u), comps(v)))]
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
        ck.use(I)
        pre = And(lt(band * 2, Lx), lt(pp, Np))
        for h in (H, HB): ck.cmp(tag, pairs, h, pre=pre, n=ck.n(300, 2000), boundary=False, maxcells=600)
        # --- the removal
        fdel = prog.one("PBCDelParticles", "Simulation"); tag = f"{os.path.basename(fdel['file'])}:{fdel['line']} PBCDelParticles[{dim}D]"
        try:
            S.call("PBCDelParticles"); pairs = [("particle count", P(S.get("Np")), Np)]
            for a in old:
                pairs.append((f"size of particles.{a}", P(S.get("particles", a).size), Np))
                u, v = S.elem(("particles", a), pp), I.elem_in(old[a], pp)
                pairs += [(f"particles.{a}({i})", g, w) for i, (g, w) in enumerate(zip(comps(u), comps(v)))]
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}")
        else:
            ck.use(I)
            for h in (H, HB): ck.cmp(tag, pairs, h, pre=pre, n=ck.n(300, 2000), boundary=False, maxcells=600)
        # --- wrap-around
        fp = prog.one("positionUpdate", "Simulation"); tag = f"{os.path.basename(fp['file'])}:{fp['line']} positionUpdate[{dim}D]"
        for pbc in (TRUE, FALSE):
            f = {"pbc": pbc, "change_particle_positions": FALSE}; part_sizes(prog, f); S = Sim(prog, f, plates=[], objects=[]); I = S.I
            try:
                x0 = S.elem(("particles", "x"), pp); u = S.elem(("particles", "pic"), pp); S.call("positionUpdate"); x = S.elem(("particles", "x"), pp)
                m = [a + inp("dt") * c for a, c in zip(x0.e, u.e)]
                w0 = ite(lt(Lx, m[0]), m[0] - Lx, ite(lt(m[0], 0), m[0] + Lx, m[0])) if pbc.op == "T" else m[0]
                pairs = [("position along the period", x.e[0], w0)] + [(f"position({d})", x.e[d], m[d]) for d in range(1, dim)]
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
            ck.use(I)
            ck.cmp(tag, pairs, hints(Lx=pos(1, 4), **{"particles.x": real(-1, 5), "particles": real(-2, 2)}), pre=TRUE, n=ck.n(400, 2000))
        # --- MUSL transfers a second time: with images of the updated velocities, on the first transfer's grid
        fm = prog.one("MUSL", "Simulation"); tag = f"{os.path.basename(fm['file'])}:{fm['line']} MUSL[{dim}D periodic]"
        f = transfer_inputs(dim); part_sizes(prog, f); f.update({"pbc": TRUE, "use_musl": TRUE}); st = {}
        names = [x["n"] for x in prog.records["Particles"]["fields"]]
        def add2(I, e):
            st.setdefault("sf", []).append(P(I.ev(e["args"][0]))); st["real"] = {a: S.get("particles", a) for a in names}
            if st.get("on"): st["twice"] = True
            st["on"] = True; st["v"] = S.elem(("particles", "v"), pp)
            for a in rd: I.wr(S.f("particles", a), S0(S, a))
            I.wr(S.f("Np"), inp("Np"))
        def del2(I, e):
            st["on"] = False
            for a in rd: I.wr(S.f("particles", a), st["real"][a])
            I.wr(S.f("Np"), inp("NpR"))
        S = Sim(prog, f, plates=[], objects=[], over={"Simulation::PBCAddParticles": add2, "Simulation::PBCDelParticles": del2}); I = S.I; W = Weights(S)
        dom.INTEGRAL.add(atom("in", "NpR").id); dom.SIGNS[atom("in", "NpR").id] = 1
        def real_(a): return ArrayV(targs(strip(I.field("Particles", a)["t"]))[0], ("in", "real." + a), (), inp("NpR"))
        try:
            for a in names: I.wr(S.f("particles", a), real_(a))
            I.wr(S.f("Np"), inp("NpR")); dom.RANGES[atom("in", "PP").id] = (ZERO, inp("NpR"))
            K = nodeK(S, dim); S.call("MUSL")
            if "sf" not in st: ck.bad(tag, "MUSL transfers particles to the grid while no periodic images are present")
            elif st.get("on") or st.get("twice"): ck.bad(tag, "images added for the second transfer are not removed again")
            else:
                s = sums(S, W, dim); v = S.elem(("grid", "v"), K); m = Poly.of(atom("sel", "grid.mass", K))
                pairs = [(f"node velocity({d}) from real particles and images", v.e[d], ite(lt(0, m), s["mv"].e[d] * inp("particle_mass") / m, ZERO)) for d in range(dim)]
                g = {a: I.elem_in(real_(a), pp) for a in ("v", "pic", "flip")}; r = inp("flip_ratio"); ar = fabs(r)
                pairs += [(f"updated velocity({d}) before the images are taken", st["v"].e[d], ite(lt(r, -1), g["pic"].e[d], ar * (g["v"].e[d] + g["flip"].e[d]) + (1 - ar) * g["pic"].e[d])) for d in range(dim)]
                pairs += [(f"particle velocity({d}) afterwards", S.elem(("particles", "v"), pp).e[d], st["v"].e[d]) for d in range(dim)]
                pairs += [("images within at least three cells of the ends", le(3, st["sf"][0]), TRUE), ("particle count", P(S.get("Np")), inp("NpR"))]
                ck.cmp(tag, pairs, hints(**TH, PP=ints(0, 2), NpR=ints(3, 6), real=real()), pre=lt(pp, inp("NpR")), n=ck.n(500, 2000), boundary=False, maxcells=800)
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}")
        ck.use(I); dom.RANGES[atom("in", "PP").id] = (ZERO, inp("Np"))
