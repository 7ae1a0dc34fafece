from ..model import *
RULE = ("value number of every grid field at an arbitrary node after clearing + particle-to-grid transfer (and after the MUSL re-transfer) equals the weight sums over all particles, "
        "in every guard cell, for quadratic and cubic kernels, 2D and 3D")
def nodeK(S, dim): return P(S.call("ind", [inp(f"I{d}") for d in range(dim)]))
def sums(S, W, dim, vel=None, mibf=False):
    I = S.I; Np = inp("Np"); b = I.binder(Np); p = Poly.of(b); dx = inp("dx")
    us = [xi(p, d) - inp(f"I{d}") for d in range(dim)]
    w = W.w(us)
    v = I.elem_in(S0(S, "v"), p) if vel is None else vel(p)
    Bm = I.elem_in(S0(S, "Bmat"), p)
    diff = Mat(dim, 1, [-dx * u for u in us])
    aff = I.vmul(mmulm(Bm, diff), inp("apicDinverse"))
    apic = lt(inp("flip_ratio"), 0)
    contrib = Mat(dim, 1, [(a + ite(apic, c, ZERO)) * w for a, c in zip(v.e, aff.e)])
    return dict(mass=mksum(b, ZERO, Np, w), mv=msum(b, Np, contrib), force=msum(b, Np, mmulm(I.elem_in(S0(S, "tau"), p), W.grad(us))),
                fric=mksum(b, ZERO, Np, w * P(I.elem_in(S0(S, "muI"), p))))
def S0(S, name):
    fd = S.I.field("Particles", name)
    return ArrayV(targs(strip(fd["t"]))[0], ("in", "particles." + name), (), inp("Np"))
def blend(I, S, p):
    g = lambda n: I.elem_in(S0(S, n), p)
    v, pic, fl = g("v"), g("pic"), g("flip"); r = inp("flip_ratio")
    a = fabs(r)
    return Mat(v.r, 1, [ite(lt(r, -1), c, a * (x + f) + (1 - a) * c) for x, f, c in zip(v.e, fl.e, pic.e)])
def run(ck):
    ck.rule = RULE
    H = hints(**TH)
    for dim, spl in [(2, 2), (3, 2), (2, 3)] + ([(3, 3)] if ck.thorough else []):
        prog = program(dim, spl)
        fp = prog.one("P2G", "Simulation"); fm = prog.one("MUSL", "Simulation")
        for mibf in (False, True):
            f = transfer_inputs(dim); part_sizes(prog, f); f["use_mibf"] = B(mibf)
            S = Sim(prog, f, plates=[], objects=[]); I = S.I; W = Weights(S)
            tag = f"{os.path.basename(fp['file'])}:{fp['line']} resizeGrid+P2G[{dim}D spline {spl}{' mibf' if mibf else ''}]"
            try:
                K = nodeK(S, dim)
                S.call("resizeGrid"); 
                flip0 = S.elem(("grid", "flip"), K)
                S.call("P2G")
                s = sums(S, W, dim)
                mass = S.elem(("grid", "mass"), K); v = S.elem(("grid", "v"), K); force = S.elem(("grid", "force"), K)
                pairs = [("mass", mass, inp("particle_mass") * s["mass"])]
                has = lt(0, s["mass"])
                pairs += [(f"velocity({d})", v.e[d], ite(has, s["mv"].e[d] / s["mass"], ZERO)) for d in range(dim)]
                pairs += [(f"force({d})", force.e[d], s["force"].e[d]) for d in range(dim)]
                pairs += [(f"cleared increment({d})", flip0.e[d], ZERO) for d in range(dim)]
                if mibf:
                    fr = P(S.elem(("grid", "friction"), K))
                    pairs.append(("friction", ite(has, fr, ZERO), ite(has, s["fric"] / s["mass"], ZERO)))
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
            ck.use(I)
            ck.cmp(tag, pairs, H, n=ck.n(1500, 6000), boundary=False, maxcells=3000, probe_s=0)
            for a in ("mass", "v", "force", "flip") + (("friction",) if mibf else ()):
                ck.cmp(tag, [(f"size of grid.{a}", S.get("grid", a).size, f["grid_nodes"])], H, n=50, boundary=False)
        # MUSL re-transfer
        f = transfer_inputs(dim); part_sizes(prog, f); f["use_musl"] = TRUE; f["pbc"] = FALSE
        S = Sim(prog, f, plates=[], objects=[]); I = S.I; W = Weights(S)
        tag = f"{os.path.basename(fm['file'])}:{fm['line']} MUSL[{dim}D spline {spl}]"
        try:
            K = nodeK(S, dim); S.call("MUSL")
            s = sums(S, W, dim, vel=lambda p: blend(I, S, p))
            v = S.elem(("grid", "v"), K)
            m = Poly.of(atom("sel", "grid.mass", K))
            pairs = [(f"velocity({d})", v.e[d], ite(lt(0, m), s["mv"].e[d] * inp("particle_mass") / m, ZERO)) for d in range(dim)]
            pairs.append(("mass unchanged", P(S.elem(("grid", "mass"), K)), m))
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
        ck.use(I)
        ck.cmp(tag, pairs, H, n=ck.n(1500, 6000), boundary=False, maxcells=3000, probe_s=0)
