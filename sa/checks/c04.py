from ..model import *
from .c03 import S0, blend
RULE = ("value numbers of pic, flip, Bmat, F, v, x of an arbitrary particle after G2P / deformationUpdate / MUSL / positionUpdate equal the stencil sums and blends of the chosen scheme in every guard cell; "
        "the constitutive update is reached exactly once per particle and step with the updated deformation")
dom.INTEGRAL.add(atom("in", "PP").id); dom.SIGNS[atom("in", "PP").id] = 0
def plast_rec(I, e):
    """stand-in for the constitutive update: multiplies a tag into tau so that the count and the deformation it received are visible"""
    this = I.objlv(e); p = I.ev(e["args"][0]); Fe = I.ev(e["args"][2])
    tl = this + ("f", "particles")
    n = I.rd(tl + ("f", "tau") + ("i", P(p)))
    Fs = I.rd(tl + ("f", "F") + ("i", P(p)))
    I.wr(tl + ("f", "tau") + ("i", P(p)), Mat(n.r, n.c, [3 * a + 5 * b + 7 * c for a, b, c in zip(n.e, Fe.e, Fs.e)]))
    cl = I.lv(e["args"][1])
    I.wr(cl, P(I.rd(cl)) + 1)
    return None
def grid_in(name, k, dim): return Mat(dim, 1, [Poly.of(atom("sel", "grid." + name, k, (d,))) for d in range(dim)])
def interp(S, W, dim, p, gv=None):
    """stencil sums at particle p"""
    dx = inp("dx"); I = S.I
    r = {k: None for k in ("pic", "flip", "B", "G")}
    def acc(k, m): r[k] = m if r[k] is None else Mat(m.r, m.c, [a + b for a, b in zip(r[k].e, m.e)])
    for nd in stencil(dim, p):
        us = [xi(p, d) - nd[d] for d in range(dim)]
        w = W.w(us); g = W.grad(us)
        K = P(S.call("ind", nd))
        v = I.elem_in(Gin(S, "v"), K); fl = I.elem_in(Gin(S, "flip"), K)
        acc("pic", Mat(dim, 1, [a * w for a in v.e])); acc("flip", Mat(dim, 1, [a * w for a in fl.e]))
        acc("B", Mat(dim, dim, [v.e[a] * (-dx * us[b]) * w for a in range(dim) for b in range(dim)]))
        acc("G", Mat(dim, dim, [v.e[a] * g.e[b] for a in range(dim) for b in range(dim)]))
    return r
def Gin(S, name):
    fd = S.I.field("Grid", name)
    return ArrayV(targs(strip(fd["t"]))[0], ("in", "grid." + name), (), inp("grid_nodes"))
def run(ck):
    ck.rule = RULE
    H = hints(**TH, PP=ints(0, 2))
    over = {"Simulation::plasticity": plast_rec}
    Z = lambda n, m=1: Mat(n, m, [ZERO] * (n * m))
    for dim, spl in [(2, 2), (3, 2), (2, 3)] + ([(3, 3)] if ck.thorough else []):
        prog = program(dim, spl); p = inp("PP"); r = inp("flip_ratio")
        for musl in (False, True):
            f = transfer_inputs(dim); part_sizes(prog, f); f["use_musl"] = B(musl)
            S = Sim(prog, f, plates=[], objects=[], over=over); I = S.I; W = Weights(S)
            fg = prog.one("G2P", "Simulation")
            tag = f"{os.path.basename(fg['file'])}:{fg['line']} G2P[{dim}D spline {spl}{' musl' if musl else ''}]"
            try:
                S.call("G2P"); st = interp(S, W, dim, p)
                get = lambda n: S.elem(("particles", n), p); old = lambda n: I.elem_in(S0(S, n), p)
                pairs = [(f"pic({d})", get("pic").e[d], st["pic"].e[d]) for d in range(dim)]
                pairs += [(f"flip({d})", get("flip").e[d], ite(le(-1, r), st["flip"].e[d], ZERO)) for d in range(dim)]
                pairs += [(f"Bmat({d})", get("Bmat").e[d], ite(lt(r, 0), st["B"].e[d], ZERO)) for d in range(dim * dim)]
                F0 = old("F"); tau0 = old("tau")
                Fn = Mat(dim, dim, [a + inp("dt") * b for a, b in zip(F0.e, mmulm(st["G"], F0).e)])
                if musl: Fw, tw = F0, tau0
                else: Fw = Fn; tw = Mat(dim, dim, [3 * a + 12 * b for a, b in zip(tau0.e, Fn.e)])
                pairs += [(f"F({d})", get("F").e[d], Fw.e[d]) for d in range(dim * dim)]
                pairs += [(f"constitutive update applied {'never' if musl else 'once'} with the new F({d})", get("tau").e[d], tw.e[d]) for d in range(dim * dim)]
                for n in ("x", "v"): pairs += [(f"{n} unchanged({d})", get(n).e[d], old(n).e[d]) for d in range(dim)]
                if not musl: pairs.append(("plastic shear rate cleared before the constitutive update", P(get("delta_gamma")), ZERO))
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
            ck.use(I); ck.cmp(tag, pairs, H, pre=lt(p, inp("Np")), n=ck.n(400, 2000), boundary=False, maxcells=2000)
        # deformation update (MUSL)
        f = transfer_inputs(dim); part_sizes(prog, f); f["use_musl"] = TRUE; f["pbc"] = FALSE
        S = Sim(prog, f, plates=[], objects=[], over=over); I = S.I; W = Weights(S)
        fg = prog.one("deformationUpdate", "Simulation")
        tag = f"{os.path.basename(fg['file'])}:{fg['line']} deformationUpdate[{dim}D spline {spl}]"
        try:
            S.call("deformationUpdate"); st = interp(S, W, dim, p)
            get = lambda n: S.elem(("particles", n), p); old = lambda n: I.elem_in(S0(S, n), p)
            F0 = old("F"); tau0 = old("tau")
            Fn = Mat(dim, dim, [a + inp("dt") * b for a, b in zip(F0.e, mmulm(st["G"], F0).e)])
            pairs = [(f"F({d})", get("F").e[d], Fn.e[d]) for d in range(dim * dim)]
            pairs += [(f"constitutive update applied once with the new F({d})", get("tau").e[d], 3 * tau0.e[d] + 12 * Fn.e[d]) for d in range(dim * dim)]
            pairs.append(("plastic shear rate cleared before the constitutive update", P(get("delta_gamma")), ZERO))
            for n in ("x", "v", "pic", "flip"): pairs += [(f"{n} unchanged({d})", get(n).e[d], old(n).e[d]) for d in range(dim)]
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
        ck.use(I); ck.cmp(tag, pairs, H, pre=lt(p, inp("Np")), n=ck.n(400, 2000), boundary=False, maxcells=2000)
        if spl != 2: continue
        # particle velocity and position
        for musl in (False, True):
            f = {"pbc": FALSE, "change_particle_positions": FALSE, "use_musl": B(musl)}; part_sizes(prog, f)
            S = Sim(prog, f, plates=[], objects=[]); I = S.I
            fg = prog.one("positionUpdate", "Simulation")
            tag = f"{os.path.basename(fg['file'])}:{fg['line']} positionUpdate[{dim}D{' musl' if musl else ''}]"
            try:
                S.call("positionUpdate")
                get = lambda n: S.elem(("particles", n), p); old = lambda n: I.elem_in(S0(S, n), p)
                pairs = [(f"x({d})", get("x").e[d], old("x").e[d] + inp("dt") * old("pic").e[d]) for d in range(dim)]
                vw = old("v") if musl else blend(I, S, p)
                pairs += [(f"v({d})", get("v").e[d], vw.e[d]) for d in range(dim)]
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
            ck.use(I); ck.cmp(tag, pairs, H, pre=lt(p, inp("Np")), n=ck.n(400, 2000))
        f = transfer_inputs(dim); part_sizes(prog, f); f["use_musl"] = TRUE; f["pbc"] = FALSE
        S = Sim(prog, f, plates=[], objects=[]); I = S.I
        fg = prog.one("MUSL", "Simulation")
        tag = f"{os.path.basename(fg['file'])}:{fg['line']} MUSL particle velocity[{dim}D]"
        try:
            S.call("MUSL"); get = S.elem(("particles", "v"), p)
            vw = blend(I, S, p)
            pairs = [(f"v({d})", get.e[d], vw.e[d]) for d in range(dim)]
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
        ck.use(I); ck.cmp(tag, pairs, H, pre=lt(p, inp("Np")), n=ck.n(400, 2000))
