from ..model import *
from .c03 import S0
from .c05 import PH, rec
RULE = ("value numbers of node coordinates, node counts, origin and node array sizes after the meshing phases of the first and of any later step: uniform spacing, matching counts, and first/last stencil node of the extreme particles within the grid, "
        "in every guard cell, for generic and for cell-aligned positions")
KEEP = {"remeshFixed", "remeshFixedInit", "remeshFixedCont", "resizeGrid"}
def gridpairs(S, lo, hi, dim):
    """obligations on the current grid; lo/hi: extreme particle coordinates per axis"""
    I = S.I; dx = inp("dx"); pairs = []; pre = TRUE; nodes = ONE
    for d in range(dim):
        A_ = S.get("grid", AX[d]); n = P(A_.size); org = P(S.get("grid", XC[d])); k = inp(f"I{d}")
        nd = P(S.elem(("grid", AX[d]), k)); nodes = nodes * n
        pairs += [(f"node coordinates along {AX[d]}", ite(lt(k, n), nd - org, ZERO), ite(lt(k, n), k * dx, ZERO)),
                  (f"node count along {AX[d]}", P(S.get(NN[d])), n)]
        pairs += [(f"first stencil node along {AX[d]} exists", le(1, fn("floor", (lo[d] - org) / dx)), TRUE), (f"last stencil node along {AX[d]} exists", le(fn("floor", (hi[d] - org) / dx) + 3, n), TRUE)]
        pre = And(pre, le(lo[d], hi[d]))
    pairs.append(("total node count", P(S.get("grid_nodes")), nodes))
    for a in ("v", "flip", "mass", "force"): pairs.append((f"size of grid.{a}", P(S.get("grid", a).size), nodes))
    pairs.append(("size of grid.friction with material-induced friction", ite(I.truth(S.get("use_mibf")), P(S.get("grid", "friction").size), ZERO), ite(I.truth(S.get("use_mibf")), nodes, ZERO)))
    return pairs, pre
def extremes(S, name, dim):
    I = S.I; lo, hi = [], []
    fd = I.field("Particles", "x")
    A_ = ArrayV(targs(strip(fd["t"]))[0], ("in", name), (), inp("Np"))
    for d in range(dim):
        b = I.binder(inp("Np")); key = subst(I.elem_in(A_, Poly.of(b)).e[d], {b.id: Poly.of(atom("var", "•"))})
        lo.append(I.elem_in(A_, I.argidx("min", key, inp("Np"))).e[d]); hi.append(I.elem_in(A_, I.argidx("max", key, inp("Np"))).e[d])
    return A_, lo, hi
def run(ck):
    ck.rule = RULE
    q = lambda lo, hi: (lambda u: np.floor((lo + (hi - lo) * u) * 4) / 4)
    HG = hints(dx=pos(.2, 1.5), I0=ints(0, 8), I1=ints(0, 8), I2=ints(0, 8), Np=ints(3, 9), particles2=real(), grid_reference_point=real(-6, 6), Lx=pos(2, 9), Ly=pos(2, 9), Lz=pos(2, 9), **{"particles.x": real(-4, 4), "particles2.x": real(-8, 8)})
    HA = hints(dx=lambda u: np.where(u < .5, .25, .5), I0=ints(0, 8), I1=ints(0, 8), I2=ints(0, 8), Np=ints(3, 9), grid_reference_point=q(-6, 6), Lx=q(2, 9), Ly=q(2, 9), Lz=q(2, 9), **{"particles.x": q(-4, 4), "particles2.x": q(-8, 8)})
    for dim in (2, 3):
        prog = program(dim); fr = prog.one("advanceStep", "Simulation")
        over = {"Simulation::" + n: rec(n) for n in PH if n not in KEEP}
        for ref in (False, True):
            f = {"pbc": FALSE, "current_time_step": ZERO}; part_sizes(prog, f)
            if not ref:
                for d in range(dim): f[f"grid_reference_point.{d}"] = Poly.c(2 * 10**10)
                f["grid_reference_point"] = Mat(dim, 1, [Poly.c(2 * 10**10)] * dim)
            S = Sim(prog, f, plates=[], objects=[], over=over); I = S.I
            tag = f"{os.path.basename(fr['file'])}:{fr['line']} advanceStep: first mesh[{dim}D{' reference point' if ref else ''}]"
            try:
                S.call("advanceStep"); _, lo, hi = extremes(S, "particles.x", dim)
                pairs, pre = gridpairs(S, lo, hi, dim)
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
            ck.use(I)
            for H in (HG, HA): ck.cmp(tag, pairs, H, pre=pre, n=ck.n(500, 3000), boundary=False, maxcells=800)
            tag = f"{os.path.basename(fr['file'])}:{fr['line']} advanceStep: later mesh[{dim}D{' reference point' if ref else ''}]"
            try:
                A2, lo2, hi2 = extremes(S, "particles2.x", dim)
                I.wr(S.f("particles", "x"), A2); I.wr(S.f("current_time_step"), ONE)
                S.call("advanceStep"); pairs, pre2 = gridpairs(S, lo2, hi2, dim)
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
            for H in (HG, HA): ck.cmp(tag, pairs, H, pre=And(pre, pre2), n=ck.n(800, 4000), boundary=False, maxcells=1500)
        # periodic domain: particles in the period plus the images next to it
        sf = []
        def add(I, e): sf.append(P(I.ev(e["args"][0])))
        f = {"pbc": TRUE, "current_time_step": ZERO}; part_sizes(prog, f)
        S = Sim(prog, f, plates=[], objects=[], over=dict(over, **{"Simulation::PBCAddParticles": add})); I = S.I
        tag = f"{os.path.basename(fr['file'])}:{fr['line']} advanceStep: periodic mesh[{dim}D]"
        try:
            S.call("advanceStep")
            if len(sf) != 1: raise Unsup("images are not added once")
            L = [inp("Lx"), inp("Ly"), inp("Lz")][:dim]; dx = inp("dx")
            lo = [ZERO - sf[0] * dx * (d == 0) for d in range(dim)]; hi = [L[d] + (sf[0] - Poly.c(dom.Fr(1, 1024))) * dx * (d == 0) for d in range(dim)]
            pairs, pre = gridpairs(S, lo, hi, dim)
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
        ck.use(I)
        for H in (HA, HG): ck.cmp(tag, pairs, H, pre=pre, n=ck.n(500, 3000), boundary=False)
