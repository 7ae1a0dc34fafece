from ..model import *
from . import c03
from .c04 import plast_rec
from .c05 import rec
RULE = ("kernel value numbers, as piecewise polynomials of the position within a cell, satisfy partition of unity, position reproduction, non-negativity, compact support on the visited stencil and exact differentiation; "
        "the transfers reproduce constant and linear velocity fields exactly and the affine scaling inverts the second moment")
def derived(prog, fixed=None):
    """Simulation object after the set-up part of simulate()"""
    over = {"Simulation::" + n: rec(n) for n in "advanceStep saveInfo saveParticleData saveGridData saveTiming".split()}
    f = {"is_initialized": TRUE, "end_frame": ZERO, "exit": ZERO, "elastic_model": Poly.c(prog.enum("ElasticModel", "Hencky"))}
    f.update(fixed or {})
    S = Sim(prog, f, plates=[], objects=[], over=over); S.call("simulate"); return S
def run(ck):
    ck.rule = RULE
    H = hints(**TH, PP=ints(0, 2), f=lambda u: u, u=real(-3, 3), A=real(-1, 1))
    p = inp("PP")
    for dim, spl in [(2, 2), (2, 3), (3, 2)] + ([(3, 3)] if ck.thorough else []):
        prog = program(dim, spl)
        fN = prog.one("N"); tag = f"{os.path.basename(fN['file'])}:{fN['line']} N[{dim}D spline {spl}]"
        S = Sim(prog, {}, plates=[], objects=[]); W = Weights(S)
        f = inp("f", 0); u = inp("u"); us = [f + 1 - o for o in range(4)]
        try:
            s0 = sum((W.n(x) for x in us), ZERO); s1 = sum((W.n(x) * (o - 1) for o, x in enumerate(us)), ZERO); s2 = sum((W.n(x) * x * x for x in us), ZERO)
            g0 = sum((W.dn(x) for x in us), ZERO); g1 = sum((W.dn(x) * (o - 1) for o, x in enumerate(us)), ZERO)
            ap = P(derived(prog).get("apicDinverse"))
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {S.I.loc}"); continue
        ck.use(S.I)
        ck.cmp(tag, [("sum of weights", s0, ONE), ("position reproduction", s1, f), ("affine scaling times second moment", s2 * inp("dx") ** 2 * ap, ONE),
                     ("sum of gradient weights", g0, ZERO), ("gradient of a linear field", g1, ONE)], H, pre=lt(f, 1), n=ck.n(400, 4000), boundary=True)
        ck.cmp(tag, [("non-negative", le(0, W.n(u)), TRUE), ("zero outside the stencil", ite(le(2, fabs(u)), W.n(u), ZERO), ZERO), ("gradient zero outside the stencil", ite(le(2, fabs(u)), W.dn(u), ZERO), ZERO),
                     ("symmetry", W.n(u), W.n(-u))], H, n=ck.n(600, 4000), boundary=True)
        ck.cmp(f"{os.path.basename(prog.one('dNdu')['file'])}:{prog.one('dNdu')['line']} dNdu[{dim}D spline {spl}]", [("derivative of N", W.dn(u), diff(W.n(u), atom("in", "u")))], H, n=ck.n(600, 4000), boundary=False)
        # constant and linear fields through the transfers
        A = [[inp(f"A{i}{j}") for j in range(dim)] for i in range(dim)]; c = [inp(f"c{i}") for i in range(dim)]
        h2 = hints(**TH, PP=ints(0, 2), **{f"A{i}{j}": real(-1, 1) for i in range(dim) for j in range(dim)}, **{f"c{i}": real(-1, 1) for i in range(dim)})
        def lin(X): return Mat(dim, 1, [sum((A[i][j] * X[j] for j in range(dim)), c[i]) for i in range(dim)])
        for fnm in ("G2P", "deformationUpdate"):
            fi = transfer_inputs(dim); part_sizes(prog, fi); fi["use_musl"] = B(fnm != "G2P"); fi["apicDinverse"] = ap
            fi["flip_ratio"] = Poly.c(-1) / 2
            fi[("elem", "grid.v")] = lambda K: lin(node_of(K, dim))
            fi[("elem", "grid.flip")] = lambda K: lin(node_of(K, dim))
            S = Sim(prog, fi, plates=[], objects=[], over={"Simulation::plasticity": plast_rec}); I = S.I
            fx = prog.one(fnm, "Simulation"); tg = f"{os.path.basename(fx['file'])}:{fx['line']} {fnm}[{dim}D spline {spl}]"
            try:
                S.call(fnm)
                X = I.elem_in(c03.S0(S, "x"), p); F0 = I.elem_in(c03.S0(S, "F"), p)
                pairs = []
                if fnm == "G2P":
                    pic, fl, Bm = (S.elem(("particles", n), p) for n in ("pic", "flip", "Bmat"))
                    w = lin(X.e)
                    pairs += [(f"linear field reproduced({d})", pic.e[d], w.e[d]) for d in range(dim)]
                    pairs += [(f"linear increment reproduced({d})", fl.e[d], w.e[d]) for d in range(dim)]
                    pairs += [(f"affine matrix times scaling({i},{j})", Bm.e[i * dim + j] * ap, A[i][j]) for i in range(dim) for j in range(dim)]
                Fn = S.elem(("particles", "F"), p)
                AM = Mat(dim, dim, [A[i][j] for i in range(dim) for j in range(dim)])
                Fw = Mat(dim, dim, [a + inp("dt") * b for a, b in zip(F0.e, mmulm(AM, F0).e)])
                pairs += [(f"velocity gradient of a linear field({d})", Fn.e[d], Fw.e[d]) for d in range(dim * dim)]
            except Unsup as ex: ck.unk(f"{tg}: {ex} at {I.loc}"); continue
            ck.use(I); ck.cmp(tg, pairs, h2, pre=lt(p, inp("Np")), n=ck.n(300, 2000), boundary=False, probe_s=0, maxcells=600, rtol=1e-6)
        # a node receives mass from every particle whose kernel reaches it
        for fnm in ("P2G", "MUSL"):
            fi = transfer_inputs(dim); part_sizes(prog, fi); fi["flip_ratio"] = ONE; fi["use_mibf"] = FALSE; fi["pbc"] = FALSE
            one = lambda k: Mat(dim, 1, [ONE] * dim)
            for n in ("v", "pic"): fi[("elem", "particles." + n)] = one
            fi[("elem", "particles.flip")] = lambda k: Mat(dim, 1, [ZERO] * dim)
            S = Sim(prog, fi, plates=[], objects=[]); I = S.I; W = Weights(S)
            fx = prog.one(fnm, "Simulation"); tg = f"{os.path.basename(fx['file'])}:{fx['line']} {fnm}[{dim}D spline {spl}]"
            try:
                K = c03.nodeK(S, dim); s = None
                if fnm == "P2G": S.call("resizeGrid")
                S.call(fnm); b = I.binder(inp("Np")); q = Poly.of(b)
                s = mksum(b, ZERO, inp("Np"), W.w([xi(q, d) - inp(f"I{d}") for d in range(dim)]))
                if fnm == "P2G": pairs = [("weights of all particles reaching a node", P(S.elem(("grid", "mass"), K)), inp("particle_mass") * s)]
                else:
                    m = Poly.of(atom("sel", "grid.mass", K))
                    pairs = [("weights of all particles reaching a node", S.elem(("grid", "v"), K).e[0], ite(lt(0, m), s * inp("particle_mass") / m, ZERO))]
            except Unsup as ex: ck.unk(f"{tg}: {ex} at {I.loc}"); continue
            ck.use(I); ck.cmp(tg, pairs, H, n=ck.n(800, 4000), boundary=False, probe_s=0, maxcells=2000)
def node_of(K, dim):
    """coordinates of the node with index K = (i Ny + j) Nz + k, from the index value number: coefficients of Ny, Nz"""
    K = P(K); dx = inp("dx"); org = [inp("grid." + c) for c in XC[:dim]]
    ny = atom("in", "Ny").id; nz = atom("in", "Nz").id
    parts = [{} for _ in range(dim)]
    for m, c in K.t.items():
        d = dict(m); a, b = d.pop(ny, 0), d.pop(nz, 0)
        if dim == 2: w = {1: 0, 0: 1}.get(a)
        else: w = {(1, 1): 0, (0, 1): 1, (0, 0): 2}.get((a, b))
        if w is None: raise Unsup(f"node index {short(K)}")
        mm = tuple(sorted(d.items())); parts[w][mm] = parts[w].get(mm, 0) + c
    return [org[d] + dx * Poly(parts[d]) for d in range(dim)]
