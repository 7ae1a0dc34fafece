from ..model import *
from .c04 import Gin
RULE = ("value numbers of node velocity and recorded increment after the grid update equal the momentum balance followed by one application of the boundary treatment at the node's own index and position; "
        "the phases recorded along every path of a step occur exactly once each and in a dependency-respecting order")
PH = "updateDt remeshFixed remeshFixedInit remeshFixedCont PBCAddParticles resizeGrid P2G explicitEulerUpdate PBCDelParticles G2P MUSL deformationUpdate positionUpdate moveObjects".split()
# a must precede b whenever both run in the step (the later one reads what the earlier one writes, or overwrites what it reads)
ORDER = """updateDt<explicitEulerUpdate updateDt<MUSL updateDt<positionUpdate updateDt<G2P updateDt<moveObjects remesh<resizeGrid remesh<P2G remesh<positionUpdate PBCAddParticles<P2G resizeGrid<P2G P2G<explicitEulerUpdate
 P2G<PBCDelParticles PBCAddParticles<PBCDelParticles PBCDelParticles<G2P explicitEulerUpdate<G2P G2P<MUSL G2P<positionUpdate MUSL<deformationUpdate deformationUpdate<positionUpdate G2P<deformationUpdate
 explicitEulerUpdate<moveObjects""".split()
def bc_rec(dim):
    def h(I, e):
        i = P(I.ev(e["args"][0])); X = I.ev(e["args"][1]); l = I.lv(e["args"][2]); v = I.rd(l)
        I.wr(l, Mat(dim, 1, bc(dim, i, X, v)))
    return h
def bc(dim, i, X, v): return [Poly.of(atom("fn", f"bc#{d}", P(i), *X.e, *v.e)) for d in range(dim)]
def rec(name):
    def h(I, e):
        for a in e["args"]: I.ev(a)
        I.event(("phase", name)); return None
    return h
def phases(evs):
    """guarded phase list in program order"""
    out = []
    for c, e in evs:
        if e[0] == "phase": out.append((c, e[1], e[2]))
        elif e[0] == "loop":
            for c2, n, w in phases(e[3]): out.append((And(c, c2), n + " in a loop", w))
    return out
def run(ck):
    ck.rule = RULE
    TN = dict(TH); TN.update({n: ints(2, 14) for n in NN}); TN.update({f"I{d}": ints(0, 13) for d in range(3)})   # node numbers of one axis beyond the extent of another
    H = hints(**TN, gravity=real(-10, 10), grid=real(), **{"grid.mass": lambda u: np.where(u < .3, 0, u)})
    for dim in (2, 3):
        prog = program(dim); fe = prog.one("explicitEulerUpdate", "Simulation")
        f = transfer_inputs(dim); part_sizes(prog, f)
        S = Sim(prog, f, plates=[], objects=[], over={"Simulation::boundaryCollision": bc_rec(dim)}); I = S.I
        tag = f"{os.path.basename(fe['file'])}:{fe['line']} explicitEulerUpdate[{dim}D]"
        try:
            g0 = S.get("gravity")
            K = P(S.call("ind", [inp(f"I{d}") for d in range(dim)]))
            S.call("explicitEulerUpdate")
            v0, f0, fl0 = (I.elem_in(Gin(S, n), K) for n in ("v", "force", "flip")); m = P(I.elem_in(Gin(S, "mass"), K))
            X = Mat(dim, 1, [inp("grid." + XC[d]) + inp(f"I{d}") * inp("dx") for d in range(dim)])
            vn = Mat(dim, 1, [a + inp("dt") * (g - inp("particle_volume") * b / m) for a, b, g in zip(v0.e, f0.e, g0.e)])
            b = bc(dim, K, X, vn); has = lt(0, m)
            v = S.elem(("grid", "v"), K); fl = S.elem(("grid", "flip"), K)
            pairs = [(f"velocity({d})", v.e[d], ite(has, b[d], v0.e[d])) for d in range(dim)]
            pairs += [(f"increment({d})", fl.e[d], ite(has, b[d] - v0.e[d], fl0.e[d])) for d in range(dim)]
            pairs += [("mass unchanged", P(S.elem(("grid", "mass"), K)), m)]
            pairs += [(f"force unchanged({d})", S.elem(("grid", "force"), K).e[d], f0.e[d]) for d in range(dim)]
            pairs += [(f"gravity unchanged({d})", S.get("gravity").e[d], g0.e[d]) for d in range(dim)]
            pre = TRUE
            for d in range(dim): pre = And(pre, lt(inp(f"I{d}"), inp(NN[d])))
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}")
        else: ck.use(I); ck.cmp(tag, pairs, H, pre=pre, n=ck.n(2000, 8000))
    for dim in (2, 3):
        prog = program(dim); fa = prog.one("advanceStep", "Simulation")
        for pbc in (False, True):
            for musl in (False, True):
                for first in (False, True):
                    cfg = f"pbc={int(pbc)} musl={int(musl)} first step={int(first)}"
                    tag = f"{os.path.basename(fa['file'])}:{fa['line']} advanceStep[{dim}D {cfg}]"
                    over = {"Simulation::" + n: rec(n) for n in PH}
                    fx = {"pbc": B(pbc), "use_musl": B(musl)}
                    if first: fx["current_time_step"] = ZERO
                    S = Sim(prog, fx, plates=[], objects=[], over=over); I = S.I
                    if not first: dom.SIGNS[atom("in", "current_time_step").id] = 1; dom.INTEGRAL.add(atom("in", "current_time_step").id)
                    try: S.call("advanceStep")
                    except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
                    ck.use(I)
                    ph = [(c, n, w) for c, n, w in phases(I.S["EV"]) if c.op != "F"]
                    seq = [n for c, n, w in ph]
                    want = ["updateDt", "resizeGrid", "P2G", "explicitEulerUpdate", "G2P", "positionUpdate", "moveObjects"]
                    if pbc: want += ["PBCAddParticles", "PBCDelParticles"] + (["remeshFixed"] if first else [])
                    else: want += ["remeshFixedInit" if first else "remeshFixedCont"]
                    if musl: want += ["MUSL", "deformationUpdate"]
                    for c, n, w in ph:
                        if c.op != "T": ck.bad(tag, f"phase {n} at {w[0]}:{w[1]} only runs under {cond_str(c)}")
                    for n in set(want) | set(seq):
                        if seq.count(n) != want.count(n): ck.bad(tag, f"phase {n} runs {seq.count(n)} times instead of {want.count(n)}")
                        else: ck.ok(f"{tag}: {n} once")
                    pos_ = {("remesh" if n.startswith("remesh") else n): i for i, n in enumerate(seq)}
                    for o in ORDER:
                        a, b = o.split("<")
                        if a in pos_ and b in pos_:
                            if pos_[a] > pos_[b]: ck.bad(tag, f"phase {a} runs after {b} ({ph[pos_[a]][2]} / {ph[pos_[b]][2]})")
                            else: ck.ok()
