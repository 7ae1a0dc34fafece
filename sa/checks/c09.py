from ..model import *
from .c06 import SIDES, VEL
RULE = "value numbers of the membership test, of the constructed plate and of its state after a move equal the half-space and kinematics specification for every side, in every guard cell including its boundaries"
def run(ck):
    ck.rule = RULE
    H = hints(pos_upper=real(0, 3), pos_lower=real(-3, 0), pos_object=real(-1, 1), vx_object=real(-.5, .5), dt=pos(0.05, 0.5), X=real(-4, 4), time=pos(0.01, 3), load_factor=pos(0.01, 3), frame_dt=pos(.2, 2))
    LIM = {0: 1, 1: 0, 2: None}                       # axis of the limits for plates normal to x, y, z
    for dim in (2, 3):
        prog = program(dim)
        pts = [e["n"] for e in prog.enums["PlateType"]]; sides = [s for s in pts if SIDES.get(s, (9,))[0] < dim]
        if len(sides) != 2 * dim: raise Anchor(f"plate sides {pts}")
        fi = prog.one("inside", "ObjectPlate"); fm = prog.one("moveObjects", "Simulation")
        for s in sides:
            ax, out = SIDES[s]; la = LIM[ax]
            S = Sim(prog, {}, plates=[dict(plate_type=Poly.c(prog.enum("PlateType", s))), dict(plate_type=Poly.c(prog.enum("PlateType", sides[0])))], objects=[]); I = S.I
            pl = LV(S.plate_roots[0], ()); g = lambda n, r=0: P(I.peek(LV(S.plate_roots[r], ()) + ("f", n)))
            X = vec("X", dim)
            tag = f"{os.path.basename(fi['file'])}:{fi['line']} ObjectPlate::inside[{dim}D {s}]"
            try:
                got = I.truth(S.call("inside", [X], "ObjectPlate", pl))
                want = le(0, (X.e[ax] - g("pos_object")) * out)
                if la is not None: want = And(want, lt(g("pos_lower"), X.e[la]), lt(X.e[la], g("pos_upper")))
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}")
            else: ck.use(I); ck.cmp(tag, [("contains", got, want)], H, n=ck.n(500, 3000), boundary=True)
            tag = f"{os.path.basename(fm['file'])}:{fm['line']} moveObjects[{dim}D {s}]"
            try:
                old = {(n, r): g(n, r) for r in (0, 1) for n in ["pos_object", "pos_lower", "pos_upper", "vmin_factor", "load_factor"] + VEL[:dim] + [v + "_original" for v in VEL[:dim]]}
                S.call("moveObjects")
                pairs = []
                for r, (a, l) in ((0, (ax, la)), (1, (SIDES[sides[0]][0], LIM[SIDES[sides[0]][0]]))):
                    fac = ite(lt(inp("time"), old["load_factor", r] * inp("frame_dt")), ONE / old["vmin_factor", r], ONE)
                    v = [old[n + "_original", r] * fac for n in VEL[:dim]]
                    pairs += [(f"plate {r} {VEL[d]}", g(VEL[d], r), v[d]) for d in range(dim)]
                    pairs += [(f"plate {r} {VEL[d]}_original kept", g(VEL[d] + "_original", r), old[VEL[d] + "_original", r]) for d in range(dim)]
                    pairs.append((f"plate {r} position", g("pos_object", r), old["pos_object", r] + inp("dt") * v[a]))
                    if l is not None:
                        for n in ("pos_lower", "pos_upper"): pairs.append((f"plate {r} {n}", g(n, r), old[n, r] + inp("dt") * v[l]))
            except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}")
            else: ck.use(I); ck.cmp(tag, pairs, H, n=ck.n(500, 3000), boundary=True)
        # construction
        ctors = [f for f in prog.by_name("ObjectPlate") if f.get("cls") == "ObjectPlate" and len(f["params"]) > 5]
        for f in ctors:
            S = Sim(prog, {}, plates=[], objects=[]); I = S.I
            tag = f"{os.path.basename(f['file'])}:{f['line']} ObjectPlate constructor[{dim}D]"
            names = [p["n"] for p in f["params"]]
            try:
                r = I.new(I.default("ObjectPlate", False, "pl"), "pl")
                vals_ = [Str(("nm",)) if "string" in p["t"] else Poly.of(atom("in", "arg_" + p["n"].removesuffix("_in"))) for p in f["params"]]
                I.depth += 1
                from ..interp import Frame
                I.run_body(f["body"], Frame(LV(r, ()), None, f["q"]), f["params"], [], vals_, "", f["file"], f.get("inits")); I.depth -= 1
                pairs = []
                for n in [x for x in (n.removesuffix("_in") for n in names) if x != "name"]:
                    a = Poly.of(atom("in", "arg_" + n))
                    pairs.append((n, P(I.peek(LV(r, ()) + ("f", n))), a))
                    if n in VEL: pairs.append((n + "_original", P(I.peek(LV(r, ()) + ("f", n + "_original"))), a))
                dflt = {p["n"].removesuffix("_in"): p.get("init") for p in f["params"]}
                for n, w in (("friction", 0), ("vx_object", 0), ("vy_object", 0), ("vmin_factor", 1), ("load_factor", 0), ("pos_lower", -10**15), ("pos_upper", 10**15)):
                    if dflt.get(n) is not None: pairs.append((f"default {n}", P(I.ev(dflt[n])), Poly.c(w)))
            except (Unsup, KeyError) as ex: ck.unk(f"{tag}: {ex} at {I.loc}")
            else: ck.use(I); ck.cmp(tag, pairs, H, n=20)
