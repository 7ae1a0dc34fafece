from ..model import *
from . import c06
RULE = ("value numbers of the velocity leaving boundaryCollision for terrains with an arbitrary membership test and arbitrary unit normal, for every boundary condition, friction source and "
        "sequences of objects followed by plates, equal the specification in every guard cell")
def spec(S, X, v, k, bc, mibf):
    I = S.I; nm = name_of(S.object_roots[k]); d = S.dim
    ins = obj_inside(nm, X); n = obj_normal(nm, X)
    fr = S.elem(("grid", "friction"), inp("index")) if mibf else I.peek(LV(S.object_roots[k], ()) + ("f", "friction"))
    dot = ZERO
    for a, b in zip(v.e, n.e): dot = dot + a * b
    vt = [a - dot * b for a, b in zip(v.e, n.e)]
    t2 = ZERO
    for a in vt: t2 = t2 + a * a
    t = sqrt(t2); red = -dot * fr
    slid = [ite(eq(fr, 0), a, ite(lt(red, t), a * (t - red) / t, ZERO)) for a in vt]
    if bc == "NoSlip": new = [ZERO] * d
    elif bc == "SlipFree": new = [ite(lt(dot, 0), s, a) for s, a in zip(slid, v.e)]
    else: new = [ite(lt(dot, 0), s, a) for s, a in zip(slid, vt)]
    return Mat(d, 1, [ite(ins, a, b) for a, b in zip(new, v.e)])
def run(ck):
    ck.rule = RULE
    for dim in (2, 3):
        prog = program(dim)
        bcs = [e["n"] for e in prog.enums["BC"]]
        f = prog.one("boundaryCollision", "Simulation")
        combos = [([b], [], m) for b in bcs for m in (False, True)]
        combos += [([a, b], [], False) for a in bcs for b in bcs]
        combos += [(["SlipFree"], [("bottom", "SlipStick")], False), (["SlipStick"], [("left", "SlipFree")], False), (["NoSlip"], [("top", "SlipFree")], True)]
        for obs, pls, mibf in combos:
            over = {"ObjectGeneral::inside": obj_atoms("inside", dim), "ObjectGeneral::normal": obj_atoms("normal", dim)}
            S = Sim(prog, {"use_mibf": B(mibf)}, plates=[dict(plate_type=Poly.c(prog.enum("PlateType", s)), bc=Poly.c(prog.enum("BC", b))) for s, b in pls],
                    objects=[dict(bc=Poly.c(prog.enum("BC", b))) for b in obs], over=over)
            I = S.I; X = vec("X", dim); v0 = vec("v", dim); r = I.new(v0, "vi")
            fl = f"{os.path.basename(f['file'])}:{f['line']} boundaryCollision[{dim}D objects {'+'.join(obs)}{' plates ' + str(pls) if pls else ''}{' mibf' if mibf else ''}]"
            try:
                S.call("boundaryCollision", [inp("index", 0, True), X, LV(r, ())])
                got = I.S[r]
                want = v0; X1 = Mat(dim, 1, [a + inp("dt") * b for a, b in zip(X.e, v0.e)])
                for k, b in enumerate(obs): want = spec(S, X1, want, k, b, mibf)
                for k, (s, b) in enumerate(pls): want = c06.spec(S, X1, want, k, s, b, mibf)
            except Unsup as ex: ck.unk(f"{fl}: {ex} at {I.loc}"); continue
            ck.use(I)
            ck.mat(fl, "velocity", got, want, c06.H, n=ck.n(400, 2000), rtol=1e-6)
