from ..model import *
RULE = ("value numbers of the velocity leaving boundaryCollision, for every plate side x boundary condition x use of material-induced friction and up to two plates in sequence, "
        "equal the slip/stick/no-slip specification in every guard cell")
SIDES = {"top": (1, 1), "bottom": (1, -1), "left": (0, -1), "right": (0, 1), "front": (2, 1), "back": (2, -1)}
VEL = ["vx_object", "vy_object", "vz_object"]
def spec(S, X, v, k, side, bc, mibf):
    """velocity after plate k (specification)"""
    I = S.I; d = S.dim; prog = S.prog
    pl = LV(S.plate_roots[k], ())
    ins = I.truth(S.call("inside", [X], "ObjectPlate", pl))
    vo = [I.peek(pl + ("f", VEL[i])) for i in range(d)]
    fr = S.elem(("grid", "friction"), inp("index")) if mibf else I.peek(pl + ("f", "friction"))
    ax, out = SIDES[side]
    rel = [v.e[i] - vo[i] for i in range(d)]
    tang = [i for i in range(d) if i != ax]
    new = list(rel)
    if bc == "NoSlip": new = [ZERO] * d
    else:
        vt2 = ZERO
        for i in tang: vt2 = vt2 + rel[i] * rel[i]
        vt = sqrt(vt2); red = fr * fabs(rel[ax])
        sl = list(rel); sl[ax] = ZERO
        stick = le(vt, red)
        for i in tang: sl[i] = ite(eq(fr, 0), rel[i], ite(stick, ZERO, rel[i] * (vt - red) / vt))
        if bc == "SlipStick": new = sl
        else:
            # a plate blocks the half-space on its side: moving into it means towards `out`
            into = lt(0, rel[ax] * out)
            new = [ite(into, sl[i], rel[i]) for i in range(d)]
    return Mat(d, 1, [ite(ins, new[i] + vo[i], v.e[i]) for i in range(d)])
def run(ck):
    ck.rule = RULE
    for dim in (2, 3):
        prog = program(dim)
        pts = [e["n"] for e in prog.enums["PlateType"]]
        bcs = [e["n"] for e in prog.enums["BC"]]
        sides = [s for s in pts if SIDES.get(s, (9,))[0] < dim]
        if len(sides) != 2 * dim: raise Anchor(f"plate sides {pts}")
        f = prog.one("boundaryCollision", "Simulation")
        combos = [([(s, b)], m) for s in sides for b in bcs for m in (False, True)]
        combos += [([], False)]
        combos += [([(sides[0], "SlipFree"), (sides[2], "SlipStick")], False), ([(sides[2], "SlipStick"), (sides[1], "SlipFree")], True), ([(sides[3], "NoSlip"), (sides[0], "SlipFree")], False)]
        for pls, mibf in combos:
            fixed = {"use_mibf": B(mibf)}
            S = Sim(prog, fixed, plates=[dict(plate_type=Poly.c(prog.enum("PlateType", s)), bc=Poly.c(prog.enum("BC", b))) for s, b in pls], objects=[])
            I = S.I
            X = vec("X", dim); v0 = vec("v", dim)
            r = I.new(v0, "vi")
            name = f"boundaryCollision[{dim}D {'+'.join(s + ':' + b for s, b in pls) or 'no plates'}{' mibf' if mibf else ''}]"
            fl = f"{os.path.basename(f['file'])}:{f['line']} {name}"
            try:
                S.call("boundaryCollision", [inp("index", 0, True), X, LV(r, ())])
                got = I.S[r]
                want = v0; X1 = Mat(dim, 1, [a + inp("dt") * b for a, b in zip(X.e, v0.e)])
                for k, (s, b) in enumerate(pls): want = spec(S, X1, want, k, s, b, mibf)
            except Unsup as ex: ck.unk(f"{fl}: {ex} at {I.loc}"); continue
            ck.use(I)
            ck.mat(fl, "velocity", got, want, H, n=ck.n(400, 2000))
H = hints(pos_upper=real(0, 3), pos_lower=real(-3, 0), pos_object=real(-1, 1), vx_object=real(-.5, .5), dt=pos(0.05, 0.5))
