from ..plast import *
RULE = ("value numbers after the constitutive update of one particle, per plastic model x hardening law x elastic law with all flags free: the stored deformation has the trial's principal directions and the logarithmic strain that the accumulated plastic "
        "strains imply, the stored stress is the elastic law's stress of that deformation, the reported shear rate is the deviatoric increment over dt times the prefactor, and nothing else of the particles changes")
def qnew(R):
    """deviatoric stress measure of the stored deformation itself"""
    d = R.dim; F = R.new["F"]; h = [fn("log", sum_([R.U.at(i, k) * F.at(i, j) * R.V.at(j, k) for i in range(d) for j in range(d)])) for k in range(d)]
    t = sum_(h); return R.e * sqrt(sum_([(x - t / d) ** 2 for x in h]))
def configs():
    for m in MODELS:
        for h in HARD.get(m, [None]): yield m, h
def name(m, h): return m + (f"/{h}" if h else "")
def run(ck):
    ck.rule = RULE
    for dim in (2, 3): program(dim)
    ck.parallel(lambda it: one(ck, *it), [(dim, m, h, el) for dim in (2, 3) for m, h in configs() for el in ("Hencky", "NeoHookean")])
def one(ck, dim, m, h, el):
    prog = program(dim); fp = prog.one("plasticity", "Simulation"); qq = inp("QQ", 0, True); dom.RANGES[atom("in", "QQ").id] = (ZERO, inp("Np"))
    tag = f"{os.path.basename(fp['file'])}:{fp['line']} plasticity[{dim}D {name(m, h)} {el}]"
    try:
        R = Run(prog, m, el, h); I = R.I; S = R.S
        pc = pre(R)
        if m == "MCCMui": pc = And(pc, Or(eq(R.count, 0), lt(qnew(R) + inp("stress_tolerance"), R.qt)))
        D = [fn("exp", x) for x in R.hn] if m != "NoPlasticity" else R.s.e
        Fw = mmulm(mmulm(R.U, diag(D)), tr(R.V)); F = R.new["F"]
        pairs = [(f"stored deformation({i}) belongs to the recorded plastic strains", a, b) for i, (a, b) in enumerate(zip(F.e, Fw.e))]
        if el == "Hencky":
            hn = R.hn if m != "NoPlasticity" else R.h
            t = sum_(hn); tw = mmulm(mmulm(R.U, diag([inp("lambda") * t + 2 * inp("mu") * x for x in hn])), tr(R.U))
        else:
            b_ = mmulm(F, tr(F)); lg = inp("lambda") * fn("log", det(F))
            tw = Mat(dim, dim, [inp("mu") * (b_.at(i, j) - (ONE if i == j else ZERO)) + (lg if i == j else ZERO) for i in range(dim) for j in range(dim)])
        pairs += [(f"stress({i}) belongs to the stored deformation", a, b) for i, (a, b) in enumerate(zip(R.new["tau"].e, tw.e))]
        pairs.append(("reported plastic shear rate", P(R.new["delta_gamma"]), R.d * R.ddev / inp("dt")))
        if m == "NoPlasticity": pairs += [("no plastic deviatoric strain", R.ddev, ZERO), ("no plastic volumetric strain", R.dvol, ZERO)]
        if m in ("DPSoft", "DPVisc", "DPMui"):
            up = I.truth(S.get("use_pradhana")); o = P(R.old["eps_pl_vol_pradhana"])
            pairs.append(("volume correction accumulates the volumetric increment or is reset", ite(up, P(R.new["eps_pl_vol_pradhana"]), ZERO), ite(up, ite(eq(R.dvol, 0), ZERO, o + R.dvol), ZERO)))
        for n in ("F", "tau", "eps_pl_dev", "eps_pl_vol", "delta_gamma"):
            a, b = S.elem(("particles", n), qq), I.elem_in(ArrayV(targs(strip(I.field("Particles", n)["t"]))[0], ("in", "particles." + n), (), inp("Np")), qq)
            for i, (x, y) in enumerate(zip(getattr(a, "e", [a]), getattr(b, "e", [b]))): pairs.append((f"{n}({i}) of other particles", ite(eq(qq, inp("PP")), ZERO, P(x)), ite(eq(qq, inp("PP")), ZERO, P(y))))
        for n in ("x", "v", "pic", "flip", "Bmat"):
            a, b = S.elem(("particles", n), inp("PP")), I.elem_in(ArrayV(targs(strip(I.field("Particles", n)["t"]))[0], ("in", "particles." + n), (), inp("Np")), inp("PP"))
            pairs += [(f"{n}({i}) untouched", x, y) for i, (x, y) in enumerate(zip(a.e, b.e))]
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ck.use(I)
    ck.cmp(tag, pairs, PH.with_(QQ=ints(0, 4)), pre=pc, n=ck.n(250, 2500), boundary=False, probe_s=0, maxcells=ck.n(150, 1500), setup=setup(dim), rtol=1e-6, exact_s=3.0)
