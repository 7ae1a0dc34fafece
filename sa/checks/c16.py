from ..plast import *
from .c02 import derived
from .c14 import configs, name
RULE = ("value number of the stored stress after the constitutive update equals the selected elastic law applied to the stored deformation, per elastic law x plastic model x hardening law with all flags free; "
        "value numbers of the elastic constants after the set-up of a run equal the standard relations of E, nu, rho and the dimension")
def run(ck):
    ck.rule = RULE
    for dim in (2, 3): program(dim)
    ck.parallel(lambda it: one(ck, *it), [(dim, m, h, el) for dim in (2, 3) for m, h in configs() for el in ("Hencky", "NeoHookean")] + [(dim, None, m, None) for dim in (2, 3) for m in MODELS])
def one(ck, dim, m, h, el):
    prog = program(dim)
    if m is None: return constants(ck, prog, dim, h)
    fp = prog.one("plasticity", "Simulation"); tag = f"{os.path.basename(fp['file'])}:{fp['line']} plasticity[{dim}D {name(m, h)} {el}]"
    try:
        R = Run(prog, m, el, h); I = R.I; F = R.new["F"]; la, mu = inp("lambda"), inp("mu")
        pc = And(pre(R), lt(fabs(R.n - R.ddev), 6), lt(fabs(R.tr - R.dvol), 6)) if m != "NoPlasticity" else pre(R)
        if el == "Hencky":
            hn = [fn("log", sum_([R.U.at(i, k) * F.at(i, j) * R.V.at(j, k) for i in range(dim) for j in range(dim)])) for k in range(dim)]
            t = sum_(hn); tw = mmulm(mmulm(R.U, diag([la * t + 2 * mu * x for x in hn])), tr(R.U))
        else:
            b_ = mmulm(F, tr(F)); lg = la * fn("log", det(F))
            tw = Mat(dim, dim, [mu * (b_.at(i, j) - (ONE if i == j else ZERO)) + (lg if i == j else ZERO) for i in range(dim) for j in range(dim)])
        pairs = [(f"stress({i // dim},{i % dim})", a, b) for i, (a, b) in enumerate(zip(R.new["tau"].e, tw.e))]
        if m == "NoPlasticity": pairs += [(f"elastic deformation({i}) kept", a, b) for i, (a, b) in enumerate(zip(F.e, R.Ft.e))]
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ck.use(I); ck.cmp(tag, pairs, PH, pre=pc, n=ck.n(250, 2500), boundary=False, probe_s=0, maxcells=ck.n(150, 1500), setup=setup(dim), rtol=1e-5, atol=1e-6, exact_s=3.0)
def constants(ck, prog, dim, m):
    fs = prog.one("simulate", "Simulation"); tag = f"{os.path.basename(fs['file'])}:{fs['line']} simulate[{dim}D {m}]"
    E, nu, rho, q = (inp(x) for x in ("E", "nu", "rho", "q_prefac"))
    for flags in ({"pbc": B(a), "use_musl": B(b)} for a in (False, True) for b in (False, True)):
        try:
            S = derived(prog, {"plastic_model": Poly.c(prog.enum("PlasticModel", m)), **flags})
            la, mu = nu * E / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
            want = dict(mu=mu, K=la + 2 * mu / dim, wave_speed=sqrt(E / rho), d_prefac=1 / q, e_mu_prefac=2 * q * mu, f_mu_prefac=2 * q * q * mu, fac_Q=inp("I_ref") / (inp("grain_diameter") * sqrt(inp("rho_s"))),
                        one_over_dx=1 / inp("dx"), one_over_dx_square=1 / inp("dx") ** 2, E=E, nu=nu, rho=rho, q_prefac=q)
            want["lambda"] = la
            pairs = [(k, P(S.get(k)), v) for k, v in want.items()]
        except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
        ck.use(S.I); ck.cmp(tag, pairs, hints(), n=ck.n(200, 2000))
