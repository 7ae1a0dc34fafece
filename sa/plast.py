"""Abstract runs of the constitutive update of one particle: trial state, stored state, increments."""
from .model import *
MODELS = "NoPlasticity VM DP DPSoft MCC VMVisc DPVisc MCCVisc DPMui MCCMui".split()
HARD = {"MCC": "NoHard ExpoExpl SinhExpl ExpoImpl SinhImpl".split(), "MCCVisc": "NoHard ExpoExpl SinhExpl ExpoImpl SinhImpl".split(), "MCCMui": "ExpoExpl SinhExpl ExpoImpl SinhImpl".split()}
def UV(which, dim): return Mat(dim, dim, [Poly.of(atom("in", f"svd{which}", i, j)) for i in range(dim) for j in range(dim)])
def SV(dim):
    out = []
    for i in range(dim):
        a = atom("in", "sv", i); dom.SIGNS[a.id] = 1; out.append(Poly.of(a))
    return Mat(dim, 1, out)
def diag(v): n = len(v); return Mat(n, n, [v[i] if i == j else ZERO for i in range(n) for j in range(n)])
def tr(m): return Mat(m.c, m.r, [m.at(j, i) for i in range(m.c) for j in range(m.r)])
def setup(dim):
    """rotation matrices for the principal directions in every valuation"""
    def f(env):
        for w in "UV":
            r = np.random.default_rng((zlib_(w), env.seed)).uniform(-3, 3, (3, env.n)); c, s = np.cos(r), np.sin(r)
            if dim == 2: M = [[c[0], -s[0]], [s[0], c[0]]]
            else:
                Z = [[c[0], -s[0], 0], [s[0], c[0], 0], [0, 0, 1]]; X = [[1, 0, 0], [0, c[1], -s[1]], [0, s[1], c[1]]]; Y = [[c[2], 0, s[2]], [0, 1, 0], [-s[2], 0, c[2]]]
                mm = lambda a, b: [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
                M = mm(mm(Z, X), Y)
            for i in range(dim):
                for j in range(dim): env.over[atom("in", f"svd{w}", i, j).id] = M[i][j] + np.zeros(env.n)
    return f
def zlib_(w): return ord(w)
PH = hints(sv=pos(.45, 2.2), K=pos(.3, 3), mu=pos(.3, 3), e_mu_prefac=pos(.3, 3), p_min=real(-2, 0), xi=lambda u: np.where(u < .3, 0, u), eps_pl_dev=real(0, 1), eps_pl_vol=real(-.5, .5), eps_pl_vol_pradhana=real(-.4, .4),
           stress_tolerance=pos(1e-3, 1e-2), q_cohesion=lambda u: np.where(u < .3, 0, u), q_max=pos(.05, 1.5), q_min=pos(.01, .5), p0=pos(.2, 3), beta=lambda u: np.where(u < .3, 0, u), M=pos(.2, 1.5), mu_1=pos(.2, .8), mu_2=pos(.8, 1.6),
           visc_exponent=lambda u: np.where(u < .4, 1, .5 + u), visc_time=pos(.01, 3), dt=pos(.1, 2), particles=real(), PP=ints(0, 3), Np=ints(4, 9), plastic_count0=ints(0, 5))
class Run:
    """one abstract call of plasticity() for particle PP with trial deformation U diag(s) V^T"""
    def __init__(self, prog, model, elastic, hard=None, fixed=None, over=None, hook=None):
        dim = self.dim = prog.cfg["dim"]
        self.U, self.V, self.s = UV("U", dim), UV("V", dim), SV(dim)
        Ft = self.Ft = mmulm(mmulm(self.U, diag(self.s.e)), tr(self.V))
        q = inp("q_prefac", 1); mu = inp("mu", 1)
        f = {"plastic_model": Poly.c(prog.enum("PlasticModel", model)), "elastic_model": Poly.c(prog.enum("ElasticModel", elastic)),
             "d_prefac": ONE / q, "e_mu_prefac": 2 * q * mu, "f_mu_prefac": 2 * q * q * mu, "K": inp("lambda") + 2 * mu / dim, "exit": ZERO}
        if hard: f["hardening_law"] = Poly.c(prog.enum("HardeningLaw", hard))
        part_sizes(prog, f); f[("elem", "particles.F")] = lambda k: Ft; f[("elem", "particles.delta_gamma")] = lambda k: ZERO
        f.update(fixed or {})
        S = self.S = Sim(prog, f, plates=[], objects=[], over=over); I = self.I = S.I; I.loop_hook = hook
        old = I.svd
        I.svd = lambda M: SVDv(self.U, self.V, self.s) if M == Ft else old(M)
        p = inp("PP", 0, True); dom.RANGES[atom("in", "PP").id] = (ZERO, inp("Np"))
        names = "F tau delta_gamma eps_pl_dev eps_pl_vol eps_pl_vol_pradhana muI viscosity".split()
        self.old = {n: S.elem(("particles", n), p) for n in names}
        c = I.new(inp("plastic_count0", 0, True), "plastic_count"); Fr = I.new(Ft, "Fe_trial")
        S.call("plasticity", [p, LV(c, ()), LV(Fr, ())])
        self.new = {n: S.elem(("particles", n), p) for n in names}
        self.count = P(I.S[c]) - inp("plastic_count0")
        self.others = None
        # trial logarithmic strain
        self.h = [fn("log", x) for x in self.s.e]
        self.tr = sum_(self.h); self.dev = [x - self.tr / dim for x in self.h]; self.n = sqrt(sum_([x * x for x in self.dev]))
        self.K = f["K"]; self.e = f["e_mu_prefac"]; self.fm = f["f_mu_prefac"]; self.d = f["d_prefac"]
        self.ddev = P(self.new["eps_pl_dev"]) - P(self.old["eps_pl_dev"]); self.dvol = P(self.new["eps_pl_vol"]) - P(self.old["eps_pl_vol"])
        self.pt = -self.K * self.tr; self.qt = self.e * self.n
        self.hn = [(self.tr - self.dvol) / dim + x * (self.n - self.ddev) / self.n for x in self.dev]   # strain implied by the records
        self.p1 = -self.K * (self.tr - self.dvol); self.q1 = self.e * (self.n - self.ddev)
def sum_(xs):
    r = ZERO
    for x in xs: r = r + x
    return r
def det(m):
    if m.r == 2: return m.at(0, 0) * m.at(1, 1) - m.at(0, 1) * m.at(1, 0)
    return sum_([m.at(0, i) * (m.at(1, (i + 1) % 3) * m.at(2, (i + 2) % 3) - m.at(1, (i + 2) % 3) * m.at(2, (i + 1) % 3)) for i in range(3)])
# strains within the range where the logarithm's guard is inactive
def pre(R):
    c = lt(0, R.n)
    for x in R.s.e: c = And(c, lt(Poly.c(dom.Fr(1, 1000)), x))
    return c
