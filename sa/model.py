"""Abstract Simulation objects and shared entry points for the checks."""
from .core import *
from . import lib

POSITIVE = """dx one_over_dx one_over_dx_square dt rho E mu lambda K particle_mass particle_volume apicDinverse wave_speed M cfl cfl_elastic fps frame_dt
 q_max q_prefac d_prefac e_mu_prefac f_mu_prefac Lx Ly Lz min_dt grain_diameter rho_s I_ref mu_1 mu_2 visc_exponent stress_tolerance fac_Q final_time dt_max
 vmin_factor Nx Ny Nz Np nu p0""".split()
NONNEG = "friction xi beta visc_time q_cohesion q_min time gravity_time load_factor".split()
def signs():
    for n in POSITIVE: dom.SIGNS[atom("in", n).id] = 1
    for n in NONNEG: dom.SIGNS[atom("in", n).id] = 0
signs()
HINTS = {n: pos() for n in POSITIVE}
HINTS.update({n: pos() for n in NONNEG})
HINTS.update(friction=lambda u: np.where(u < 0.2, 0.0, 2 * (u - 0.2)), nu=lambda u: 0.05 + 0.4 * u, dim=lambda u: 0 * u + 2, NT=lambda u: np.floor(2 + 6 * u))
def hints(**kw):
    h = dict(HINTS); h.update(kw); return Hints(h)
_progs = {}
def program(dim, spline=2, vdb=False):
    k = (dim, spline, vdb)
    if k not in _progs:
        p = frontend.load(dim, spline, vdb)
        _progs[k] = p
    return _progs[k]

class Sim:
    """one abstract Simulation object in a fresh store"""
    def __init__(self, prog, fixed=None, plates=None, objects=None, over=None):
        self.prog = prog; self.fixed = dict(fixed or {})
        I = self.I = Interp(prog, inputs=self.fixed, over=over)
        self.dim = prog.cfg["dim"]
        self.root = I.new(Obj("Simulation", {}, ""), "sim"); self.lv = LV(self.root, ())
        self.plates = []; self.objects = []
        self.plate_roots = []; self.object_roots = []
        for i, spec in enumerate(plates or []):
            nm = f"plate{i}"
            r = I.new(Obj("ObjectPlate", {}, nm), nm); self.plate_roots.append(r)
            for k, v in spec.items(): I.inputs[f"{nm}.{k}"] = v
        for i, spec in enumerate(objects or []):
            nm = f"object{i}"
            r = I.new(Obj(spec.get("cls", "ObjectGeneral"), {}, nm), nm); self.object_roots.append(r)
            for k, v in spec.items():
                if k != "cls": I.inputs[f"{nm}.{k}"] = v
        if plates is not None: I.inputs["plates"] = CL([Ptr(r, ()) for r in self.plate_roots])
        if objects is not None: I.inputs["objects"] = CL([Ptr(r, ()) for r in self.object_roots])
    def f(self, *path):
        l = self.lv
        for p in path: l = l + ("f", p)
        return l
    def get(self, *path): return self.I.peek(self.f(*path))
    def elem(self, path, k):
        return self.I.aget(self.get(*path), P(k))
    def call(self, name, vals=(), cls="Simulation", this=None):
        f = self.prog.one(name, cls)
        return self.I.call_fn(f, [], this or self.lv, vals_=list(vals))
    def free(self, name, vals=()):
        return self.I.call_fn(self.prog.one(name), [], None, vals_=list(vals))
def vec(name, n): return Mat(n, 1, [Poly.of(atom("in", name, i)) for i in range(n)])
def inp(name, sign=None, integral=False):
    a = atom("in", name)
    if sign is not None: dom.SIGNS[a.id] = sign
    if integral: dom.INTEGRAL.add(a.id)
    return Poly.of(a)
def name_of(root): return root[2] if isinstance(root, tuple) and len(root) > 2 else str(root)
def obj_atoms(which, dim):
    """uninterpreted membership test and unit normal of a general object"""
    def h(I, e):
        this = I.objlv(e); X = I.ev(e["args"][0])
        return obj_inside(name_of(this.root), X) if which == "inside" else obj_normal(name_of(this.root), X)
    return h
def obj_inside(n, X): return bvar("inside@" + n, *X.e)
def obj_normal(n, X):
    m = [Poly.of(atom("fn", f"normal@{n}#{i}", *X.e)) for i in range(len(X.e))]
    s = ZERO
    for x in m: s = s + x * x
    k = sqrt(s)
    return Mat(len(m), 1, [x / k for x in m])

# ------------------------------------------------------------ transfers
AX = ["x", "y", "z"]; NN = ["Nx", "Ny", "Nz"]; XC = ["xc", "yc", "zc"]
PARR = "x v pic flip Bmat F tau delta_gamma viscosity muI eps_pl_dev eps_pl_vol eps_pl_vol_abs eps_pl_vol_mcc eps_pl_vol_pradhana".split()
def xi(k, d): return Poly.of(atom("sel", "xi", P(k), (d,)))
def transfer_inputs(dim):
    """change of variables: particle position = origin + dx * xi, node k at origin + k dx (C12)"""
    for n in NN: dom.INTEGRAL.add(atom("in", n).id)
    dom.INTEGRAL.add(atom("in", "Np").id)
    dx = inp("dx"); org = [inp("grid." + c) for c in XC[:dim]]
    nodes = ONE
    for n in NN[:dim]: nodes = nodes * inp(n)
    f = {"one_over_dx": ONE / dx, "one_over_dx_square": ONE / dx ** 2, "grid_nodes": nodes}
    for d in range(dim):
        f[("elem", "grid." + AX[d])] = (lambda d: lambda k: org[d] + k * dx)(d)
        f[f"grid.{AX[d]}.size"] = inp(NN[d])
    f[("elem", "particles.x")] = lambda k: Mat(dim, 1, [org[d] + dx * xi(k, d) for d in range(dim)])
    for a in ("v", "flip", "mass", "force", "friction"): f[f"grid.{a}.size"] = nodes
    return f
def part_sizes(prog, f):
    for x in prog.records["Particles"]["fields"]: f[f"particles.{x['n']}.size"] = inp("Np")
TH = dict(xi=real(1, 5), Nx=ints(9, 14), Ny=ints(9, 14), Nz=ints(9, 14), I0=ints(0, 8), I1=ints(0, 8), I2=ints(0, 8), Np=ints(3, 9), flip_ratio=real(-2, 1), dx=pos(0.3, 2))
for _i in range(3): dom.INTEGRAL.add(atom("in", f"I{_i}").id); dom.SIGNS[atom("in", f"I{_i}").id] = 0
class Weights:
    def __init__(self, S):
        self.S = S; self.m = {}
    def n(self, u):
        k = ("N", u)
        if k not in self.m: self.m[k] = P(self.S.free("N", [u]))
        return self.m[k]
    def dn(self, u):
        k = ("d", u)
        if k not in self.m: self.m[k] = P(self.S.free("dNdu", [u]))
        return self.m[k]
    def w(self, us):
        r = ONE
        for u in us: r = r * self.n(u)
        return r
    def grad(self, us):
        dx = inp("dx"); out = []
        for d in range(len(us)):
            r = ONE / dx
            for e, u in enumerate(us): r = r * (self.dn(u) if e == d else self.n(u))
            out.append(r)
        return Mat(len(us), 1, out)
def stencil(dim, p):
    """nodes floor(xi)-1 .. floor(xi)+2 per axis: covers the support of both kernels (C02)"""
    import itertools
    base = [fn("floor", xi(p, d)) - 1 for d in range(dim)]
    for o in itertools.product(range(4), repeat=dim): yield [base[d] + o[d] for d in range(dim)]
def msum(b, n, v):
    return vmap(v, lambda p: mksum(b, ZERO, n, p), lambda c: c)
