from ..plast import *
from .c11 import simulate, events, after, count, fld, SAVES
from ..interp import vsubst_c
from .c15 import residuals
from .c04 import plast_rec
RULE = ("guarded event sequence of simulate() for every set-up that must not start (no step, no file), one arbitrary iteration of the time loop whose step raises the abort flag (no time advanced, no file, loop left), "
        "value number of the abort flag after every phase (never lowered, only 0 or 1) and after every error condition of the constitutive update and the boundary treatment (1 in every guard cell of that condition)")
BAD = 97
def run(ck):
    ck.rule = RULE
    for dim in (2, 3): program(dim)
    its = [(start, dim) for dim in (2, 3)] + [(loop, dim) for dim in (2, 3)] + [(outdir, 2)] + [(sticky, dim) for dim in (2, 3)] + [(boundary, dim) for dim in (2, 3)]
    for dim in (2, 3):
        for m in MODELS:
            for h in (HARD.get(m, [None])): its.append((raised, dim, m, h))
        for m in HARD:
            for h in ((["NoHard"] if m == "MCCMui" else []) + [BAD]): its.append((invalid, dim, m, h))
    ck.parallel(lambda it: it[0](ck, *it[1:]), its)
def t_(prog, name, cls="Simulation"): f = prog.one(name, cls); return f"{os.path.basename(f['file'])}:{f['line']} {name}"
def start(ck, dim):
    prog = program(dim); tag = f"{t_(prog, 'simulate')}[{dim}D]"
    EM, PM = prog.enums["ElasticModel"], prog.enums["PlasticModel"]
    cases = [("not initialised", {"is_initialized": FALSE}), ("output set-up failed", {"exit": ONE})]
    cases += [(f"{a['n']} elasticity with {b['n']}", {"elastic_model": Poly.c(int(a["v"])), "plastic_model": Poly.c(int(b["v"]))}) for a in EM for b in PM if a["n"] != "Hencky" and b["n"] != "NoPlasticity"]
    for lab, fx in cases:
        for save in (True, False):
            try: S, _ = simulate(prog, {**fx, "save_sim": B(save)}, True)
            except Unsup as ex: ck.unk(f"{tag} {lab}: {ex}"); continue
            ck.use(S.I); evs = list(events(S.I.S["EV"]))
            for c, n, fr, tm, w in evs: ck.bad(f"{tag} {lab}", f"{n.split('@')[0]} at {w[0]}:{w[1]} is reached")
            if not evs: ck.ok(f"{tag} {lab}: no step, no file")
    for a in EM:      # valid set-ups do start
        for b in PM:
            if a["n"] != "Hencky" and b["n"] != "NoPlasticity": continue
            try: S, loops = simulate(prog, {"elastic_model": Poly.c(int(a["v"])), "plastic_model": Poly.c(int(b["v"])), "save_sim": FALSE}, False)
            except Unsup as ex: ck.unk(f"{tag} {a['n']}/{b['n']}: {ex}"); continue
            if any(n.startswith("advanceStep") for _, n, *_ in events(S.I.S["EV"])): ck.ok(f"{tag} {a['n']}/{b['n']}: starts")
            else: ck.bad(f"{tag} {a['n']}/{b['n']}", "valid set-up takes no step")
def loop(ck, dim):
    prog = program(dim); tag = f"{t_(prog, 'simulate')}[{dim}D]"
    H = hints(end_frame=ints(0, 6), current_time_step=ints(0, 9), min_dt=pos(1e-3, .3), fps=pos(.3, 3), stepsize=pos(1e-3, 1), loop=ints(0, 6))
    for save in (True, False):
        try: S, loops = simulate(prog, {"save_sim": B(save)}, True)
        except Unsup as ex: ck.unk(f"{tag}: {ex}"); continue
        ck.use(S.I)
        if len(loops) != 1: ck.unk(f"{tag}: {len(loops)} loops contain the time step"); continue
        d = loops[0]; n0 = len(d["pre"]["EV"]); tg = f"{tag} loop at {d['site']} save_sim={int(save)}"
        x = P(fld(S, d["entry"], "exit"))    # no earlier error: otherwise the loop was left
        if not x.is_const() and len(x.atoms()) == 1:
            mp = {next(iter(x.atoms())): ZERO}
            for k in ("entry", "end", "nc", "cond"):
                if d[k] is not None: d[k] = vsubst(d[k], mp)
            d["outs"] = {k: (vsubst(c, mp), vsubst(st, mp), v) for k, (c, st, v) in d["outs"].items()}
        ent = [P(fld(S, d["entry"], n)) for n in ("time", "frame", "current_time_step")]
        fail = bvar("stepfails", *ent); pairs = []; go = d["cond"] if d["cond"] is not None else TRUE
        for kind, c, st in [("next", d["nc"], d["end"])] + [(k, c, st) for k, (c, st, v) in d["outs"].items()]:
            evs = list(events(st["EV"][n0:])); g = And(c, fail); done = Not(eq(count(evs, "advanceStep"), 0)); g = And(g, done)
            if kind == "next": pairs.append(("no further iteration after an error", g, FALSE)); continue
            pairs += [(f"{n} unchanged after an error [{kind}]", Or(Not(g), eq(P(fld(S, st, n)), v)), TRUE) for n, v in zip(("time", "frame", "current_time_step"), ent)]
            for c2, n, fr, tm, w in evs:
                if n.startswith("save"): pairs.append((f"{n} at {w[0]}:{w[1]} not reached after an error [{kind}]", And(g, c2), FALSE))
        ck.cmp(tg, pairs, H, pre=go, n=ck.n(3000, 20000), boundary=False, maxcells=2000)
        # whatever follows the loop writes no frame after an error
        pairs = []
        for kind, c, st in [(k, c, st) for k, (c, st, v) in d["outs"].items() if k == "B"]:
            for c2, n, fr, tm, w in after(S.I):
                for i in vdeps(c2):
                    a = dom.A(i)
                    if a.kind == "bvar" and a.args[0] == "break": c2 = vsubst_c(c2, {i: TRUE})
                    if a.kind == "bvar" and a.args[0] == "loop-exit": c2 = vsubst_c(c2, {i: FALSE})
                if n in ("advanceStep", "saveParticleData", "saveGridData"): pairs.append((f"{n} at {w[0]}:{w[1]} not reached after an error", And(c, fail, c2), FALSE))
        if pairs: ck.cmp(f"{tag} after the loop", pairs, H, pre=go, n=3000, boundary=False)
        else: ck.ok(f"{tag} after the loop: no step, no frame")
def outdir(ck, dim):
    prog = program(dim); tag = f"{t_(prog, 'createDirectory')}"
    S = Sim(prog, {"exit": ZERO}, plates=[], objects=[]); I = S.I
    try: S.call("initialize", [TRUE, Str(("d/",)), Str(("n",))])
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ck.use(I); st = [e[1] for c, e in I.S["EV"] if e[0] == "open"]
    if not st: ck.unk(f"{tag}: no file is opened"); return
    ok = And(*[bvar("streamgood", s) for s in st])
    ck.cmp(tag, [("abort flag after a failed copy of the set-up", P(S.get("exit")), ite(ok, ZERO, ONE)), ("initialised", I.truth(S.get("is_initialized")), TRUE), ("saving enabled", I.truth(S.get("save_sim")), TRUE)], hints(), n=64)
    S = Sim(prog, {"exit": ZERO}, plates=[], objects=[]); S.call("initialize", [FALSE, Str(("d/",)), Str(("n",))])
    ck.cmp(f"{t_(prog, 'initialize')} without saving", [("abort flag", P(S.get("exit")), ZERO), ("initialised", S.I.truth(S.get("is_initialized")), TRUE), ("saving enabled", S.I.truth(S.get("save_sim")), FALSE)], hints(), n=16)
    for c, e in S.I.S["EV"]:
        if e[0] in ("mkdir", "open"): ck.bad(f"{t_(prog, 'initialize')}", f"{e[0]} at {e[-1][0]}:{e[-1][1]} although saving is disabled")
def sticky(ck, dim):
    """no phase lowers a raised flag"""
    prog = program(dim)
    for n in "updateDt remeshFixedInit remeshFixedCont resizeGrid P2G explicitEulerUpdate PBCDelParticles G2P MUSL deformationUpdate positionUpdate moveObjects".split():
        f = transfer_inputs(dim); part_sizes(prog, f); f["exit"] = ONE; f["use_musl"] = B(n in ("MUSL", "deformationUpdate"))
        S = Sim(prog, f, plates=[], objects=[], over={"Simulation::plasticity": plast_rec}); tag = f"{t_(prog, n)}[{dim}D]"
        try: S.call(n, [Poly.c(2)] * 3 if n == "remeshFixedInit" else [])
        except Unsup as ex: ck.unk(f"{tag}: {ex}"); continue
        ck.use(S.I); ck.cmp(tag, [("raised abort flag stays", P(S.get("exit")), ONE)], hints(**TH), n=50)
def boundary(ck, dim):
    prog = program(dim); H = hints()
    sides = "top bottom left right front back".split() if dim == 3 else "top bottom left right".split()
    X = vec("X", dim)
    for s in [None] + sides:
        for ex0, bc in ((ONE, 0), (ONE, 1), (ONE, 2), (ZERO, BAD), (ZERO, 0), (ZERO, 1), (ZERO, 2)):
            fx = {"exit": ex0}; tag = f"{t_(prog, 'boundaryCollision')}[{dim}D {s or 'object'} boundary condition {bc if bc != BAD else 'invalid'}]"
            kw = dict(plates=[{"plate_type": Poly.c(prog.enum("PlateType", s)), "bc": Poly.c(bc)}], objects=[]) if s else dict(plates=[], objects=[{"bc": Poly.c(bc)}])
            over = {"ObjectGeneral::inside": obj_atoms("inside", dim), "ObjectGeneral::normal": obj_atoms("normal", dim), "ObjectPlate::inside": lambda I, e: ([I.ev(a) for a in e["args"]], bvar("inside@plate"))[1]}
            S = Sim(prog, fx, over=over, **kw); v = S.I.new(vec("v", dim), "vi")
            try: S.call("boundaryCollision", [inp("node"), X, LV(v, ())])
            except Unsup as ex: ck.unk(f"{tag}: {ex}"); continue
            ck.use(S.I)
            xt = Mat(dim, 1, [a + inp("dt") * b for a, b in zip(X.e, vec("v", dim).e)])
            ins = bvar("inside@plate") if s else obj_inside("object0", xt)
            e = P(S.get("exit"))
            if bc == BAD: ck.cmp(tag, [("flag raised where it applies", Or(Not(ins), eq(e, 1)), TRUE)], H, n=200)
            elif ex0 == ONE: ck.cmp(tag, [("raised flag stays", e, ONE)], H, n=100)
            else: ck.cmp(tag, [("no error on a valid condition", e, ZERO)], H, n=200)
def T(prog, dim, m, h): return f"{t_(prog, 'plasticity')}[{dim}D {m}{'/' + str(h) if h is not None else ''}]"
def invalid(ck, dim, m, h):
    prog = program(dim)
    try: R = Run(prog, m, "Hencky", None, {"hardening_law": Poly.c(h if h == BAD else prog.enum("HardeningLaw", h))})
    except Unsup as ex: ck.unk(f"{T(prog, dim, m, h)}: {ex}"); return
    ck.use(R.I); ck.cmp(f"{T(prog, dim, m, h)} hardening law without a return mapping", [("abort flag", P(R.S.get("exit")), ONE)], PH, pre=pre(R), n=100, setup=setup(dim))
def raised(ck, dim, m, h):
    prog = program(dim); tag = T(prog, dim, m, h)
    try: R = Run(prog, m, "Hencky", h); e = P(R.S.get("exit")); R1 = Run(prog, m, "Hencky", h, {"exit": ONE})
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ck.use(R.I); I = R.I
    ck.cmp(tag, [("raised flag stays", P(R1.S.get("exit")), ONE)], PH, n=100, setup=setup(dim))
    pairs = [("abort flag is 0 or 1", Or(eq(e, 0), eq(e, 1)), TRUE)]
    if m == "NoPlasticity" or m in ("VM", "DP", "DPSoft", "DPMui"): pairs.append(("closed-form model never fails", e, ZERO))
    dl = I.truth(R.S.get("use_duvaut_lions_formulation")); one = eq(inp("visc_exponent"), 1); tv = atom("in", "visc_time").id
    if m in ("VMVisc", "DPVisc", "MCCVisc"):
        closed = And(one, eq(inp("xi"), 0)) if m == "VMVisc" else one
        for site, flag, r in residuals(I):
            if tv not in any_deps(r): continue
            tip = And(le(0, R.pt + ite(I.truth(R.S.get("use_pradhana")), -R.K * P(R.old["eps_pl_vol_pradhana"]), ZERO) + inp("q_cohesion") / inp("M"))) if m == "DPVisc" else TRUE
            used = And(tip, Not(closed), eq(R.count, 1), Not(dl) if m == "MCCVisc" else TRUE)
            pairs.append((f"iteration at {site} without convergence raises the flag", Or(Not(And(used, Not(flag))), eq(e, 1)), TRUE))
        neg = And(closed, eq(R.count, 1), lt(R.ddev, Poly.c(dom.Fr(-1, 10**9))))
        if m == "MCCVisc": neg = And(neg, Not(dl)); pairs.append(("Duvaut-Lions with an exponent raises the flag", Or(Not(And(dl, Not(one), eq(R.count, 1))), eq(e, 1)), TRUE))
        pairs.append(("negative plastic multiplier raises the flag", Or(Not(neg), eq(e, 1)), TRUE))
        if m != "MCCVisc": pairs.append(("non-negative closed-form multiplier raises nothing", Or(Not(And(closed, le(0, R.ddev))), eq(e, 0)), TRUE))
    ck.cmp(tag, pairs, PH.with_(visc_exponent=lambda u: np.where(u < .5, 1, .5 + u), q_min=real(-2, .5), xi=lambda u: np.where(u < .5, 0, u)), pre=pre(R), n=ck.n(1500, 6000), boundary=False, maxcells=ck.n(400, 2000), setup=setup(dim), rtol=1e-5, exact_s=1.0)
    # an iteration that finds no admissible step
    if m == "MCC" and h and h.endswith("Impl"):
        name = next((n for n in ("limited_search_exponential", "limited_search_sinh") if h.startswith("Expo") == n.endswith("exponential")), None)
        if name and prog.by_name(name): noadmissible(ck, prog, m, h, name, tag)
def noadmissible(ck, prog, m, h, name, tag):
    seen = []; INF = inp("infinity")
    def hi(I, e):
        for a in e["args"]: I.ev(a)
        return INF
    isinf = lambda I, e: INF
    try: R = Run(prog, m, "Hencky", h, over={name: hi, "std::numeric_limits<double>::infinity": isinf, "infinity": isinf}, hook=seen.append)
    except Unsup as ex: ck.unk(f"{tag} no admissible step: {ex}"); return
    for d in seen:
        pairs = []; tg = f"{tag} loop at {d['site']} without an admissible step"
        pairs.append(("iteration is not continued", d["nc"], FALSE))
        for k, (c, st, v) in d["outs"].items():
            if k != "B": continue
            ls = set(); all_conds(c, ls); conv = FALSE
            for l in ls:
                if l.op in ("lt", "le") and any(dom.A(i).kind == "fn" and dom.A(i).args[0] == "abs" and l.a.t.get(((i, 1),), 0) > 0 for i in l.a.atoms()): conv = Or(conv, l)
            pairs.append(("flag raised unless converged", Or(Not(c), conv, eq(P(R.I.pget(st[R.S.root], R.S.f("exit").path)), 1)), TRUE))
        ck.cmp(tg, pairs, PH.with_(infinity=const(1e300)), n=ck.n(800, 4000), boundary=False)
