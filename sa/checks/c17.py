from ..plast import *
from ..vals import *
from . import c06, c20
from .c11 import SAVES
from .c14 import configs, name as mname
RULE = ("undefined-value dataflow: every declaration without initialiser, default-initialised matrix and unset class member introduces a distinct undefined atom; after each phase, constitutive update, boundary treatment, sampling, saving and construction, "
        "for every option combination, no value number of the surviving state or of the written output depends on such an atom in any guard cell (the two terms obtained by renaming the undefined atoms agree); "
        "fields left unset by construction, set-up and sampling are not read by a phase of the first step before an earlier phase of that step sets them")
def undef(v): return any(A(i).kind == "uninit" for i in vdeps(v))
def other(v):
    def leaf(a): return Poly.of(atom("uninit", "other", a.id)) if a.kind == "uninit" and a.args[0] != "other" else None
    def cl(c):
        if c.op in ("b", "nb") and c.a.kind == "uninit" and c.a.args[0] != "other":
            r = Cond("b", atom("uninit", "other", c.a.id)); return r if c.op == "b" else Not(r)
        return None
    rw = Rewriter(leaf, cl); return rw.cond(v) if isinstance(v, Cond) else rw.poly(v)
def names(v): return ", ".join(sorted({f"{A(i).args[0]} ({A(i).args[1]}:{A(i).args[2]})" if len(A(i).args) > 2 else str(A(i).args[0]) for i in vdeps(v) if A(i).kind == "uninit"})[:4])
def leaves(I, v, nm, depth=0):
    if v is None or depth > 6: return
    if isinstance(v, (Poly, Cond)): yield nm, v
    elif isinstance(v, Mat):
        for i, x in enumerate(v.e): yield f"{nm}({i})", x
    elif isinstance(v, CL):
        for i, x in enumerate(v.els): yield from leaves(I, x, f"{nm}[{i}]", depth + 1)
    elif isinstance(v, Obj):
        for k, x in v.f.items(): yield from leaves(I, x, f"{nm}.{k}", depth + 1)
    elif isinstance(v, ArrayV):
        yield nm + ".size", P(v.size)
        if v.base[0] == "in" and not v.log: return
        try: x = I.aget(v, inp("KK", 0, True))
        except Unsup: return
        yield from leaves(I, x, nm + "[k]", depth + 1)
    elif isinstance(v, Ptr):
        if depth < 3 and v.root in I.S: yield from leaves(I, I.pget(I.S[v.root], v.path), nm, depth + 1)
def evleaves(I, evs, g=TRUE):
    for c, e in evs:
        c = And(g, c)
        if c.op == "F": continue
        if e[0] == "loop": yield from evleaves(I, e[3], c)
        else:
            for k, x in enumerate(e[1:-1]):
                xs = x if isinstance(x, tuple) else (x,)
                for y in xs:
                    if isinstance(y, (Poly, Cond, Mat, CL)):
                        for n, z in leaves(I, y, f"{e[0]} at {e[-1][0]}:{e[-1][1]}"): yield n, (ite(c, z, ZERO) if isinstance(z, Poly) else And(c, z))
def scan(ck, I, tag, ls, H, pre=TRUE, **kw):
    ls = list(ls); us = [(n, v) for n, v in ls if undef(v)]
    for n, v in ls:
        if not undef(v): ck.ok()
    if us:
        nv = len(ck.viol)
        for n, v in us:
            if len(ck.viol) >= nv + 2: ck.obl += 1; continue
            r = compare([(f"{n} depends on undefined {names(v)}", v, other(v))], H, pre, n=ck.n(300, 1500), seed=ck.seed, boundary=False, **kw)
            ck.obl += 1; ck.cells += r.cells
            if r.bad: ck.viol.append((tag, r.bad[0][0]))
            else: ck.tested += 1
    ck.use(I)
def _pl(I, e):
    """the constitutive update is analysed on its own"""
    p = P(I.ev(e["args"][0])); l = I.lv(e["args"][2]); F = I.rd(l); t = I.this() + ("f", "particles")
    I.wr(t + ("f", "tau") + ("i", p), Mat(F.r, F.c, [fn(f"stress{k}", *F.e) for k in range(len(F.e))]))
PL = {"Simulation::plasticity": _pl}
HH = hints(**{**TH, "KK": ints(0, 60), "RR": ints(0, 30), "PDS": ints(1, 40)})
def state(S): return leaves(S.I, S.I.S[S.root], "simulation")
def run(ck):
    ck.rule = RULE
    for dim in (2, 3): program(dim); program(dim, 2, True)
    its = []
    for dim in (2, 3):
        for s in ("sampleParticles", "regularSampleParticles", "sampleParticlesFromVdb", "regularSampleParticlesFromVdb"): its.append((life, dim, s))
        for n, cfg in PHASES: its.append((phase, dim, n, cfg))
        for m, h in configs():
            for el in ("Hencky", "NeoHookean") if m == "NoPlasticity" else ("Hencky",): its.append((plast, dim, m, h, el))
        its.append((boundary, dim)); its.append((objects, dim)); its.append((saves, dim))
        for n in STEP: its.append((phsum, dim, n))
    ck.parallel(lambda it: it[0](ck, *it[1:]), its)
    for k in [k for k in ck.extra if k.startswith("sum:")]:
        v = ck.extra.pop(k)
        if v is not None: _sum[tuple(k.split(":")[1:])] = v
    for k in [k for k in ck.extra if k.startswith("unset before")]:
        dim = int(k[-3])
        for pbc in (False, True):
            for musl in (False, True): flow(ck, dim, set(ck.extra[k]), pbc, musl, f"{k[13:]} pbc={int(pbc)} musl={int(musl)}")
STEP = "updateDt remeshFixed remeshFixedInit remeshFixedCont PBCAddParticles resizeGrid P2G explicitEulerUpdate PBCDelParticles G2P MUSL deformationUpdate positionUpdate moveObjects".split()
PHASES = [("P2G", {}), ("P2G", {"use_mibf": TRUE}), ("G2P", {"use_musl": TRUE}), ("G2P", {"use_musl": FALSE}), ("deformationUpdate", {}), ("MUSL", {"pbc": FALSE}), ("positionUpdate", {}), ("updateDt", {}), ("PBCAddParticles", {}), ("PBCDelParticles", {}), ("resizeGrid", {}), ("explicitEulerUpdate", {}), ("moveObjects", {})]
MESH = {"remeshFixed": [Poly.c(4)], "remeshFixedInit": [Poly.c(2)] * 3, "remeshFixedCont": [], "PBCAddParticles": [Poly.c(4)]}
def tg(prog, n, dim, cls="Simulation"): f = prog.one(n, cls); return f"{os.path.basename(f['file'])}:{f['line']} {n}[{dim}D]"
def phase(ck, dim, n, cfg):
    prog = program(dim); tag = tg(prog, n, dim); f = transfer_inputs(dim); part_sizes(prog, f); f.update(cfg)
    S = Sim(prog, f, plates=[dict(plate_type=ZERO)], objects=[], over=PL)
    try: S.call(n, MESH.get(n, []))
    except Unsup as ex: ck.unk(f"{tag}: {ex} at {S.I.loc}"); return
    scan(ck, S.I, tag, list(state(S)) + list(evleaves(S.I, S.I.S["EV"])), HH)
def plast(ck, dim, m, h, el):
    prog = program(dim); tag = tg(prog, "plasticity", dim) + f" {mname(m, h)} {el}"
    try: R = Run(prog, m, el, h)
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ls = [x for n, v in R.new.items() for x in leaves(R.I, v, "particles." + n)] + [("exit", P(R.S.get("exit"))), ("number of plastic particles", R.count)]
    scan(ck, R.I, tag, ls, PH, pre(R), setup=setup(dim))
def boundary(ck, dim):
    prog = program(dim); tag = tg(prog, "boundaryCollision", dim)
    for pt in prog.enums["PlateType"]:
        if c06.SIDES.get(pt["n"], (9,))[0] >= dim: continue
        for b in prog.enums["BC"]:
            for mibf in (False, True):
                S = Sim(prog, {"use_mibf": B(mibf)}, plates=[dict(plate_type=Poly.c(int(pt["v"])), bc=Poly.c(int(b["v"])))], objects=[]); I = S.I; r = I.new(vec("v", dim), "vi")
                try: S.call("boundaryCollision", [inp("index", 0, True), vec("X", dim), LV(r, ())]); mv = S.call("move", [inp("dt"), inp("frame_dt"), inp("time")], "ObjectPlate", LV(S.plate_roots[0], ()))
                except Unsup as ex: ck.unk(f"{tag} {pt['n']} {b['n']}: {ex}"); continue
                scan(ck, I, f"{tag} {pt['n']} {b['n']}", list(leaves(I, I.S[r], "velocity")) + list(leaves(I, I.S[S.plate_roots[0]], "plate")) + [("exit", P(S.get("exit")))], c06.H)
    for b in prog.enums["BC"]:
        for mibf in (False, True):
            over = {"ObjectGeneral::inside": obj_atoms("inside", dim), "ObjectGeneral::normal": obj_atoms("normal", dim)}
            S = Sim(prog, {"use_mibf": B(mibf)}, plates=[], objects=[dict(bc=Poly.c(int(b["v"])))], over=over); I = S.I; r = I.new(vec("v", dim), "vi")
            try: S.call("boundaryCollision", [inp("index", 0, True), vec("X", dim), LV(r, ())])
            except Unsup as ex: ck.unk(f"{tag} object {b['n']}: {ex}"); continue
            scan(ck, I, f"{tag} object {b['n']}", list(leaves(I, I.S[r], "velocity")) + [("exit", P(S.get("exit")))], c06.H)
def ctors(prog, c): return [f for f in prog.funcs.values() if f.get("cls") == c and f["n"] == c and f.get("body") is not None]
def construct(S, c, nm):
    """object built by its own constructor from symbolic arguments"""
    I = S.I; r = I.new(I.default(c, False, c), nm)
    fs = ctors(S.prog, c)
    if not fs: raise Unsup(f"no constructor of {c}")
    f = fs[0]
    vals = [I.input(f"{nm}.arg.{p['n']}", p["t"]) for p in f["params"]]
    I.call_fn(f, [], LV(r, ()), ctor=True, vals_=vals)
    return r
def objects(ck, dim):
    prog = program(dim)
    from .c01 import classes
    for c in ["ObjectPlate"] + sorted(classes(prog)):
        tag = f"{c} constructor[{dim}D]"; S = Sim(prog, {}, plates=[], objects=[]); I = S.I
        try: r = construct(S, c, c)
        except Unsup as ex: ck.unk(f"{tag}: {ex}"); continue
        used = read_fields(prog, c)
        scan(ck, I, tag, [(n, v) for n, v in leaves(I, I.S[r], c) if n.split(".")[1].split("(")[0].split("[")[0] in used], HH)
        if c == "ObjectPlate": continue
        for m in ("inside", "normal"):
            if not prog.by_name(m, c): continue
            try: v = S.call(m, [vec("X", dim)], c, LV(r, ()))
            except Unsup as ex:
                if not (dim == 2 and "out of range" in str(ex)): ck.unk(f"{tag} {m}: {ex}")
                continue
            scan(ck, I, f"{c}::{m}[{dim}D]", leaves(I, v, m), HH)
def read_fields(prog, c):
    """members mentioned by any method of the class or by the boundary treatment"""
    out = set()
    def w(n):
        if isinstance(n, dict):
            if n.get("k") == "mem": out.add(n.get("n"))
            for v in n.values(): w(v)
        elif isinstance(n, list):
            for v in n: w(v)
    for f in prog.funcs.values():
        if f["n"] != f.get("cls"): w(f.get("body"))
    return out
def saves(ck, dim):
    from .c19 import mk
    prog = program(dim)
    for m in prog.enums["PlasticModel"]:
        for n in ("saveParticleData", "saveGridData", "saveAvgData", "saveInfo", "saveTiming"):
            tag = tg(prog, n, dim)
            try: S = mk(prog, dim, plastic_model=Poly.c(int(m["v"]))); S.call(n, [Str(())] if n in ("saveParticleData", "saveGridData") else [])
            except Unsup as ex: ck.unk(f"{tag}: {ex}"); continue
            ls = list(evleaves(S.I, S.I.S["EV"]))
            for c, e in S.I.S["EV"]:
                if e[0] == "plywrite":
                    for _, args, it, data, dead, loc in e[2] if len(e) > 2 and isinstance(e[2], tuple) else ():
                        if isinstance(data, ArrayV): ls += list(leaves(S.I, data, f"column {args[1] if len(args) > 1 else ''}"))
            scan(ck, S.I, tag, ls, HH)
def snapshot(dim, sampler, save):
    """state at the start of the first step, from construction through set-up, sampling and the start of simulate()"""
    prog = program(dim, 2, True); c = c20.mk(prog, dim); S = c.S; I = S.I; snap = []
    def adv(I, e):
        if not snap: snap.append(dict(I.S))
        return None
    I.over = dict(I.over); I.over["Simulation::advanceStep"] = adv
    I.over["Simulation::createDirectory"] = lambda I, e: None
    o = I.default("Simulation", False, "simulation"); I.S[S.root] = o
    for f in ctors(prog, "Simulation")[:1]: I.call_fn(f, [], S.lv, ctor=True, vals_=[])
    pl = construct(S, "ObjectPlate", "plate0"); I.wr(S.f("plates"), CL([Ptr(pl, ())])); I.wr(S.f("objects"), CL([]))
    S.call("initialize", [B(save), Str(("D/",)), Str(("N",))])
    if sampler.startswith("regular"): I.wr(S.f("dx"), inp("dx"))        # the cell size is the user's input of the lattice routines
    f = prog.one(sampler); vals = []
    for p in f["params"]:
        t = strip(p["t"])
        if t == "Simulation": vals.append(S.lv)
        elif t == "ObjectVdb": vals.append(LV(I.new(Obj("ObjectVdb", {}, "obj"), "obj"), ()))
        else: vals.append(inp("arg." + p["n"], 1))
    if any(p["n"] == "crop_to_shape" for p in f["params"]): vals[[p["n"] for p in f["params"]].index("crop_to_shape")] = ZERO
    I.call_fn(f, [], None, vals_=vals)
    ev0 = len(I.S["EV"])
    S.call("simulate")
    return prog, S, snap, ev0
def life(ck, dim, sampler):
    for save in (False, True):
        tag = f"set-up with {sampler}[{dim}D{' saving' if save else ''}]"
        try: prog, S, snap, ev0 = snapshot(dim, sampler, save)
        except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
        if not snap: ck.unk(f"{tag}: no first step found"); return
        I = S.I; I.S = snap[0]
        U = sorted({top(n) for n, v in state(S) if undef(v)})
        scan(ck, I, tag, list(evleaves(I, I.S["EV"])), HH)
        ck.extra[f"unset before {sampler}[{dim}D]"] = U
def top(n): return n.split("(")[0].split("[")[0].replace("simulation.", "", 1)
_sum = {}
def phsum(ck, dim, n):
    try: r, w, I = summary(dim, n, {}); ck.use(I); ck.extra[f"sum:{dim}:{n}"] = (r, w)
    except Unsup as ex: ck.unk(f"{n}[{dim}D]: {ex}"); ck.extra[f"sum:{dim}:{n}"] = None
def summary(dim, n, cfg):
    """(fields whose incoming value reaches the outgoing state or output, fields always overwritten)"""
    prog = program(dim); f = transfer_inputs(dim) if n not in MESH else {}
    part_sizes(prog, f); f.update(cfg)
    S = Sim(prog, f, plates=[dict(plate_type=ZERO)], objects=[], over=PL); I = S.I
    S.call(n, MESH.get(n, []))
    reads, writes = set(), set()
    for nm, v in list(state(S)) + list(evleaves(I, I.S["EV"])) + [(f"plate.{a}", b) for a, b in leaves(I, I.S[S.plate_roots[0]], "plate")]:
        ds = {str(A(i).args[0]) for i in vdeps(v) if A(i).kind in ("in", "sel") and A(i).args}
        own = top(nm)
        if isinstance(v, Poly) and ds == {own} and v == Poly.of(atom("in", own)): continue      # unchanged
        reads |= ds - {own} if own not in ds else ds
        if own not in ds: writes.add(own)
    if n in ("G2P", "deformationUpdate"): reads |= mentioned(prog, prog.one("plasticity", "Simulation"), set())
    return reads, writes, I
def mentioned(prog, f, seen):
    """members of the simulation mentioned by the constitutive update and what it calls"""
    out = set()
    if f["n"] in seen: return out
    seen.add(f["n"])
    def w(n):
        if isinstance(n, dict):
            if n.get("k") == "mem": out.add(n.get("n"))
            if n.get("k") == "call":
                g = prog.funcs.get(n.get("usr"))
                if g is not None and g.get("body") is not None: out.update(mentioned(prog, g, seen))
            for v in n.values(): w(v)
        elif isinstance(n, list):
            for v in n: w(v)
    w(f.get("body")); return out
def flow(ck, dim, U, pbc, musl, tag):
    F = {"pbc": B(pbc), "use_musl": B(musl)}
    seq = ["updateDt"] + (["remeshFixed", "PBCAddParticles"] if pbc else ["remeshFixedInit"]) + ["resizeGrid", "P2G", "explicitEulerUpdate"] + (["PBCDelParticles"] if pbc else []) + ["G2P"] + (["MUSL", "deformationUpdate"] if musl else []) + ["positionUpdate", "moveObjects"]
    nxt = [n for n in seq if n != "remeshFixed"]; nxt = [{"remeshFixedInit": "remeshFixedCont"}.get(n, n) for n in nxt]
    for k, n in [("first", n) for n in seq] + [("second", n) for n in nxt]:
        if (str(dim), n) not in _sum: return
        r, w = _sum[(str(dim), n)]
        if U & r:          # with the flags of this run
            ky = (dim, n, pbc, musl)
            try:
                if ky not in _sum: _sum[ky] = summary(dim, n, F)[:2]
                r, w = _sum[ky]
            except Unsup as ex: ck.unk(f"{tag}: {n}: {ex}"); return
        for x in sorted(U):
            if x in r: ck.bad(tag, f"{n} of the {k} step uses field {x}, which nothing has set")
            else: ck.ok()
        U -= w
