from ..model import *
from .c03 import nodeK, S0
RULE = ("reconstruction of every written file from the guarded event sequence of the save functions (opened name, registered columns, values printed): each PLY column's label, length and element value number at an arbitrary record as read when the file is written, "
        "file names with the frame, and the sequence of values of each text file, for every plastic model, feature flag and dimension")
MODELS = "NoPlasticity VM DP DPSoft MCC VMVisc DPVisc MCCVisc DPMui MCCMui".split()
H = hints(**dict(TH, frame=ints(0, 50), end_frame=ints(0, 50), PP=ints(0, 2), particles=real(), runtime_total=pos(), runtime_p2g=pos(), runtime_g2p=pos(), runtime_euler=pos(), runtime_defgrad=pos(), current_time_step=ints(0, 50)))
def t_(prog, name): f = prog.one(name, "Simulation"); return f"{os.path.basename(f['file'])}:{f['line']} {name}"
def run(ck):
    ck.rule = RULE
    its = []
    for dim in (2, 3):
        prog = program(dim)
        known = {x["n"] for x in prog.enums["PlasticModel"]}
        its += [(particles, dim, m, b) for m in MODELS if m in known for b in (False, True)]
        its += [(grid, dim, b) for b in (False, True)] + [(texts, dim)]
    ck.parallel(lambda it: it[0](ck, *it[1:]), its)
def mk(prog, dim, **kw):
    f = transfer_inputs(dim); part_sizes(prog, f); f.pop(("elem", "particles.x"))
    f.update(directory=Str(("D/",)), sim_name=Str(("N",)), **kw)
    for n in ("frame", "end_frame", "current_time_step"): dom.INTEGRAL.add(atom("in", n).id)
    return Sim(prog, f, plates=[], objects=[])
def flat(evs, g=TRUE):
    for c, e in evs:
        c = And(g, c)
        if c.op == "F": continue
        if e[0] == "loop": yield c, ("loop",) + tuple(e[1:])
        else: yield c, e
def files(evs):
    """name -> (open mode, [events]) in order; None when a file is written under a condition or in a summarised loop"""
    names = {}; out = {}
    for c, e in flat(evs):
        if e[0] == "loop":
            if any(x[0] in ("open", "out", "plywrite", "plyadd") for _, x in flat(e[3])): raise Unsup("file written in a loop of unknown length")
            continue
        if e[0] in ("open", "out", "plywrite", "plyadd") and c.op != "T": raise Unsup(f"{e[0]} at {e[-1][0]}:{e[-1][1]} under a condition")
        if e[0] == "open" and isinstance(e[2], Str):
            names[e[1]] = e[2]; out.setdefault(e[2], []).append((e[3], e[-1], []))
        elif e[0] == "out":
            if e[1] in names: out[names[e[1]]][-1][2].append(e)
        elif e[0] == "plywrite":
            if e[2] in names: out[names[e[2]]][-1][2].append(e)
            else: raise Unsup("PLY file written to an unknown stream")
        elif e[0] == "close": names.pop(e[1], None)
    return out
def name(*p): return Str(("D/N/",) + p)
FR = ("num", inp("frame"))
def find(ck, tag, F, nm):
    """the content written under a name"""
    f = F.get(nm)
    if not f:
        ck.bad(tag, f"no file {nm!r} is written (files: {', '.join(repr(x) for x in F)})"); return None
    if len(f) > 1: ck.bad(tag, f"{nm!r} is opened {len(f)} times"); return None
    modes, loc, evs = f[0]
    if any("app" in m for m in modes): ck.bad(tag, f"{nm!r} is appended to, not replaced ({loc[0]}:{loc[1]})"); return None
    ck.ok(f"{tag}: {nm!r}")
    return evs
def ply(ck, S, tag, evs, nrec, R, want, extra_ok=False):
    prog = S.prog; ws = [e for e in evs if e[0] == "plywrite"]
    if len(ws) != 1 or len(evs) != 1: ck.bad(tag, f"{len(ws)} PLY writes and {len(evs) - len(ws)} other writes to the file"); return
    w = ws[0]
    ck.cmp(f"{tag} {w[-1][0]}:{w[-1][1]}", [("binary", S.I.truth(w[3]), TRUE)], H, n=16)
    ty = Poly.c(prog.enum("Type", "FLOAT64")); seen = {}; pairs = []
    for c, a, it, data, dead, loc in w[4]:
        at = f"{loc[0]}:{loc[1]}"
        if c.op != "T": ck.unk(f"{tag}: column at {at} under a condition"); return
        el, labs, typ, cnt = a[0], a[1], a[2], a[3]
        ls = labels(S, labs)
        if ls is None or it is None or not isinstance(data, ArrayV): ck.unk(f"{tag}: column at {at} has no known form"); return
        if el != Str(("vertex",)) and el != "vertex": ck.bad(tag, f"{at}: element {el!r}")
        if dead: ck.bad(tag, f"{at}: column {ls} refers to storage that no longer exists when the file is written"); continue
        pairs += [(f"{at} {'/'.join(ls)}: type", P(typ), ty), (f"{at} {'/'.join(ls)}: number of records", P(cnt), nrec), (f"{at} {'/'.join(ls)}: stored elements", P(data.size), P(cnt) + P(it.idx)), (f"{at} {'/'.join(ls)}: no list", P(a[5]) if len(a) > 5 else ZERO, ZERO)]
        v = S.I.aget(data, R + P(it.idx))
        m = v.e if isinstance(v, Mat) else [v]
        if len(m) != len(ls):
            ck.bad(tag, f"{at}: {len(ls)} labels for elements of {len(m)} numbers"); continue
        for l, x in zip(ls, m):
            if l in seen: ck.bad(tag, f"{at}: second column {l!r}")
            seen[l] = (x, at)
    for l in want:
        if l not in seen: ck.bad(tag, f"no column {l!r}")
    for l, (x, at) in seen.items():
        if l in want: pairs.append((f"{at} column {l}", x, want[l]))
        else: ck.bad(tag, f"{at}: unexpected column {l!r}")
    ck.cmp(tag, pairs, H, pre=And(le(ZERO, R), lt(R, nrec)), n=ck.n(300, 1500))
def labels(S, v):
    if isinstance(v, CL): els = v.els
    elif isinstance(v, ArrayV) and v.size.is_const(): els = [S.I.aget(v, Poly.c(i)) for i in range(int(v.size.const()))]
    else: return None
    out = []
    for x in els:
        if isinstance(x, str): out.append(x)
        elif isinstance(x, Str) and all(isinstance(y, str) for y in x.p): out.append("".join(x.p))
        else: return None
    return out
def particles(ck, dim, m, mibf):
    prog = program(dim); tag = f"{t_(prog, 'saveParticleData')}[{dim}D {m}{' mibf' if mibf else ''}]"
    for extra in (Str(("",)), Str(("E",))):
        S = mk(prog, dim, plastic_model=Poly.c(prog.enum("PlasticModel", m)), use_mibf=B(mibf)); I = S.I
        R = inp("PP", 0, True)
        try: S.call("saveParticleData", [extra]); F = files(I.S["EV"])
        except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
        ck.use(I)
        evs = find(ck, tag, F, name("particles_f", *extra.p, FR, ".ply"))
        if evs is None: return
        g = lambda n: I.elem_in(S0(S, n), R)
        tau, Fe = g("tau"), g("F")
        p = -(sum_([tau.at(i, i) for i in range(dim)])) / dim
        dev = [tau.at(i, j) + (p if i == j else ZERO) for i in range(dim) for j in range(dim)]
        want = {"p": p, "q": inp("q_prefac") * sqrt(sum_([x * x for x in dev])), "Je": mdet(Fe)}
        for d in range(dim): want["xyz"[d]] = g("x").e[d]; want["v" + "xyz"[d]] = g("v").e[d]
        if m != "NoPlasticity": want.update({n: P(g(n)) for n in ("eps_pl_vol", "eps_pl_dev", "delta_gamma")})
        if m in ("DPMui", "MCCMui") or (m in ("DPVisc", "MCCVisc") and mibf): want["muI"] = P(g("muI"))
        if m in ("DPMui", "MCCMui"): want["viscosity"] = P(g("viscosity"))
        ply(ck, S, tag, evs, inp("Np"), R, want)
        evs = find(ck, tag, F, name("last_written.txt"))
        if evs is not None: text(ck, S, f"{tag} last_written.txt", evs, [[inp("frame")]])
def sum_(l):
    r = ZERO
    for x in l: r = r + x
    return r
def grid(ck, dim, mibf):
    prog = program(dim); tag = f"{t_(prog, 'saveGridData')}[{dim}D{' mibf' if mibf else ''}]"
    for extra in (Str(("",)), Str(("E",))):
        S = mk(prog, dim, use_mibf=B(mibf)); I = S.I
        try: K = nodeK(S, dim); S.call("saveGridData", [extra]); F = files(I.S["EV"])
        except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
        ck.use(I)
        evs = find(ck, tag, F, name("grid_f", *extra.p, FR, ".ply"))
        if evs is None: return
        g = lambda n: I.elem_in(I.peek(S.f("grid", n)), K)
        want = {"mass": P(g("mass"))}
        for d in range(dim): want["xyz"[d]] = inp("grid." + XC[d]) + inp("dx") * inp(f"I{d}"); want["v" + "xyz"[d]] = g("v").e[d]
        if mibf: want["friction"] = P(g("friction"))
        nodes = ONE
        for n in NN[:dim]: nodes = nodes * inp(n)
        ply(ck, S, tag, evs, nodes, K, want)
def tokens(evs):
    """lines of values: printed numbers, with separators as boundaries"""
    lines = [[]]; glued = False
    for e in evs:
        v = e[2]
        for x in (v.p if isinstance(v, Str) else (v,)):
            if isinstance(x, str):
                for ch in x:
                    if ch == "\n": lines.append([]); glued = False
                    elif ch in ", \t;": glued = False
                    else: raise Unsup(f"text {x!r} in the file")
            else:
                if isinstance(x, tuple) and x and x[0] == "num": x = x[1]
                if not isinstance(x, (Poly, Cond)): raise Unsup(f"printed value {x!r}")
                if glued: raise Glued(f"{e[-1][0]}:{e[-1][1]}")
                lines[-1].append((P(x), f"{e[-1][0]}:{e[-1][1]}")); glued = True
    while lines and not lines[-1]: lines.pop()
    return lines
class Glued(Exception): pass
def text(ck, S, tag, evs, want):
    try: got = tokens(evs)
    except Glued as ex: ck.bad(tag, f"two numbers without a separator at {ex}"); return
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    if [len(x) for x in got] != [len(x) for x in want]:
        ck.bad(tag, f"numbers per line {[len(x) for x in got]} instead of {[len(x) for x in want]}"); return
    ck.cmp(tag, [(f"line {i} value {j} ({a[1]})", a[0], P(b)) for i, (l, w) in enumerate(zip(got, want)) for j, (a, b) in enumerate(zip(l, w))], H, n=ck.n(300, 1500))
def texts(ck, dim):
    prog = program(dim)
    for fnm, fl, want in (("saveInfo", "info.txt", [[inp(n)] for n in "end_frame fps dx Np particle_volume".split()]),
                          ("saveTiming", "info_timing.txt", [[inp("current_time_step")], [inp("runtime_total") / 1000]] + [[inp("runtime_" + n)] for n in "p2g g2p euler defgrad".split()])):
        tag = f"{t_(prog, fnm)}[{dim}D]"
        S = mk(prog, dim)
        try: S.call(fnm); F = files(S.I.S["EV"])
        except Unsup as ex: ck.unk(f"{tag}: {ex}"); continue
        ck.use(S.I); evs = find(ck, tag, F, name(fl))
        if evs is not None: text(ck, S, f"{tag} {fl}", evs, want)
    tag = f"{t_(prog, 'saveAvgData')}[{dim}D]"
    S = mk(prog, dim); I = S.I; Np = inp("Np")
    try: S.call("saveAvgData"); F = files(I.S["EV"])
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ck.use(I)
    b = I.binder(Np); p = Poly.of(b); g = lambda n: I.elem_in(S0(S, n), p)
    J = mdet(g("F")) * fn("exp", P(g("eps_pl_vol"))); tau = g("tau")
    sm = lambda x: mksum(b, ZERO, Np, x)
    Js = sm(J)
    for nm, v in (("avg_cauchy_frame_", [[sm(x) / Js for x in tau.e]]), ("avg_kirchh_frame_", [[sm(x * J) / Js for x in tau.e]]), ("avg_J_frame_", [[Js / Np]])):
        evs = find(ck, tag, F, name(nm, FR, ".csv"))
        if evs is not None: text(ck, S, f"{tag} {nm}*.csv", evs, v)
    evs = find(ck, tag, F, name("last_saved_frame.txt"))
    if evs is not None: text(ck, S, f"{tag} last_saved_frame.txt", evs, [[inp("frame")]])
