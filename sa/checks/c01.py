from ..model import *
from ..interp import leafname
from ..plast import MODELS, HARD
RULE = ("accesses of every parallel construct to storage that outlives one thread (fields, containers, objects, captured locals, statics), with their index terms in the worksharing iteration variables: two accesses of one barrier-free phase, at least one a write, "
        "must share a lock, be a reduction, belong to one single/master block, or have indices that coincide only for the same iteration (unique solution of the index term, or no collision of index terms in any valuation); "
        "a reduction operator must be the operation the loop performs; no schedule-dependent library generator inside a parallel construct")
OPS = {"operator+": ("+",), "operator-": ("+",), "+": ("+",), "max": ("max",), "min": ("min",), "operator||": ("||",), "operator&&": ("&&",), "operator|": ("||",), "operator&": ("&&",)}
H = hints(**{**TH, "xi": real(1, 3), **{n: ints(2, 6) for n in NN}, "Np": ints(3, 9)})
UNSAFE = {"rand", "random", "drand48", "strtok", "localtime", "gmtime", "tmpnam", "std::rand"}
def omp_nodes(n, out):
    if isinstance(n, dict):
        if n.get("k") == "omp" and "parallel" in n["dir"]: out.append(n.get("l"))
        for v in n.values(): omp_nodes(v, out)
    elif isinstance(n, list):
        for v in n: omp_nodes(v, out)
def calls_in(n, out, inpar=False):
    if isinstance(n, dict):
        p = inpar or n.get("k") == "omp" and "parallel" in n["dir"]
        if p and n.get("k") == "call": out.append(n)
        for v in n.values(): calls_in(v, out, p)
    elif isinstance(n, list):
        for v in n: calls_in(v, out, inpar)
def run(ck):
    ck.rule = RULE
    for dim in (2, 3): program(dim)
    its = []
    for dim in (2, 3):
        its += [(dim, "P2G", {}), (dim, "positionUpdate", {}), (dim, "saveParticleData", {}), (dim, "MUSL", {"pbc": FALSE}), (dim, "MUSL", {"pbc": TRUE}), (dim, "G2P", {"use_musl": TRUE})]
        for t in program(dim).enums["PlateType"]: its.append((dim, "explicitEulerUpdate", {"plate": t["n"]}))
        for c in sorted(classes(program(dim))): its.append((dim, "explicitEulerUpdate", {"obj": c}))
        for m in MODELS:
            for h in (HARD.get(m) or [None]):
                for el in ("Hencky", "NeoHookean") if m == "NoPlasticity" else ("Hencky",):
                    its.append((dim, "deformationUpdate", {"pm": m, "hl": h, "el": el}))
                    if ck.thorough or m in ("MCCVisc", "DPMui", "DPSoft") and h in (None, "ExpoExpl"): its.append((dim, "G2P", {"use_musl": FALSE, "pm": m, "hl": h, "el": el}))
    covered = {}
    ck.parallel(lambda it: one(ck, *it), its)
    # every parallel construct of the program must have been analysed
    for dim in (2, 3):
        prog = program(dim); seen = set()
        for it in its: seen.add(it[1])
        for f in prog.funcs.values():
            out = []; omp_nodes(f.get("body"), out)
            if not out: continue
            reach = f["n"] in seen or any(calls(prog, prog.one(s, "Simulation"), f["n"], set()) for s in seen)
            tag = f"{os.path.basename(f['file'])}:{f['line']} {f['n']}[{dim}D]"
            if not reach:
                try: direct(ck, prog, dim, f, tag)
                except Unsup as ex: ck.unk(f"{tag}: parallel construct not analysed: {ex}")
            cs = []; calls_in(f.get("body"), cs)
            for c in cs:
                if c["n"] in UNSAFE or c.get("q", "") in UNSAFE: ck.bad(tag, f"{c['n']}() at line {c.get('l')} draws from a process-wide generator inside a parallel construct: the result depends on the schedule")
                else: ck.ok()
    ck.extra["entry_points"] = len(its)
def calls(prog, f, name, seen):
    if f["n"] in seen: return False
    seen.add(f["n"]); out = []
    def w(n):
        if isinstance(n, dict):
            if n.get("k") in ("call", "mcall") and n.get("n"): out.append(n)
            for v in n.values(): w(v)
        elif isinstance(n, list):
            for v in n: w(v)
    w(f.get("body"))
    for c in out:
        if c["n"] == name: return True
        g = prog.funcs.get(c.get("usr"))
        if g is not None and calls(prog, g, name, seen): return True
    return False
def classes(prog):
    out = []
    for c, r in prog.records.items():
        if c != "ObjectVdb" and c != "ObjectPlate" and "ObjectGeneral" in anc(prog, c): out.append(c)
    return out
def anc(prog, c):
    out = []
    for b in prog.records.get(c, {}).get("bases", []): out.append(b); out += anc(prog, b)
    return out
def one(ck, dim, name, opt):
    prog = program(dim); fn_ = prog.one(name, "Simulation")
    f = transfer_inputs(dim); part_sizes(prog, f); f["exit"] = ZERO
    for k in ("use_musl", "pbc"):
        if k in opt: f[k] = opt[k]
    if "pm" in opt:
        f["plastic_model"] = Poly.c(prog.enum("PlasticModel", opt["pm"])); f["elastic_model"] = Poly.c(prog.enum("ElasticModel", opt["el"]))
        if opt["hl"]: f["hardening_law"] = Poly.c(prog.enum("HardeningLaw", opt["hl"]))
    over = {}
    objs = [{"cls": opt["obj"]}] if "obj" in opt else []
    S = Sim(prog, f, plates=[{"plate_type": Poly.c(prog.enum("PlateType", opt["plate"]))}] if "plate" in opt else [], objects=objs, over=over); I = S.I; I.acc = []
    lab = ",".join(f"{k}={v if isinstance(v, (str, int)) else v.op}" for k, v in opt.items() if v is not None and k not in ("el",))
    tag = f"{os.path.basename(fn_['file'])}:{fn_['line']} {name}[{dim}D{' ' + lab if lab else ''}]"
    try: S.call(name, [Opq("string")] if name == "saveParticleData" else [])
    except Unsup as ex:
        if "obj" in opt and "coefficient out of range" in str(ex): return      # shape defined in three dimensions only
        if not I.acc: ck.unk(f"{tag}: {ex} at {I.loc}"); return
        ck.unk(f"{tag}: analysed up to {ex} at {I.loc}")
    ck.use(I); judge(ck, I, tag)
def direct(ck, prog, dim, fd, tag):
    f = transfer_inputs(dim); part_sizes(prog, f)
    S = Sim(prog, f, plates=[{}], objects=[]); I = S.I; I.acc = []
    vals = [I.input("arg." + p["n"], p["t"]) for p in fd.get("params", [])]
    I.call_fn(fd, [], S.lv if fd.get("cls") else None, vals_=vals)
    ck.use(I); judge(ck, I, tag)
def judge(ck, I, tag):
    for site, var, op, kind in dict.fromkeys(I.redops):
        if kind is None: ck.unk(f"{tag}: combination of {var} in {site} has no closed form")
        elif kind in OPS.get(op, (op,)): ck.ok(f"{tag}: {var} combined by {op}")
        else: ck.bad(tag, f"{var} in {site} is combined across threads with {op} but each iteration contributes by {kind}")
    groups = {}
    for a in I.acc:
        if a["red"]: continue
        k = (a["mode"], a["root"], a["path"], a["region"], a["phase"], tuple(a["ws"]), tuple(a["inner"]), a["prot"], a["once"], a["wsid"], a["static"])
        if k in groups: groups[k]["known"] &= a["known"]
        else: groups[k] = dict(a)
    by = {}
    for a in groups.values(): by.setdefault((a["region"], a["phase"], a["root"]), []).append(a)
    for (rg, ph, root), xs in by.items():
        # split by leading field names
        fam = {}
        for a in xs: fam.setdefault(next((s[1] for s in a["path"] if s[0] == "f"), None) if a["path"] and a["path"][0][0] == "f" else None, []).append(a)
        if None in fam and len(fam) > 1: fam = {None: xs}
        for ys in fam.values():
            ws = [a for a in ys if a["mode"] == "W"]
            if not ws: ck.ok(); continue
            done = set(); ck.budget = 24; nv = len(ck.viol)
            for w in ws:
                for a in ys:
                    k = frozenset((id(w), id(a)))
                    if k in done or len(ck.viol) >= nv + 2: continue
                    done.add(k)
                    pair(ck, I, tag, w, a)
def fname(a): return leafname((a["root"], a["path"]))[:80]
def overlap(p, q):
    """None: disjoint; else list of index equalities (x, y) under which both denote overlapping storage"""
    eqs = []
    for s, t in zip(p, q):
        if s[0] == t[0] == "f":
            if s[1] != t[1]: return None
        elif s[0] == t[0] == "i": eqs.append((P(s[1]), P(t[1])))
        elif s[0] == t[0] == "c":
            for x, y in zip(s[1:], t[1:]):
                if x is None or y is None: continue
                x, y = P(x), P(y)
                if x.is_const() and y.is_const():
                    if x != y: return None
                else: eqs.append((x, y))
        elif "cont" in (s[0], t[0]): return eqs
        else: return eqs
    return eqs
def pair(ck, I, tag, w, a):
    if w["path"] and w["path"][-1] == ("f", "exit") or a["path"] and a["path"][-1] == ("f", "exit"): return ck.ok()
    if a["mode"] == "R" and a["path"] and a["path"][-1][0] == "cont" and w["path"][-1][0] != "cont" and len(w["path"]) >= len(a["path"]) and w["path"][:len(a["path"]) - 1] == a["path"][:-1]: return ck.ok()
    eqs = overlap(w["path"], a["path"])
    if eqs is None: return ck.ok()
    if set(w["prot"]) & set(a["prot"]): return ck.ok()
    if w["once"] and w["once"] == a["once"]: return ck.ok()
    what = f"{fname(w)} written at {where(w)}" + (f" and {'written' if a['mode'] == 'W' else 'read'} as {fname(a)} at {where(a)}" if a is not w else "")
    same = w["wsid"] is not None and w["wsid"] == a["wsid"] and w["ws"] and a["ws"]
    stat = w["static"] and a["static"] and w["ws"] and a["ws"] and len(w["ws"]) == len(a["ws"]) and all(dom.RANGES.get(x.id) == dom.RANGES.get(y.id) for x, y in zip(w["ws"], a["ws"]))
    if not eqs:
        if not (w["known"] | a["known"]): return ck.bad(tag, f"unprotected shared {what}: every thread may do so concurrently")
    tid = atom("in", "omp_tid").id
    if any(tid in vdeps(x) and x == y and any(dict(m).get(tid) for m in x.t) for x, y in eqs): return ck.ok()      # slot of the executing thread
    if (same or stat) and vbool(I, w) : return ck.unk(f"{tag}: packed element {what}")
    # proof: some index term determines the iteration
    if same or stat:
        bs = list(w["ws"]); left = set(b.id for b in bs)
        ren = {y.id: Poly.of(x) for x, y in zip(w["ws"], a["ws"])} if not same else {}
        for x, y in eqs:
            y2 = vsubst(y, ren) if ren else y
            if x != y2 or any(A(i).kind == "havoc" for i in vdeps(x)): continue
            cand = [b for b in bs if depends(x, b)] + [b for b in w["inner"] if depends(x, b)]
            if not cand: continue
            k = Poly.of(atom("in", "anyslot"))
            r = I.solve_idx(x, [(b, rng(b)) for b in cand], k)
            if r is not None: left -= {b.id for b in cand}
        if not left: return ck.ok(f"{tag}: {fname(w)} has one writer per iteration")
    # search for two iterations that meet
    ck.budget -= 1
    if ck.budget < 0: return ck.unk(f"{tag}: {what}: not searched")
    fr = lambda xs, t: {b.id: Poly.of(mark(b, t)) for b in xs}
    m2 = fr(a["ws"] + a["inner"], "'")
    if same: m2 = {**m2}
    cond = TRUE
    for x, y in eqs: cond = And(cond, eq(x, vsubst(y, m2)))
    for c in w["known"]: cond = And(cond, c)
    for c in a["known"]: cond = And(cond, vsubst(c, m2))
    if same or stat:
        d = FALSE
        for x, y in zip(w["ws"], a["ws"]): d = Or(d, Not(eq(Poly.of(x), m2[y.id])))
        cond = And(cond, d)
    for b in w["ws"] + w["inner"]: cond = And(cond, And(le(0, Poly.of(b)), lt(Poly.of(b), rng(b))))
    for b in a["ws"] + a["inner"]: cond = And(cond, And(le(0, m2[b.id]), lt(m2[b.id], vsubst(rng(b), m2))))
    if cond.op == "F": return ck.ok()
    unk = any(A(i).kind == "havoc" for x, y in eqs for i in vdeps(x) | vdeps(y))
    hit = None
    for s in range(3):
        env = Env(ck.n(20000, 60000), ck.seed + s, H)
        v = env.cond(cond)
        if v.any(): hit = (env, int(np.nonzero(v)[0][0])); break
    if hit and not unk: return ck.bad(tag, f"{what}: two threads meet, e.g. iterations {show(hit, w['ws'])} and {show(hit, [A(next(iter(m2[b.id].atoms()))) for b in a['ws']])}")
    if hit or unk: return ck.unk(f"{tag}: {what}: index not resolved")
    ck.obl += 1; ck.tested += 1
def show(hit, bs):
    e, j = hit
    return "(" + ",".join(str(int(e.atom(b)[j])) for b in bs) + ")" if bs else "(all threads)"
def where(a): return f"{os.path.basename(str(a['loc'][0]))}:{a['loc'][1]}"
def rng(b):
    r = dom.RANGES.get(b.id)
    return P(r[1]) if r else inp("cnt?", 0, True)
_m = {}
def mark(b, t):
    k = (b.id, t)
    if k not in _m:
        x = atom("var", f"other iteration {b.id}{t}"); _m[k] = x; dom.INTEGRAL.add(x.id)
        if b.id in dom.RANGES: dom.RANGES[x.id] = dom.RANGES[b.id]
    return _m[k]
def vbool(I, a):
    p = a["path"]
    if not p or p[-1][0] != "i": return False
    try: v = I.pget(I.S[a["root"]], p[:-1])
    except Exception: return False
    return isinstance(v, ArrayV) and v.et == "bool"
