from ..model import *
RULE = ("one arbitrary iteration of the time loop, from an arbitrary loop-carried state, as a guarded transition: number of steps, growth of time, frame and step counters, save events with the frame and time they see, and the exit condition, "
        "plus the guarded event sequence before and after the loop")
SAVES = "saveInfo saveParticleData saveGridData saveTiming saveAvgData".split()
def recs(name):
    def h(I, e):
        loc = I.loc
        for a in e["args"]: I.ev(a)
        I.loc = loc
        t = I.this(); I.event(("ev", name, I.peek(t + ("f", "frame")), I.peek(t + ("f", "time")))); return None
    return h
def step(fails):
    """advanceStep as an unknown that chooses a positive step size and may raise the abort flag"""
    def h(I, e):
        t = I.this(); tm, fr, cs = (P(I.peek(t + ("f", n))) for n in ("time", "frame", "current_time_step"))
        I.event(("ev", "advanceStep", fr, tm))
        dt = atom("fn", "stepsize", tm, fr, cs); dom.SIGNS[dt.id] = 1
        I.wr(t + ("f", "dt"), Poly.of(dt))
        if fails: I.wr(t + ("f", "exit"), ite(bvar("stepfails", tm, fr, cs), ONE, P(I.peek(t + ("f", "exit")))))
        return None
    return h
def events(evs, g=TRUE):
    """(guard, name, frame, time, where), loop events flagged"""
    for c, e in evs:
        c = And(g, c)
        if c.op == "F": continue
        if e[0] == "ev": yield c, e[1], P(e[2]), P(e[3]), e[-1]
        elif e[0] == "loop":
            for x in events(e[3], c): yield x[:1] + (x[1] + "@loop",) + x[2:]
def count(evs, name):
    r = ZERO
    for c, n, *_ in evs:
        if n == name: r = r + ite(c, ONE, ZERO)
    return r
def after(I):
    """events that follow the time loop"""
    evs = I.S["EV"]; k = 0
    for i, (c, e) in enumerate(evs):
        if e[0] == "loop" and any(n.startswith("advanceStep") for _, n, *_ in events(((c, e),))): k = i + 1
    return [x for x in events(evs[k:]) if not x[1].endswith("@loop")]
def nonzero(p): return Not(eq(p, 0))
def simulate(prog, fixed, fails):
    over = {"Simulation::advanceStep": step(fails)}
    for n in SAVES: over["Simulation::" + n] = recs(n)
    f = {"is_initialized": TRUE, "exit": ZERO, "elastic_model": Poly.c(prog.enum("ElasticModel", "Hencky"))}
    f.update(fixed)
    S = Sim(prog, f, plates=[], objects=[], over=over); I = S.I
    loops = []
    I.loop_hook = lambda d: loops.append(d) if any(n.startswith("advanceStep") for st in [d["end"]] + [o[1] for o in d["outs"].values()] for _, n, *_ in events(st["EV"][len(d["pre"]["EV"]):])) else None
    for n in ("end_frame", "frame", "current_time_step"): dom.INTEGRAL.add(atom("in", n).id); dom.SIGNS[atom("in", n).id] = 0
    S.call("simulate")
    return S, loops
def fld(S, store, n): return S.I.pget(store[S.root], S.f(n).path)
def run(ck):
    ck.rule = RULE
    H = hints(end_frame=ints(0, 6), current_time_step=ints(0, 9), time=pos(.01, 4), min_dt=pos(1e-3, .3), fps=pos(.3, 3), stepsize=pos(1e-3, 1), t0=pos(.01, 6), frame0=ints(0, 6), step0=ints(0, 9))
    for dim in (2, 3):
        prog = program(dim); fs = prog.one("simulate", "Simulation"); tag = f"{os.path.basename(fs['file'])}:{fs['line']} simulate[{dim}D]"
        for save in (True, False):
            for grid in (True, False):
                tg = f"{tag} save_sim={int(save)} save_grid={int(grid)}"
                try: S, loops = simulate(prog, {"save_sim": B(save), "save_grid": B(grid)}, False)
                except Unsup as ex: ck.unk(f"{tg}: {ex}"); continue
                ck.use(S.I)
                if len(loops) != 1: ck.unk(f"{tg}: {len(loops)} loops contain the time step"); continue
                d = loops[0]; n0 = len(d["pre"]["EV"])
                frame_dt = ONE / inp("fps"); final = inp("end_frame") * frame_dt; mind = P(S.get("min_dt"))
                mp = {}
                for n, q in (("time", inp("t0", 0)), ("frame", inp("frame0", 0, True)), ("current_time_step", inp("step0", 0, True))):
                    a = list(P(fld(S, d["entry"], n)).atoms())
                    if len(a) == 1 and dom.A(a[0]).kind == "havoc": mp[a[0]] = q
                for k in ("entry", "end", "nc", "cond"):
                    if d[k] is not None: d[k] = vsubst(d[k], mp)
                d["outs"] = {k: (vsubst(c, mp), vsubst(st, mp), v) for k, (c, st, v) in d["outs"].items()}
                ent = {n: P(fld(S, d["entry"], n)) for n in ("time", "frame", "current_time_step")}
                prs = [("frame length", P(fld(S, d["entry"], "frame_dt")), frame_dt), ("end time", P(fld(S, d["entry"], "final_time")), final),
                       ("initial frame number", P(fld(S, d["pre"], "frame")), ZERO), ("initial time", P(fld(S, d["pre"], "time")), ZERO)]
                pe = list(events(d["pre"]["EV"]))
                prs += [("initial state saved", B(save), nonzero(count(pe, "saveParticleData"))), ("run information saved", B(save), nonzero(count(pe, "saveInfo"))), ("no step before the loop", count(pe, "advanceStep"), ZERO)]
                for c, n, fr, tm, w in pe:
                    if n == "saveParticleData": prs += [(f"initial save at {w[0]}:{w[1]} has frame 0", Or(Not(c), eq(fr, 0)), TRUE), (f"initial save at {w[0]}:{w[1]} has time 0", Or(Not(c), eq(tm, 0)), TRUE)]
                    if not save and n.startswith("save"): ck.bad(tg, f"{n} at {w[0]}:{w[1]} although saving is disabled")
                ck.cmp(tg + " before the loop", prs, H, n=200)
                # one iteration; cond: the loop is entered; exits: normal end, break, return
                go = d["cond"] if d["cond"] is not None else TRUE
                ends = [("next", d["nc"], d["end"])] + [(k, c, st) for k, (c, st, v) in d["outs"].items()]
                # frame and time of an iteration that starts: fewer than end_frame frames done, frame end not reached yet
                t, fr, cs = ent["time"], ent["frame"], ent["current_time_step"]
                left = frame_dt * (fr + 1) - t
                stopped = ZERO; pairs = []
                dts = Poly.of(atom("fn", "stepsize", t, fr, cs)); T1 = t + dts; rest = frame_dt * (fr + 1) - T1; toend = final - T1
                # tolerance band: at the end of a frame when less than one minimum step is left, not when more than 1.5 are
                pre = And(go, le(ZERO, fr), lt(fr, inp("end_frame")), le(ZERO, t), lt(mind, left), le(dts, mx(left, mind)), lt(mind * 2, frame_dt), lt(t, final))
                any_stop = FALSE
                for kind, c, st in ends:
                    if c.op == "F": continue
                    evs = list(events(st["EV"][n0:]))
                    F1 = P(fld(S, st, "frame")); now = P(fld(S, st, "time")); g = c
                    def q(lab, cond): pairs.append((f"{lab} [{kind}]", Or(Not(g), cond), TRUE))
                    steps = count(evs, "advanceStep")
                    idle = eq(steps, 0)          # leaves without doing a step (loop condition tested inside the body)
                    if kind != "next": pairs.append((f"leaves without a step only when all frames are done [{kind}]", Or(Not(g), Or(Not(idle), le(inp("end_frame"), fr))), TRUE))
                    q("one step per iteration", eq(steps, 1))
                    q("time grows by the step", eq(now, T1)); q("step counter grows by one", eq(P(fld(S, st, "current_time_step")), cs + 1))
                    q("frame ends when its end is reached", Or(Not(lt(rest, mind)), eq(F1, fr + 1)))
                    q("frame does not end early", Or(lt(rest, mind * Poly.c(3) / 2), eq(F1, fr)))
                    q("frame grows by at most one", Or(eq(F1, fr), eq(F1, fr + 1)))
                    ended = eq(F1, fr + 1)
                    ps = count(evs, "saveParticleData"); gs = count(evs, "saveGridData")
                    if save:
                        q("particles saved at the end of a frame", Or(Not(ended), nonzero(ps)))
                        if grid: q("grid saved at the end of a frame", Or(Not(ended), nonzero(gs)))
                        else: q("no grid file", eq(gs, 0))
                        q("nothing saved within a frame", Or(ended, And(eq(ps, 0), eq(gs, 0))))
                    else: q("nothing saved", And(eq(ps, 0), eq(gs, 0)))
                    for c2, n, f2, t2, w in evs:
                        if n.startswith("save") and not save: ck.bad(tg, f"{n} at {w[0]}:{w[1]} although saving is disabled")
                        if n in ("saveParticleData", "saveGridData"):
                            q(f"{n} at {w[0]}:{w[1]} under the number of the finished frame", Or(Not(c2), eq(f2, F1))); q(f"{n} at {w[0]}:{w[1]} at the frame's end time", Or(Not(c2), eq(t2, T1)))
                        if n in ("saveInfo", "saveTiming"): q(f"{n} at {w[0]}:{w[1]} not within the loop", Not(c2))
                    if kind != "next": q("stops only at the end", Or(lt(toend, mind * Poly.c(3) / 2), le(inp("end_frame"), F1)))
                    if kind == "next": q("stops at the end", Or(le(mind, toend), le(inp("end_frame"), F1)))
                    if kind == "R": ck.bad(tg, f"the loop at {d['site']} returns although no error was raised")
                ck.cmp(f"{tg} loop at {d['site']}", pairs, H, pre=pre, n=ck.n(20000, 60000), boundary=False, maxcells=3000)
                # condition of the loop itself: goes on exactly while frames are missing
                ck.cmp(f"{tg} loop at {d['site']}", [("runs while frames are missing", Or(go, Not(And(lt(fr, inp("end_frame")), lt(mind * 2, final - t)))), TRUE)], H, pre=And(le(0, fr), le(0, t)), n=400, boundary=False)
                if go.op != "T": ck.cmp(f"{tg} loop at {d['site']}", [("stops when all frames are done", Or(Not(go), lt(fr, inp("end_frame"))), TRUE)], H, pre=le(0, fr), n=400, boundary=False)
                post = after(S.I); Fe, Te = P(S.get("frame")), P(S.get("time"))
                pairs = [("timing saved at the end", B(save), nonzero(count(post, "saveTiming"))), ("no step after the loop", count(post, "advanceStep"), ZERO)]
                for c2, n, f2, t2, w in post:      # a frame written after the loop is the final one
                    if n.startswith("save") and not save: ck.bad(tg, f"{n} at {w[0]}:{w[1]} although saving is disabled")
                    if n == "saveGridData" and not grid: ck.bad(tg, f"{n} at {w[0]}:{w[1]} although no grid data is requested")
                    if n in ("saveParticleData", "saveGridData"): pairs += [(f"{n} at {w[0]}:{w[1]} after the loop under the number of the last frame", Or(Not(c2), eq(f2, Fe)), TRUE), (f"{n} at {w[0]}:{w[1]} after the loop at the final time", Or(Not(c2), eq(t2, Te)), TRUE)]
                if any(n in ("saveParticleData", "saveGridData") for _, n, *_ in post):
                    ck.cmp(f"{tg} loop at {d['site']}", [(f"left only at the end of a frame [{kind}]", Or(Not(c), eq(P(fld(S, st, "frame")), fr + 1), eq(count(list(events(st["EV"][n0:])), "advanceStep"), 0)), TRUE) for kind, c, st in ends if kind != "next"], H, pre=pre, n=ck.n(20000, 60000), boundary=False, maxcells=3000)
                ck.cmp(tg + " after the loop", pairs, H, n=200)
