from ..model import *
from .c03 import S0
RULE = "value numbers of dt and gravity after updateDt, relative to the value numbers of the limits, in every guard cell; limits established by the set-up part of simulate()"
def run(ck):
    ck.rule = RULE
    from .c02 import derived
    H = hints(Np=ints(3, 9), frame=ints(0, 9), time=pos(0.01, 4), gravity=real(-10, 10), min_dt=pos(1e-6, .2), dt_max=pos(.02, 1), frame_dt=pos(.1, 1), final_time=pos(1, 5), gravity_time=pos(0.1, 4), cfl=pos(.1, 1),
              **{"particles.v": lambda u: np.where(u < .15, 0, 2 * u - 1)})
    dom.INTEGRAL.add(atom("in", "frame").id); dom.SIGNS[atom("in", "frame").id] = 0
    for dim in (2, 3):
        prog = program(dim); fu = prog.one("updateDt", "Simulation")
        f = {}; part_sizes(prog, f)
        S = Sim(prog, f, plates=[], objects=[]); I = S.I
        tag = f"{os.path.basename(fu['file'])}:{fu['line']} updateDt[{dim}D]"
        try:
            gf = S.get("gravity_final"); g0 = S.get("gravity"); special = I.truth(S.get("gravity_special"))
            S.call("updateDt")
            dt = P(S.get("dt")); g = S.get("gravity")
            b = I.binder(inp("Np")); v = I.elem_in(S0(S, "v"), Poly.of(b))
            key = ZERO
            for x in v.e: key = key + x * x
            k = I.argidx("max", subst(key, {b.id: Poly.of(atom("var", "•"))}), inp("Np"))
            vm = I.elem_in(S0(S, "v"), k); s2 = ZERO
            for x in vm.e: s2 = s2 + x * x
            sp = sqrt(s2); mind = P(S.get("min_dt")); t = inp("time")
            fast = lt(Poly.c(dom.Fr(1, 10**10)), sp)
            left = inp("frame_dt") * (inp("frame") + 1) - t; end = inp("final_time") - t
            lim = mn(mn(mn(inp("dt_max"), left), end), ite(fast, inp("cfl") * inp("dx") / sp, inp("dt_max")))
            small = le(dt, mind)
            pairs = [("never below the minimum step", le(mind, dt), TRUE), ("elastic limit", Or(small, le(dt, inp("dt_max"))), TRUE), ("frame end", Or(small, le(dt, left)), TRUE), ("simulation end", Or(small, le(dt, end)), TRUE),
                     ("CFL limit of the fastest particle", Or(small, Or(Not(fast), le(dt * sp, inp("cfl") * inp("dx")))), TRUE), ("time step", dt, mx(mind, lim))]
            ramp = [ite(special, ite(lt(t, inp("gravity_time")), a * t / inp("gravity_time"), a), c) for a, c in zip(gf.e, g0.e)]
            pairs += [(f"gravity({d})", g.e[d], ramp[d]) for d in range(dim)]
        except Unsup as ex: ck.unk(f"{tag}: {ex} at {I.loc}"); continue
        ck.use(I); ck.cmp(tag, pairs, H, n=ck.n(1500, 8000), boundary=False, maxcells=2000)
        # limits set up by simulate()
        S = derived(prog); I = S.I; fs = prog.one("simulate", "Simulation"); tag = f"{os.path.basename(fs['file'])}:{fs['line']} simulate set-up[{dim}D]"
        S2 = derived(prog, {"end_frame": inp("end_frame")}) if False else None
        gi = Sim(prog, {}, plates=[], objects=[]).get("gravity")
        ck.use(I)
        ck.cmp(tag, [("elastic limit", P(S.get("dt_max")), inp("cfl_elastic") * inp("dx") * sqrt(inp("rho") / inp("E"))), ("frame length", P(S.get("frame_dt")), ONE / inp("fps")), ("end time", P(S.get("final_time")), ZERO),
                     ("start time", P(S.get("time")), ZERO)] + [(f"full gravity({d})", S.get("gravity_final").e[d], gi.e[d]) for d in range(dim)], H, n=100)
