from ..plast import *
RULE = ("value numbers of pressure and deviatoric stress of the stored deformation, per plastic model x hardening law x viscous formulation: elastic exactly inside the yield condition, otherwise on the yield surface or at the tip (rate-independent), "
        "on the overstress law evaluated with the reported shear rate (viscous, mu(I)), on the hardened ellipse (cam-clay, for every value the iteration may leave); convergence tests of the iterative laws are the laws' own residuals")
def stress(R):
    """pressure and deviatoric stress measure of the stored deformation itself"""
    d = R.dim; F = R.new["F"]; h = [fn("log", sum_([R.U.at(i, k) * F.at(i, j) * R.V.at(j, k) for i in range(d) for j in range(d)])) for k in range(d)]
    t = sum_(h); return -R.K * t, R.e * sqrt(sum_([(x - t / d) ** 2 for x in h]))
def sel(c, a, b): return tuple(ite(c, x, y) for x, y in zip(a, b))
def residuals(I):
    """quantities whose magnitude a loop's convergence exit bounds, relative to the tolerance it uses"""
    out = []
    for site, flag, c in I.breaks:
        ls = set(); all_conds(c, ls)
        for l in ls:
            if l.op not in ("lt", "le"): continue
            for i in l.a.atoms():
                a = dom.A(i)
                if a.kind == "fn" and a.args[0] == "abs" and l.a.t.get(((i, 1),)) is not None and l.a.t.get(()): out.append((site, flag, Poly.c(-l.a.t[((i, 1),)] / l.a.t[()]) * a.args[1]))
    return out
def ell(M, P0, b, p): return M * sqrt((P0 - p) * (b * P0 + p))
def cases():
    for dim in (2, 3):
        for m in ("VM", "DP", "DPSoft", "DPMui"): yield dim, m, None, {}
        for m in ("VMVisc", "DPVisc"):
            for dl in (False, True):
                for one_ in (True, False): yield dim, m, None, dict(dl=dl, lin=one_)
        for h in HARD["MCC"]: yield dim, "MCC", h, {}
        for h in HARD["MCCVisc"]:
            for dl, lin in ((True, True), (False, True), (False, False)): yield dim, "MCCVisc", h, dict(dl=dl, lin=lin)
        for h in HARD["MCCMui"]: yield dim, "MCCMui", h, {}
def run(ck):
    ck.rule = RULE
    for dim in (2, 3): program(dim)
    ck.parallel(lambda it: one(ck, *it), list(cases()))
def one(ck, dim, m, h, o):
    prog = program(dim); fp = prog.one("plasticity", "Simulation")
    tag = f"{os.path.basename(fp['file'])}:{fp['line']} plasticity[{dim}D {m}{'/' + h if h else ''}{' Duvaut-Lions' if o.get('dl') else ' Perzyna' if 'dl' in o else ''}{' exponent 1' if o.get('lin') else ' exponent /= 1' if 'lin' in o else ''}]"
    fx = {}
    if "dl" in o: fx["use_duvaut_lions_formulation"] = B(o["dl"])
    if o.get("lin"): fx["visc_exponent"] = ONE; 
    if m == "VMVisc" and o["lin"]: fx["xi"] = ZERO
    try:
        R = Run(prog, m, "Hencky", h, fx); I = R.I; S = R.S
        pairs, pc, basis = obligations(R, m, h, o)
    except Unsup as ex: ck.unk(f"{tag}: {ex}"); return
    ck.use(I); PHX = PH.with_(visc_exponent=pos(.4, 1.8))
    ck.cmp(tag, pairs, PHX, pre=And(pre(R), pc, lt(fabs(R.n - R.ddev), 6), lt(fabs(R.tr - R.dvol), 6)), n=ck.n(400, 3000), boundary=False, probe_s=0, maxcells=ck.n(250, 2000), setup=setup(dim), rtol=1e-5, atol=1e-6, exact_s=2.0, basis=basis)
def obligations(R, m, h, o):
    S, I = R.S, R.I; p1, q1 = stress(R); pt, qt, K, e, fm = R.pt, R.qt, R.K, R.e, R.fm
    dt, M, c0, tol, tv, xi, beta = (inp(x) for x in ("dt", "M", "q_cohesion", "stress_tolerance", "visc_time", "xi", "beta"))
    ed, ev, pr = (P(R.old[x]) for x in ("eps_pl_dev", "eps_pl_vol", "eps_pl_vol_pradhana"))
    up = I.truth(S.get("use_pradhana")); mibf = I.truth(S.get("use_mibf")); g1 = P(R.new["delta_gamma"])
    if m == "VMVisc" and o["lin"]: xi = ZERO
    m_ = ONE if o.get("lin") else inp("visc_exponent")
    shift = ite(up, -K * pr, ZERO); basis = [p1]; pc = TRUE
    def both(w, lab=""): return [("pressure" + lab, p1, w[0]), ("deviatoric stress" + lab, q1, w[1])]
    def linear(qy):  # closed forms of the linear overstress laws
        return qy + (qt - qy) * (tv / dt) / (1 + tv / dt) if o["dl"] else qt - fm * (qt - qy) / (fm + qy * tv / dt)
    def law(dg, qy):  # residual of the overstress law for a shear increment dg
        return qt - qy - fm * (fn("pow", tv / dt * dg, m_) + dg) if o["dl"] else (qt - fm * dg) * fn("pow", dt / (tv * dg + dt), m_) - qy
    def iterative(when, qy):
        out = []; rs = residuals(I)
        H = next((i for i in sorted(any_deps(R.ddev)) if dom.A(i).kind == "havoc" and "delta_gamma" in str(dom.A(i).args[0])), None)
        if not rs: raise Unsup("no convergence test found")
        for site, flag, r in rs:
            hv = [i for i in any_deps(r) if dom.A(i).kind == "havoc"]
            if not hv: continue
            dg = (qt - R.q1) / fm
            out.append((f"convergence test at {site} measures the residual of the overstress law", ite(And(when, flag), r ** 2, ZERO), ite(And(when, flag), (100 * law(dg, qy(dg))) ** 2, ZERO)))
        return out
    if m == "VM":
        qm = inp("q_max"); return both((pt, ite(lt(qm, qt), qm, qt))), TRUE, basis
    if m == "DP":
        qy = M * pt + c0; w = sel(lt(qy, 0), (-c0 / M, ZERO), sel(lt(qy, qt), (pt, qy), (pt, qt)))
        return both(w), TRUE, basis
    if m == "DPSoft":
        t0 = -c0 / M; tip = t0 * fn("exp", -xi * ed); Pp = pt + shift; qy = M * (Pp - tip); ts = t0 * fn("exp", -xi * (ed + R.n - qy / e))
        w = sel(le(Pp, tip), (tip, ZERO), sel(le(qt, qy), (pt, qt), sel(lt(Pp, ts), (ts, ZERO), (pt, M * (Pp - ts)))))
        return both(w), TRUE, basis
    if m == "VMVisc":
        qm, qn, pm = inp("q_max"), inp("q_min"), inp("p_min"); pc = lt(qn, qm)
        qy = lambda x: qn + (qm - qn) * fn("exp", -xi * (ed + x))
        cap = lt(pt, pm * fn("exp", -xi * ev)); pl = And(Not(cap), lt(qy(ZERO), qt))
        if o["lin"]: return both(sel(cap, (ZERO, ZERO), (pt, ite(pl, linear(qy(ZERO)), qt)))), pc, basis
        out = [("pressure", p1, ite(cap, ZERO, pt)), ("deviatoric stress where no overstress acts", ite(pl, ZERO, q1), ite(Or(cap, pl), ZERO, qt))]
        return out + iterative(pl, lambda dg: qy(R.d ** -1 * dg)), And(pc, Not(eq(inp("visc_exponent"), 1)), lt(0, R.q1), le(0, R.ddev)), basis
    if m == "DPVisc":
        tip = -c0 / M; Pp = pt + shift; qy = M * Pp + c0; left = lt(Pp, tip); pl = And(Not(left), lt(qy, qt))
        mu_ = ite(mibf, P(R.new["muI"]), ZERO)
        fr = ("mobilised friction", mu_, ite(mibf, ite(pl, (q1 - c0) / Pp, M), ZERO))
        if o["lin"]: return both(sel(left, (tip, ZERO), (pt, ite(pl, linear(qy), qt)))) + [fr], pc, basis
        out = [("pressure", p1, ite(left, tip, pt)), ("deviatoric stress where no overstress acts", ite(pl, ZERO, q1), ite(Or(left, pl), ZERO, qt)), fr]
        return out + iterative(pl, lambda dg: qy), And(Not(eq(inp("visc_exponent"), 1)), lt(0, R.q1), le(0, R.ddev)), basis
    if m == "DPMui":
        m1, m2, Q = inp("mu_1"), inp("mu_2"), inp("fac_Q"); tip = -c0 / m1; Pp = pt + shift; qy = m1 * Pp + c0; left = lt(Pp, tip); pl = And(Not(left), lt(qy + tol, qt))
        ps = Pp - tip + tol; mu_i = m1 + (m2 - m1) / (Q * sqrt(ps) / g1 + 1)
        w = sel(left, (tip, ZERO), (pt, ite(pl, qy + (mu_i - m1) * ps, qt)))
        return both(w, " (overstress of the mu(I) law at the reported shear rate)") + [("shear rate positive when yielding", ite(pl, ite(lt(0, g1), ONE, ZERO), ONE), ONE), ("recorded friction coefficient", P(R.new["muI"]), ite(pl, mu_i, m1)),
                ("recorded viscosity", P(R.new["viscosity"]), ite(pl, (mu_i - m1) * ps / g1, ZERO))], And(lt(m1, m2), lt(tol, fabs(Pp - tip))), basis
    # ---- cam-clay family
    slope = inp("mu_1") if m == "MCCMui" else M; p0 = inp("p0")
    hard = {"NoHard": lambda x: p0, "ExpoExpl": lambda x: p0 * fn("exp", -xi * x), "ExpoImpl": lambda x: p0 * fn("exp", -xi * x)}.get(h, lambda x: K * fn("sinh", -xi * x + fn("asinh", p0 / K)))
    impl = h.endswith("Impl"); P_ = hard(ev); pc = lt(Poly.c(dom.Fr(2, 100)), P_)
    y = slope ** 2 * (pt - P_) * (pt + beta * P_) + qt ** 2; pl = lt(0, y)
    out = [("treated as plastic exactly when the ellipse is violated", R.count, ite(pl, ONE, ZERO)), ("pressure of an elastic state", ite(pl, ZERO, p1), ite(pl, ZERO, pt)), ("deviatoric stress of an elastic state", ite(pl, ZERO, q1), ite(pl, ZERO, qt))]
    b = 1 / (1 + tv / dt) if (m == "MCCVisc" and o["dl"]) else ONE
    ps_ = pt + (p1 - pt) / b; qs = qt + (q1 - qt) / b   # end point of the return mapping
    P1 = hard(P(R.old["eps_pl_vol"]) + (ps_ - pt) / K) if impl else P_
    basis.append(ps_); mg = Poly.c(dom.Fr(1, 10**4)); real_ = And(pl, lt(-beta * P1 + mg, ps_), lt(ps_, P1 - mg))   # away from the tips, where the root is ill-conditioned
    if impl: real_ = And(real_, lt(Poly.c(dom.Fr(1, 10**6)), e * (R.n - R.ddev / b)))   # an end point clipped onto the axis has no deviatoric part
    el_ = ell(slope, P1, beta, ps_)
    eps = Poly.c(dom.Fr(1, 10**6))
    if not impl: out.append(("pressure within the range of the ellipse", ite(pl, ite(And(le(-beta * P_ - eps, ps_), le(ps_, P_ + eps)), ONE, ZERO), ONE), ONE))
    if m == "MCC" or (m == "MCCVisc" and o["dl"]): out.append(("deviatoric stress on the hardened ellipse", ite(real_, qs, ZERO), ite(real_, el_, ZERO)))
    elif m == "MCCVisc":
        on = And(real_, lt(el_, qt))
        if o["lin"]: out.append(("deviatoric stress on the linear overstress law over the ellipse", ite(on, q1, ZERO), ite(on, qt - fm * (qt - el_) / (fm + el_ * tv / dt), ZERO)))
    else:
        m1, m2, Q = inp("mu_1"), inp("mu_2"), inp("fac_Q"); on = And(real_, lt(el_ + tol, qt), lt(q1 + tol, qt)); pc = And(pc, lt(m1, m2))
        Pc = mx(P1, ps_ + tol) if impl else P_; sp = ps_ + beta * Pc + tol; mu_i = m1 + (m2 - m1) / (Q * sqrt(sp) / g1 + 1); ov = (mu_i - m1) * sqrt((Pc - ps_) * sp); above = And(on, lt(el_, q1 - eps))
        if impl: cl = lt(fabs(q1 - ov), eps * 10 * (1 + qt)); on, above = And(on, Not(cl)), And(above, Not(cl))   # end point clipped onto the axis: overstress above zero
        out += [("deviatoric stress on the mu(I) overstress law over the ellipse", ite(above, q1, ZERO), ite(above, el_ + ov, ZERO)), ("deviatoric stress not below the ellipse", ite(on, ite(le(el_ - eps, q1), ONE, ZERO), ONE), ONE)]
        out += [("recorded friction coefficient", ite(above, P(R.new["muI"]), ZERO), ite(above, mu_i, ZERO)), ("recorded viscosity", ite(above, P(R.new["viscosity"]), ZERO), ite(above, ov / g1, ZERO)),
                ("recorded friction coefficient without yielding", ite(pl, ZERO, P(R.new["muI"])), ite(pl, ZERO, m1))]
    if m != "MCCMui":
        if impl: P1 = hard(P(R.new["eps_pl_vol"]))
        in_ = And(mibf, real_, lt(-beta * P1 + tol, ps_), lt(ps_, P1 - tol))
        fr = ite(in_, P(R.new["muI"]), ZERO)
        qf = qs if (m == "MCC" or o.get("dl")) else q1
        out += [("mobilised friction", fr, ite(in_, qf / sqrt((ps_ + beta * P1) * (P1 - ps_)), ZERO)), ("mobilised friction of an elastic state", ite(And(mibf, Not(pl)), P(R.new["muI"]), ZERO), ite(And(mibf, Not(pl)), M, ZERO))]
    return out, pc, basis
