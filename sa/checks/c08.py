from ..model import *
RULE = "for every analytical terrain class the value number of the normal is parallel to the gradient of the surface function extracted from the membership test, of unit length and oriented from occupied to free"
def solve(e, ids):
    """substitution placing a point on e == 0: linear coordinate, else a coordinate occurring only squared"""
    for i in reversed(ids):
        if any(j != i and i in any_deps(Poly.of(A(j))) for j in e.atoms()): continue
        ex = {dict(m).get(i, 0) for m in e.t}
        if ex == {0, 1}:
            a = Poly({tuple(x for x in m if x[0] != i): c for m, c in e.t.items() if dict(m).get(i, 0) == 1}); b = Poly({m: c for m, c in e.t.items() if dict(m).get(i, 0) == 0})
            return [({i: -b / a}, TRUE)]
    for i in ids:
        if any(j != i and i in any_deps(Poly.of(A(j))) for j in e.atoms()): continue
        ex = {dict(m).get(i, 0) for m in e.t}
        if ex == {0, 2}:
            a = Poly({tuple(x for x in m if x[0] != i): c for m, c in e.t.items() if dict(m).get(i, 0) == 2}); b = Poly({m: c for m, c in e.t.items() if dict(m).get(i, 0) == 0})
            s = Poly.of(atom("fn", "sqrt", -b / a))
            return [({i: s}, lt(0, -b / a)), ({i: -s}, lt(0, -b / a))]
    return []
def run(ck):
    ck.rule = RULE
    cube = lambda u: np.where(u < .5, (4 * u - 1) ** 3, 2 * (2 * u - 1.5))
    for dim in (2, 3):
        prog = program(dim)
        classes = sorted(c for c, r in prog.records.items() if "ObjectGeneral" in prog_bases(prog, c) and c != "ObjectVdb")
        for c in classes:
            if not prog.by_name("inside", c) or not prog.by_name("normal", c): continue
            fi = prog.one("inside", c); fn_ = prog.one("normal", c)
            S = Sim(prog, {}, plates=[], objects=[dict(cls=c)]); I = S.I; o = LV(S.object_roots[0], ())
            X = Mat(dim, 1, [inp(f"X{d}") for d in range(dim)]); ids = [atom("in", f"X{d}").id for d in range(dim)]
            H = hints(X0=cube, X1=cube, X2=cube, y_ground=real(-1, 1), height=pos(.001, .2), cut=lambda u: -1 - 2 * u)
            tag = f"{os.path.basename(fn_['file'])}:{fn_['line']} {c}::normal[{dim}D]"
            try: ins = I.truth(S.call("inside", [X], c, o)); n = S.call("normal", [X], c, o)
            except Unsup as ex:
                if dim == 2 and 'out of range' in str(ex): continue      # three-dimensional terrain
                ck.unk(f"{tag}: {ex} at {I.loc}"); continue
            ck.use(I)
            cs = set(); all_conds(ins, cs)
            leaves = sorted({l if l.op == "lt" else Not(l) for l in cs if l.op in ("lt", "le")}, key=repr)
            surf = [l for l in leaves if l.op == "lt" and any_deps(l.a) & set(ids)]
            if len(surf) > 1: surf = [l for l in surf if len(any_deps(l.a) & set(ids)) > 1] or surf   # planar cut-offs of a curved terrain are not part of its surface
            if not surf: ck.unk(f"{tag}: no surface in the membership test"); continue
            for l in surf:
                e = l.a; others = [x for x in leaves if x != l]
                ori = None
                import itertools
                for tv in itertools.product((True, False), repeat=len(others)):
                    m = {}
                    for x, t in zip(others, tv): m[x] = B(t); m[Not(x)] = B(not t)
                    def val(t): mm = dict(m); mm[l] = B(t); mm[Not(l)] = B(not t); return Rewriter(lambda a: None, lambda q: mm.get(q)).cond(ins).op
                    a, b = val(True), val(False)
                    if a != b and a in "TF" and b in "TF": ori = 1 if a == "T" else -1; break
                if ori is None: ck.unk(f"{tag}: orientation of {cond_str(l)}"); continue
                g = [diff(e, A(i)) * ori for i in ids]
                subs = solve(e, ids)
                if not subs: ck.unk(f"{tag}: surface {poly_str(e)}"); continue
                for sb, pre in subs:
                    N_ = [subst(x, sb) for x in n.e]; G = [subst(x, sb) for x in g]
                    pairs = [("unit length", sum((x * x for x in N_), ZERO), ONE)]
                    gn = sqrt(sum((x * x for x in G), ZERO))
                    pairs += [(f"normal({d})", N_[d], G[d] / gn) for d in range(dim)]
                    ck.cmp(tag, pairs, H, pre=pre, n=ck.n(800, 6000), boundary=False, rtol=1e-6)
        if not classes: raise Anchor("no terrain classes")
def prog_bases(prog, c):
    out = set()
    for b in prog.records.get(c, {}).get("bases", []):
        b = b if isinstance(b, str) else b.get("n", "")
        out.add(b); out |= prog_bases(prog, b)
    return out
