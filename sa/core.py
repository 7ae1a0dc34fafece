"""Check driver: obligations, violations, known findings, evidence."""
import os, sys, json, time, traceback
from .dom import *
from . import dom, vals, frontend
from .vals import *
from .interp import Interp
from .cells import *
from .frontend import Anchor, FrontendError, VERIF

class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time(); self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obl = 0; self.exact = 0; self.tested = 0; self.cells = 0
        self.und = []; self.viol = []; self.samples = []; self.rule = ""; self.functions = set(); self.notes = set(); self.extra = {}; self.assumptions = []
        self.thorough = tier == "thorough"
    def n(self, quick, thorough): return thorough if self.thorough else quick
    # --- recording
    def ok(self, what=None):
        self.obl += 1; self.exact += 1
        if what and len(self.samples) < 60: self.samples.append(what)
    def bad(self, construct, msg):
        self.obl += 1
        if not any(v[0] == construct and v[1] == msg for v in self.viol): self.viol.append((construct, msg))
    def unk(self, what):
        self.obl += 1
        self.und.append(str(what)[:300])
    def parallel(self, fn, items, workers=None):
        """fn(item) records into self; forked workers share the analysis so far, results are merged in item order"""
        import pickle, tempfile
        items = list(items); workers = workers or min(8, os.cpu_count() or 1, len(items) or 1)
        if workers <= 1:
            for x in items: fn(x)
            return
        pids = []
        for w in range(workers):
            tmp = tempfile.NamedTemporaryFile(delete=False, prefix="sa"); tmp.close()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    out = []
                    for k in range(w, len(items), workers):
                        c = Check(self.pid, self.tier); fn_self = fn
                        self.__dict__.update({a: v for a, v in c.__dict__.items() if a not in ("t0", "rule")})
                        try: fn(items[k])
                        except (Anchor, FrontendError): raise
                        except Exception as ex:
                            tb = traceback.extract_tb(ex.__traceback__)[-1]; self.unk(f"{items[k] if not callable(items[k]) else ''}: analysis failed: {type(ex).__name__} {ex} at {os.path.basename(tb.filename)}:{tb.lineno}")
                        out.append((k, {a: getattr(self, a) for a in ("obl", "exact", "tested", "cells", "und", "viol", "samples", "functions", "notes", "extra")}))
                    with open(tmp.name, "wb") as f: pickle.dump(out, f)
                    rc = 0
                except (Anchor, FrontendError) as ex:
                    with open(tmp.name, "wb") as f: pickle.dump(("anchor", str(ex)), f)
                    rc = 0
                except BaseException: traceback.print_exc()
                finally: sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
            pids.append((pid, tmp.name))
        res = []; err = None
        for pid, name in pids:
            _, stt = os.waitpid(pid, 0)
            if stt == 0:
                with open(name, "rb") as f: r = pickle.load(f)
                if isinstance(r, tuple): err = Anchor(r[1])
                else: res += r
            else: err = err or RuntimeError("worker failed")
            os.unlink(name)
        if err: raise err
        for _, d in sorted(res, key=lambda x: x[0]):
            self.obl += d["obl"]; self.exact += d["exact"]; self.tested += d["tested"]; self.cells += d["cells"]; self.und += d["und"]
            for v in d["viol"]:
                if v not in self.viol: self.viol.append(v)
            self.samples = (self.samples + d["samples"])[:60]; self.functions |= d["functions"]; self.notes |= d["notes"]
            for a, v in d["extra"].items(): self.extra.setdefault(a, v)
    def use(self, I):
        self.functions |= I.inlined; self.notes |= set(I.notes)
    def cmp(self, construct, pairs, hints, pre=TRUE, n=None, **kw):
        """pairs: (label, got, want)"""
        pairs = [(l, conv(g), conv(w)) for l, g, w in pairs]
        n = n or self.n(500, 1500)
        r = compare(pairs, hints, pre, n=n, seed=self.seed, boundary=kw.pop("boundary", True), **kw)
        self.obl += max(r.cells, 1) * len(pairs); self.cells += r.cells; self.exact += r.exact; self.tested += r.tested
        if r.cells == 0: self.und.append(f"{construct}: no cell satisfies the precondition")
        if r.undecided: self.und.append(f"{construct}: {r.undecided} cell comparisons without a definite value")
        for lab, msg in r.bad[:60]: self.viol.append((construct, f"{lab}: {msg}"))
        if len(self.samples) < 60: self.samples.append(f"{construct}: {len(pairs)} value pairs in {r.cells} cells")
        return r
    def mat(self, construct, label, got, want, hints, **kw):
        if not isinstance(got, Mat) or not isinstance(want, Mat) or len(got.e) != len(want.e):
            self.unk(f"{construct}: {label} has no component form"); return
        return self.cmp(construct, [(f"{label}({i})", g, w) for i, (g, w) in enumerate(zip(got.e, want.e))], hints, **kw)
def conv(x):
    if isinstance(x, (Poly, Cond)): return x
    return P(x)

def known():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"): out.append(l)
    return out
def finish(ck, level="other", explanation=""):
    kf = []
    for l in known():
        d = dict(x.split("=", 1) for x in l.split()[1:3] if "=" in x)
        if d.get("property") == ck.pid: kf.append((d.get("match", "").replace("\\s", " "), l))
    new = []; seen = {}
    for c, m in ck.viol:
        hit = next((l for k, l in kf if k and k in f"{c}: {m}".replace(" ", "_")), None)
        if hit: seen[hit] = f"{c}: {m}"
        else: new.append((c, m))
    for l, w in seen.items(): print(f"KNOWN-FINDING: property={ck.pid} {l.split(' ', 3)[3] if len(l.split(' ', 3)) > 3 else w}")
    ev = dict(property=ck.pid, tier="thorough" if ck.thorough else "quick", seed=ck.seed, level=level,
              coverage=dict(explanation=explanation or ck.rule, rule=ck.rule, obligations=ck.obl, decided_by_normal_form=ck.exact, decided_by_cell_valuation=ck.tested, cells=ck.cells,
                            undecided=ck.und[:200], functions_analysed=sorted(ck.functions), samples=ck.samples, imprecision=sorted(ck.notes)[:80], known_findings=list(seen.values()), **ck.extra),
              wall_s=round(time.time() - ck.t0, 2), violations=[f"{c}: {m}" for c, m in new])
    if ck.assumptions: ev["assumptions"] = ck.assumptions
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{ck.pid}.json", "w") as f: json.dump(ev, f, indent=1)
    print(f"{ck.pid}: {ck.obl} obligations, {ck.cells} cells, {ck.exact} exact, {ck.tested} by valuation, {len(ck.und)} undecided, {len(new)} violations, {time.time()-ck.t0:.1f}s")
    for u in ck.und[:12]: print("  undecided:", u)
    rp = f"{VERIF}/evidence/{ck.pid}.violation.txt"
    if os.path.exists(rp): os.remove(rp)
    if new:
        with open(rp, "w") as f:
            for c, m in new: f.write(f"{c}\n    {m}\n")
        for c, m in new[:12]: print(f"  {c}\n      {m}")
        print(f"VIOLATION property={ck.pid} replay={rp}")
        return 1
    if ck.obl == 0: print("no obligations: no answer"); return 2
    if len(ck.und) * 2 > ck.obl: print("most obligations undecided: no answer"); return 2
    return 0
