"""Front end: builds the exporter, parses every translation unit of /repo/src in the
requested configurations and loads the exported trees."""
import os, sys, json, hashlib, subprocess, glob, re, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MATTER_REPO", "/repo")
SRC = REPO + "/src"
BUILD = VERIF + "/build"
CXX = "/usr/bin/clang++"
class FrontendError(Exception): pass

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def _read(p):
    with open(p, "rb") as f: return f.read()

def build_exporter():
    src = VERIF + "/exporter/exporter.cpp"
    os.makedirs(BUILD, exist_ok=True)
    out = f"{BUILD}/exporter-{_sha(_read(src))}"
    if os.path.exists(out): return out
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out): return out
        tmp = out + f".tmp{os.getpid()}"
        lib = next((p for p in ("/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18", "/usr/lib/llvm-18/lib/libclang-cpp.so.18") if os.path.exists(p)), "-lclang-cpp")
        cmd = [CXX, "-O0", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS",
               "-D__STDC_LIMIT_MACROS", src, "-o", tmp, lib, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise FrontendError("exporter build failed: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out

def source_files():
    fs = []
    for d, _, names in os.walk(SRC):
        for n in names:
            if n.endswith((".cpp", ".hpp", ".h", ".cc", ".cxx", ".inl", ".tpp")): fs.append(os.path.join(d, n))
    return sorted(fs)

def tree_hash():
    return _sha(*[x for f in source_files() for x in (f, _read(f))])

def _overlay(cfg, work):
    """vfs overlay: interface stubs for the two headers CMake would download, and
    tools.hpp with the spline degree of the configuration."""
    ents = []
    def add(virt, real): ents.append(virt + "\t" + real)
    add(REPO + "/deps/tinyply.h", VERIF + "/stubs/tinyply.h")
    add(REPO + "/deps/tph_poisson-0.3/thinks/poisson_disk_sampling/poisson_disk_sampling.h", VERIF + "/stubs/poisson.h")
    if cfg["spline"] != 2:
        pat = re.compile(rb"^(\s*#\s*define\s+SPLINEDEG\s+)\d+", re.M)
        n = 0
        for f in source_files():
            t = _read(f)
            if pat.search(t):
                real = f"{work}/spl_{os.path.basename(f)}"
                with open(real, "wb") as o: o.write(pat.sub(rb"\g<1>%d" % cfg["spline"], t))
                add(f, real); n += 1
        if not n: raise FrontendError("no SPLINEDEG definition found")
    p = f"{work}/overlay.txt"
    with open(p, "w") as f: f.write("\n".join(ents) + "\n")
    return p

def _args(cfg, overlay):
    a = ["-std=c++17", "-fopenmp", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-I" + VERIF + "/stubs",
         "-isystem", "/usr/include/eigen3", '-DSRC_DIR="SRC"', '-DINCLUDE_DIR="INC"', "-ferror-limit=5"]
    if cfg["dim"] == 3: a.append("-DTHREEDIM")
    return a

def _driver(work, vdb):
    inc = ['#include "%s/simulation/simulation.hpp"' % SRC]
    for h in sorted(glob.glob(SRC + "/objects/*.hpp")):
        if "vdb" in os.path.basename(h) and not vdb: continue
        inc.append('#include "%s"' % h)
    body = []
    for h in sorted(glob.glob(SRC + "/sampling/*.hpp")):
        if ("vdb" in os.path.basename(h)) != vdb: continue
        inc.append('#include "%s"' % h)
    if not vdb:
        body = ["void verif_driver(Simulation& s){ sampleParticles(s, T(1)); regularSampleParticles(s); }"]
    else:
        body = ["void verif_driver(Simulation& s, ObjectVdb& o){ sampleParticlesFromVdb(s, o, T(1)); regularSampleParticlesFromVdb(s, o); }"]
    p = f"{work}/driver{'_vdb' if vdb else ''}.cpp"
    with open(p, "w") as f: f.write("\n".join(inc + body) + "\n")
    return p

class Program:
    """All functions, records and enums of one configuration."""
    def __init__(self, cfg):
        self.cfg = cfg; self.funcs = {}; self.records = {}; self.enums = {}; self.globals = {}; self.units = []; self.failed = []
        self.over = {}
    def add(self, tu, d):
        self.units.append(tu)
        for f in d["functions"]:
            f["tu"] = tu
            if f["usr"] not in self.funcs: self.funcs[f["usr"]] = f
            for o in f.get("over", []): self.over.setdefault(o, set()).add(f["usr"])
        for r in d["records"]: self.records.setdefault(r["n"], r)
        for e in d["enums"]: self.enums.setdefault(e["n"], e["e"])
        for g in d["globals"]: self.globals.setdefault(g["n"], g)
    def by_name(self, name, cls=None):
        return [f for f in self.funcs.values() if f["n"] == name and (cls is None or f.get("cls") == cls)]
    def one(self, name, cls=None):
        r = self.by_name(name, cls)
        if len(r) != 1: raise Anchor(f"function {cls+'::' if cls else ''}{name}: {len(r)} definitions in {cfgname(self.cfg)}")
        return r[0]
    def enum(self, name, member):
        for e in self.enums[name]:
            if e["n"] == member: return int(e["v"])
        raise Anchor(f"enumerator {name}::{member} missing")

class Anchor(Exception): pass
def cfgname(c): return f"{c['dim']}D-spline{c['spline']}"

def load(dim=2, spline=2, vdb=False):
    exe = build_exporter()
    cfg = {"dim": dim, "spline": spline}
    key = _sha(tree_hash(), json.dumps(cfg, sort_keys=True), exe, _read(VERIF + "/stubs/tinyply.h"), _read(VERIF + "/stubs/poisson.h"), _read(os.path.abspath(__file__)), vdb, REPO)
    work = f"{BUILD}/ast/{key}"
    os.makedirs(work, exist_ok=True)
    ov = _overlay(cfg, work)
    tus = [f for f in source_files() if f.endswith((".cpp", ".cc", ".cxx")) and os.path.basename(f) != "mpm.cpp"]
    jobs = [(f, f"{work}/{os.path.relpath(f, SRC).replace('/', '_')}.json") for f in tus]
    jobs.append((_driver(work, False), f"{work}/driver.json"))
    if vdb: jobs.append((_driver(work, True), f"{work}/driver_vdb.json"))
    def run(j):
        f, out = j
        if os.path.exists(out): return (f, out, None)
        tmp = out + f".{os.getpid()}"
        r = subprocess.run([exe, SRC, tmp] + _args(cfg, ov) + [f], capture_output=True, text=True, env=dict(os.environ, EXPORTER_OVERLAY=ov))
        if r.returncode or not os.path.exists(tmp):
            return (f, None, r.stderr[-1500:])
        os.rename(tmp, out)
        return (f, out, None)
    p = Program(cfg)
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(run, jobs))
    for f, out, err in res:
        name = os.path.relpath(f, SRC) if f.startswith(SRC) else os.path.basename(f)
        if out is None: p.failed.append((name, err)); continue
        with open(out) as fh: p.add(name, json.load(fh))
    hard = [x for x in p.failed if not x[0].startswith("driver")]
    if hard: raise FrontendError(f"parse failed: {hard}")
    return p

if __name__ == "__main__":
    import time; t = time.time()
    for d in (2, 3):
        p = load(d, 2, vdb=True)
        print(cfgname(p.cfg), len(p.units), "units", len(p.funcs), "functions", [(a, b[-400:]) for a, b in p.failed], round(time.time() - t, 1))
    for f in sorted(p.funcs.values(), key=lambda f: f["file"]): print(f["q"], f["file"][len(SRC):], f["line"])
