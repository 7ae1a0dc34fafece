#!/usr/bin/env python3
"""dev helper: behaviour-preserving refactorings.  refac.py [-c C01,C02] NAME...|all|batch   checks have to stay quiet."""
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
S = "simulation/"
R = {}
def ref(name, *ed): R[name] = ed
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refac_list.py")).read())
CH = ["C%02d" % i for i in range(1, 21)]
def apply(d, name):
    for e in R[name]:
        f, o, n = e[:3]; p = d + "/src/" + f; s = open(p).read(); c = s.count(o)
        if c < 1: print("!!", name, "pattern not found:", f, o[:80]); return False
        if len(e) > 3:
            k = e[3]; parts = s.split(o); s = o.join(parts[:k]) + n + o.join(parts[k:]) if k else s
        else: s = s.replace(o, n)
        open(p, "w").write(s)
    return True
def mk(names):
    d = tempfile.mkdtemp(prefix="refac"); shutil.copytree("/repo/src", d + "/src")
    for x in ("tests", "CMakeLists.txt", "examples", "levelsets"):
        p = "/repo/" + x; (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, d + "/" + x)
    for n in names:
        if not apply(d, n): shutil.rmtree(d); return None
    for fl in ([], ["-DTHREEDIM"]):
        bad = []
        def comp(f):
            r = subprocess.run(["g++", "-std=c++17", "-fopenmp", "-fsyntax-only", "-w", "-I/usr/include/eigen3", "-I" + d + "/deps", '-DSRC_DIR="x"'] + fl + [f], capture_output=True, text=True)
            if r.returncode: bad.append((f, r.stderr[:600]))
        os.makedirs(d + "/deps/tph_poisson-0.3/thinks/poisson_disk_sampling", exist_ok=True)
        shutil.copy("/verif/stubs/tinyply.h", d + "/deps/tinyply.h"); shutil.copy("/verif/stubs/poisson.h", d + "/deps/tph_poisson-0.3/thinks/poisson_disk_sampling/poisson_disk_sampling.h")
        import glob
        with ThreadPoolExecutor(8) as ex: list(ex.map(comp, glob.glob(d + "/src/simulation/*.cpp") + [d + "/src/mpm.cpp"]))
        if bad: print("!! does not compile", names, bad[0]); shutil.rmtree(d); return None
    shutil.rmtree(d + "/deps")
    return d
def run(names, chs):
    d = mk(names)
    if not d: return
    def one(c):
        r = subprocess.run(["timeout", "900", "python3-vt", "/verif/check.py", c], env=dict(os.environ, MATTER_REPO=d), capture_output=True, text=True)
        return c, r
    # warm the export once
    one(chs[0])
    with ThreadPoolExecutor(8) as ex:
        for c, r in ex.map(one, chs):
            if r.returncode: print(" ".join(names), c, "rc", r.returncode, "|", " / ".join(x.strip()[:230] for x in r.stdout.splitlines() if x.strip())[:600], r.stderr[-200:] if r.returncode > 1 else "")
    shutil.rmtree(d); print("done", " ".join(names), flush=True)
a = sys.argv[1:]; chs = CH
if a and a[0] == "-c": chs = a[1].split(","); a = a[2:]
sep = "+"
for x in (list(R) if a == ["all"] else a): run(x.split(sep), chs)
