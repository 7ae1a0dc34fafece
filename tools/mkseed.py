#!/usr/bin/env python3
"""dev helper: write /verif/seeded/<id>/ from a spec module.  mkseed.py SPEC.py  (SPEC defines seed(...) calls)"""
import sys, os, subprocess, json, shutil, tempfile
H = r'''#include <sstream>
#include <map>
#include <random>
#include <functional>
#include <algorithm>
#include <iomanip>
#include <fstream>
#include <chrono>
#include <memory>
#define private public
#define protected public
#include "simulation/simulation.hpp"
#undef private
#undef protected
#include <cstdio>
#include <cmath>
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); bad++; } } while (0)
#define NEAR(a, b, t) do { double a_ = (a), b_ = (b); if (!(std::abs(a_ - b_) <= (t) * (1 + std::abs(b_)))) { printf("FAILED line %d: %s = %.12g, expected %.12g\n", __LINE__, #a, a_, b_); bad++; } } while (0)
static void base(Simulation& s, int np, T dx = 0.25, T L = 2){
  s.dx = dx; s.Lx = L; s.Ly = L; s.Np = np; s.particles = Particles(np); s.reduce_verbose = true; s.save_sim = false; s.n_threads = 2;
#ifdef THREEDIM
  s.Lz = L;
#endif
  s.one_over_dx = 1 / dx; s.one_over_dx_square = 1 / (dx * dx); s.apicDinverse = (SPLINEDEG == 3 ? 3 : 4) / (dx * dx);
  s.particle_mass = 1; s.particle_volume = 1; s.rho = 1; s.dt = 1e-3; s.flip_ratio = -0.95; s.gravity = TV::Zero();
  s.lambda = 1; s.mu = 1; s.K = s.lambda + 2 * s.mu / s.dim; s.dt_max = 1; s.wave_speed = 1e9; s.frame_dt = 1; s.final_time = 10; s.time = 0; s.frame = 0;
  s.d_prefac = 1 / s.q_prefac; s.e_mu_prefac = 2 * s.q_prefac * s.mu; s.f_mu_prefac = 2 * s.q_prefac * s.q_prefac * s.mu; s.fac_Q = s.I_ref / (s.grain_diameter * std::sqrt(s.rho_s));
  s.plastic_model = PlasticModel::NoPlasticity; s.elastic_model = ElasticModel::Hencky;
}
'''
SH = r'''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd); R=$PWD; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
fl="-O0 -w -fopenmp -std=c++17 -DSRC_DIR=\"\" -I$R/src -I/usr/include/eigen3 @FLAGS@"
for f in $(ls $R/src/simulation/*.cpp@SKIP@); do g++ $fl -c "$f" -o "$w/$(basename "$f").o" & done
g++ $fl -I"$here" -c "$here/demo.cpp" -o "$w/demo.o" || exit 3
wait
g++ -fopenmp "$w"/*.o -o "$w/demo" -Wl,--unresolved-symbols=ignore-all || exit 3
cd "$w" && timeout 200 ./demo
'''
def seed(id, prop, file, edits, demo, needs, what, flags="", skip=" | grep -v save_data"):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    s0 = s = open("/repo/" + file).read()
    for e in edits:
        o, n = e[0], e[1]; k = e[2] if len(e) > 2 else 0   # k-th occurrence (1-based); 0 = must be unique
        c = s.count(o)
        if c == 0 or (k == 0 and c != 1): raise SystemExit(f"{id}: pattern occurs {c} times: {o}")
        if k == 0: s = s.replace(o, n)
        else:
            i = -1
            for _ in range(k): i = s.index(o, i + 1)
            s = s[:i] + n + s[i + len(o):]
    t = tempfile.mkdtemp()
    try:
        open(t + "/a", "w").write(s0); open(t + "/b", "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + file, "--label", "b/" + file, t + "/a", t + "/b"], capture_output=True, text=True).stdout
    finally: shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(f"diff --git a/{file} b/{file}\n" + r)
    open(d + "/h.hpp", "w").write(H); open(d + "/demo.cpp", "w").write('#include "h.hpp"\n' + demo.strip() + "\n")
    open(d + "/demo.sh", "w").write(SH.replace("@FLAGS@", flags).replace("@SKIP@", skip)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    assert subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]).returncode == 0
    print("wrote", id)
if __name__ == "__main__":
    for f in sys.argv[1:]: exec(compile(open(f).read(), f, "exec"))
