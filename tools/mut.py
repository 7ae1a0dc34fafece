#!/usr/bin/env python3
"""dev helper: run checks against a scratch copy of /repo with textual edits.  mut.py CHECK[,CHECK] FILE OLD NEW [FILE OLD NEW ...]   (FILE relative to src/)"""
import sys, os, subprocess, shutil, tempfile
d = tempfile.mkdtemp(prefix="mut"); shutil.copytree("/repo/src", d + "/src"); 
for x in ("tests", "CMakeLists.txt", "examples", "levelsets"):
    p = "/repo/" + x
    (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, d + "/" + x)
a = sys.argv[2:]
for i in range(0, len(a), 3):
    p = d + "/src/" + a[i]; s = open(p).read(); n = s.count(a[i + 1])
    if n < 1: print("pattern not found", a[i:i+2]); sys.exit(9)
    s = s.replace(a[i + 1], a[i + 2]); open(p, "w").write(s)
for c in sys.argv[1].split(","):
    r = subprocess.run(["python3-vt", "/verif/check.py", c], env=dict(os.environ, MATTER_REPO=d), capture_output=True, text=True)
    out = [l for l in r.stdout.splitlines() if l.strip()]
    print(c, "rc", r.returncode, "|", " / ".join(x.strip()[:160] for x in out[:4]) if r.returncode else out[0][:100] if out else r.stderr[-300:])
shutil.rmtree(d)
