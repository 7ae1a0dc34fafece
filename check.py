#!/usr/bin/env python3-vt
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    from sa import core
    ck = core.Check(pid, tier)
    try:
        m = importlib.import_module("sa.checks." + pid.lower())
        m.run(ck)
        rc = core.finish(ck, getattr(m, "LEVEL", "other"), getattr(m, "EXPLANATION", ""))
    except (core.Anchor, core.FrontendError) as ex:
        print(f"{pid}: no answer: {type(ex).__name__}: {ex}"); rc = 2
    except Exception:
        traceback.print_exc(); print(f"{pid}: no answer: analysis failure"); rc = 3
    global RC; RC = rc
RC = 3
t = threading.Thread(target=main); t.start(); t.join()
sys.stdout.flush()
os._exit(RC)
