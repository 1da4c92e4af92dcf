#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]  -- decide one property on /repo's current source"""
import importlib
import os
import sys
import threading
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":      # verdicts must not depend on string hashing
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    from sa import ctx as C
    mod = importlib.import_module("rules." + pid)
    c = C.Ctx(pid, tier, seed)
    broken = None
    try:
        mod.run(c)
    except C.AnalysisBroken as e:
        broken = str(e)
    except Exception:
        traceback.print_exc()
        # code the rule was not written for: what was decided so far counts, the rest is undecided
        c.ob("internal", "", None, "internal error: " + traceback.format_exc().strip().splitlines()[-1])
    return C.finish(c, mod, t0, broken)


rc = [2]


def go():
    rc[0] = main()


t = threading.Thread(target=go)
t.start()
t.join()
sys.exit(rc[0])
