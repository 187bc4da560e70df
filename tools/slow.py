"""python tools/slow.py C01 N: slowest seeds."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sim import boot
prop = boot.boot(sys.argv[1])
from sim import runner
T = []
n = int(sys.argv[2]); s0 = int(sys.argv[3]) if len(sys.argv) > 3 else 1000000
from sim.seams import R
for s in range(s0, s0 + n):
    t = R.monotonic()
    sc = runner.seed_scenario(prop, s, "quick")
    res = runner.run_one(prop, sc, 77)
    T.append((R.monotonic() - t, s, sc, res["steps"]))
T.sort(key=lambda x: -x[0])
print("mean %.3f" % (sum(t[0] for t in T) / n))
for t, s, sc, st in T[:8]:
    print("%.2f" % t, s, st, str({k: v for k, v in sc.items() if k != "specs"})[:600])
