"""Compares the sets of outcomes with and without state deduplication over random small programs."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mcbuild import *
host = build_host()
so, _ = build_so("self", ["h_self.cpp"], ["box"])
a, b = int(sys.argv[1]), int(sys.argv[2])
bad = 0
tot = [0, 0]
def one(args):
    o = os.path.join(BUILD, "self-%d.json" % os.getpid())
    r = subprocess.run([host, "--so", so, "--scenario", "self", "--out", o, "--time", "60"] + args, stderr=subprocess.PIPE)
    d = json.load(open(o))
    return (d["rc"], d["message"], d["distinct_outcomes"] if d["distinct_outcomes"] >= 40 else sorted(x[0] for x in d["outcomes"]), d["capped"]), d
for seed in range(a, b):
    for P in (0, 1, 2, 3):
        for extra in ([], ["--timers", "--D", "1"]):
            base = ["--P", str(P), "seed=%d" % seed] + extra
            x, dx = one(base + (["--reduce"] if "reduce" in sys.argv else []))
            y, dy = one(base + ["--no-dedup"])
            tot[0] += dx["executions_last_bound"]; tot[1] += dy["executions_last_bound"]
            if x != y and not (x[3] or y[3]):
                bad += 1
                print("MISMATCH seed", seed, P, extra, x[2], y[2], x[1], y[1])
print("done", bad, tot)
sys.exit(bad != 0)
