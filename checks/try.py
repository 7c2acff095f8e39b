"""Developer helper: try.py harness[,harness] dirs scenario[,scenario] [mcrun args]"""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(__file__))
from mcbuild import *
h = sys.argv[1].split(",")
dirs = sys.argv[2].split(",")
kw = {}
if os.environ.get("TRY_CFG"):
    from props import GROUPS
    kw = GROUPS[os.environ["TRY_CFG"]]
    kw = {k: v for k, v in kw.items() if k not in ("harness", "dirs")}
if "net" in sys.argv[2].split(","):
    kw["libs"] = ["-lssl", "-lcrypto"]
if os.environ.get("TRY_LIBS"):
    kw["libs"] = os.environ["TRY_LIBS"].split()
try:
    host = build_host()
    so, ap = build_so("try-" + h[0].replace(".cpp", ""), h, dirs, **kw)
except BuildError as e:
    t = str(e).split("\n")
    print("\n".join([l for l in t if "error" in l or "undefined" in l][:12]))
    sys.exit(2)
for a in ap:
    print(a)
if len(sys.argv) < 4:
    os.execv(host, [host, "--so", so])
scns = sys.argv[3].split(",")
if scns == ["all"]:
    scns = subprocess.run([host, "--so", so], stdout=subprocess.PIPE).stdout.decode().split()
for s in scns:
    o = "/tmp/try-%d.json" % os.getpid()
    if "--replay" in sys.argv or "-v" in sys.argv:
        os.execv(host, [host, "--so", so, "--scenario", s] + sys.argv[4:])
    r = subprocess.run([host, "--so", so, "--scenario", s, "--out", o, "--replay-out", "/tmp/try.replay"] + sys.argv[4:])
    if r.returncode not in (0, 1, 3):
        continue
    d = json.load(open(o))
    print("%-30s rc=%d P=%d/%d capped=%s execs=%d(last %d) trans=%d states=%d maxch=%d thr=%d wall=%.1f out=%d" % (
        s, d["rc"], d["completed_P"], d["bound_P"], d["capped"], d["executions"], d["executions_last_bound"], d["transitions"],
        d["states"], d["max_choices"], d["threads"], d["wall"], d["distinct_outcomes"]))
    if d["message"]:
        print("   ", d["message"])
    if d["known"]:
        print("    known", d["known"])
    if os.environ.get("OUT"):
        for k, v in d["outcomes"]:
            print("      %8d %s" % (v, k))
