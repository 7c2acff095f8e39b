"""Developer helper: trace.py group-or-tryname so-prefix scenario replay [lines]: prints the tail of a verbose replay."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mcbuild import *
so = sorted(glob.glob(os.path.join(BUILD, sys.argv[1] + "-*.so")), key=os.path.getmtime)[-1]
r = subprocess.run([build_host(), "--so", so, "--scenario", sys.argv[2], "--replay", sys.argv[3], "-v"] + [a for a in sys.argv[5:] if "=" in a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
lines = r.stdout.decode(errors="replace").split("\n")
import re
n = int(sys.argv[4]) if len(sys.argv) > 4 else 80
lines = lines[-n:]
addrs = sorted({a for l in lines if l.startswith("@") for a in l.split(" a=")[1].split()[1:]})
names = {}
if addrs:
    o = subprocess.run(["llvm-symbolizer-18" if os.path.exists("/usr/bin/llvm-symbolizer-18") else "addr2line", "--obj=" + so, "-s", "--no-inlines"] + ["0x%x" % (int(a, 16) - 1) for a in addrs], stdout=subprocess.PIPE).stdout.decode()
    for a, blk in zip(addrs, o.strip().split("\n\n")):
        b = blk.split("\n")
        f = re.sub(r"\(.*", "", b[0]).replace("mg::box::", "").replace("mg::sch::", "")
        names[a] = f + ":" + b[1].split(":")[1] if len(b) > 1 else f
for l in lines:
    if l.startswith("@"):
        h, t = l.split(" a=")
        t = t.split()
        l = h + " " + t[0][-5:] + " " + " < ".join(names.get(a, a) for a in t[1:6])
    print(l[:220])
