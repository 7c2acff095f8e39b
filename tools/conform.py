"""conform.py [depth] [uring|epoll]: compares the simulated kernel with the real one on all sequences of calls of the given depth.
Exit 0 - no differences, 1 - there are some, 2 - could not run."""
import json
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "checks"))
from mcbuild import *


def conform(kind, depth, out=None, time=600):
    """(sequences, differences) of one backend, or None when the real kernel does not let us."""
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="conform-", dir=BUILD)
    try:
        src = os.path.join(VERIF, "harness", "h_conform.cpp")
        defs = ["CONFORM_URING=1"] if kind == "uring" else []
        exe = os.path.join(tmp, "native")
        run(["g++", "-DNATIVE", "-O1", *["-D" + d for d in defs], src, "-o", exe, *(["-luring"] if kind == "uring" else [])])
        tables = []
        for i in range(2):
            r = subprocess.run([exe, str(depth)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=time)
            if r.returncode != 0:
                return None
            tables.append(r.stdout)
        # What is not deterministic in the real kernel can't be compared.
        a, b = [t.decode().split(",\n") for t in tables]
        skip = [i for i in range(len(a)) if a[i] != b[i]]
        table = os.path.join(tmp, "table.inc")
        open(table, "wb").write(tables[0])
        so, _ = build_so("conform-" + kind, ["h_conform.cpp"], [], defines=tuple(defs) + ('CONFORM_TABLE="%s"' % table,))
        o = os.path.join(tmp, "o.json")
        subprocess.run([build_host(), "--so", so, "--scenario", "conform", "--out", o, "--P", "0", "--D", "0", "--time", str(time)],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        d = json.load(open(o))
        if d["rc"] != 0 or d["capped"]:
            if out:
                print(d["message"])
            return None
        diff = [x for x in d["outcomes"] if x[0] != "equal"]
        for x in diff[:out or 0]:
            s = x[0].split(" ", 3)
            start = s[2].strip(",")
            ops = [t.split(":")[0] for t in s[3].replace("[", " [").split() if ":" in t or t.startswith("[")]
            ops = ["11" if t.startswith("[") else t for t in ops] if kind == "uring" else ops
            real = subprocess.run([exe, start, *ops], stdout=subprocess.PIPE).stdout.decode().strip()
            print("start %s\n   sim  %s\n   real %s" % (start, s[3], real))
        eq = sum(x[1] for x in d["outcomes"] if x[0] == "equal")
        return {"sequences": len(a) - 1, "equal": eq, "different": len(a) - 1 - eq, "not_deterministic": len(skip)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    depth = int(sys.argv[1]) if len(sys.argv) > 1 else 3
    rc = 0
    for kind in sys.argv[2:] or ("epoll", "uring"):
        r = conform(kind, depth, 20)
        print(kind, depth, r)
        rc = max(rc, 2 if r is None else 1 if r["different"] else 0)
    sys.exit(rc)
