"""Developer helper: mkseed(id, prop, [(file, old, new)], needs, breaks, demo_cpp, libs): writes seeded/<id>/."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = '''#!/bin/bash
# Exit 0: the property holds; nonzero: broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$(pwd)
L=$R/_build/epoll/src/mg
g++ -std=c++20 -O1 -g %(flags)s -I"$R/src" "$D/demo.cpp" -o "$T/demo" $(for m in aio net sch box stub; do ls $L/$m/*.a; done) -pthread -lssl -lcrypto %(libs)s || exit 3
timeout 250 "$T/demo"
'''


def mkseed(sid, prop, edits, needs, breaks, demo, mods="box", flags="", libs="", repo="/repo"):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    tmp = "/tmp/mkseed-%s" % sid
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", repo, tmp])
    for f, a, b in edits:
        p = os.path.join(tmp, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", tmp, "diff"]).decode()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(tmp)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % dict(mods=mods, flags=flags, libs=libs))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
