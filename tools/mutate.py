"""mutate.py <count per property> <seed> [PROP...]: developer tool. Plants small random changes into copies of the source files
of a property, runs its quick check on each, and lists the survivors for a review. Needs a copy of /verif: run it from there."""
import os
import random
import re
import shutil
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "checks"))
from props import PROPS

REPO = "/repo"
MUT = os.environ.get("MUT_DIR", "/tmp/mut")


def mutants(text):
    res = []
    lines = text.split("\n")
    depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*")) or "ASSERT" in s or "MG_LOG" in s or s.startswith(("static_assert", "class", "struct", "enum", "friend", "using", "template", "case", "default", "public", "private")):
            continue
        if not l.startswith("\t\t"):
            continue

        def put(new):
            if new != l:
                res.append((i, new))
        ind = l[:len(l) - len(l.lstrip())]
        if re.match(r"^[A-Za-z_:\->.\[\]]+(\(.*\)| [-+|&]?= .*|\+\+|--);$", s) and "return" not in s and not re.match(r"^[A-Z][A-Za-z]+ ", s):
            put(ind + ";")
        if re.match(r"^(\+\+|--)[a-zA-Z>.-]+;$", s):
            put(ind + ";")
            put(l.replace("++", "--") if "++" in l else l.replace("--", "++"))
        m = re.match(r"^(\s*(?:\} )?(?:else )?(?:if|while) \()(.*)\)( \{)?$", l)
        if m:
            put(m.group(1) + "!(" + m.group(2) + "))" + (m.group(3) or ""))
            if " if (" in " " + s:
                put(m.group(1) + "false && (" + m.group(2) + "))" + (m.group(3) or ""))
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
                     (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), ("true", "false"), ("false", "true"), ("Release(", "Relaxed("),
                     ("Acquire(", "Relaxed("), ("AcqRel(", "Relaxed("), ("nullptr;", "nullptr ;"), (" = 0;", " = 1;"), (" 1;", " 2;"), (" > 0", " > 1"), (" 0)", " 1)")):
            for m in re.finditer(re.escape(a), l):
                if b != "nullptr ;":
                    put(l[:m.start()] + b + l[m.end():])
        if re.match(r"^(break|continue);$", s):
            put(ind + ";")
        if s == "return;":
            put(ind + ";")
    return res


def plant(f, i, new):
    shutil.rmtree(MUT, ignore_errors=True)
    os.makedirs(MUT)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(MUT, "src"))
    path = os.path.join(MUT, f)
    lines = open(path).read().split("\n")
    old = lines[i]
    lines[i] = new
    open(path, "w").write("\n".join(lines))
    return old


def cross(path, only):
    """mutate.py cross LOG [PROP...]: runs the survivors of a log against the other properties which use the same file."""
    env = dict(os.environ, MC_REPO=MUT, VERIF_TIER="quick", MC_BUILD=MUT + "-build")
    log = open(path + ".cross", "a")
    lines = open(path).read().split("\n")
    for n, l in enumerate(lines):
        m = re.match(r"SURVIVED (\S+) (\S+):(\d+) ", l)
        if not m:
            continue
        p, f, i = m.group(1), m.group(2), int(m.group(3)) - 1
        new = lines[n + 2].strip()[2:]
        ok = None
        for q in PROPS:
            if q == p or f not in PROPS[q]["files"] or (only and q not in only):
                continue
            plant(f, i, "\t\t" + new)
            r = subprocess.run(["python3", os.path.join(HERE, "..", "checks", "run.py"), q], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            if r.returncode == 1:
                ok = q
                break
            if len(os.listdir(os.path.join(MUT + "-build", "obj"))) > 3000:
                shutil.rmtree(MUT + "-build", ignore_errors=True)
        log.write("%s %s:%d %s\n%s\n%s\n" % ("killed by " + ok if ok else "SURVIVED", f, i + 1, p, lines[n + 1], lines[n + 2]))
        log.flush()


def main():
    if sys.argv[1] == "cross":
        return cross(sys.argv[2], sys.argv[3:])
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    props = sys.argv[3:] or list(PROPS)
    rnd = random.Random(seed)
    env = dict(os.environ, MC_REPO=MUT, VERIF_TIER="quick", MC_BUILD=MUT + "-build")
    log = open(os.path.join("/tmp", "mutate-%d.log" % seed), "a")
    for p in props:
        files = [f for f in PROPS[p]["files"] if os.path.exists(os.path.join(REPO, f))]
        pool = []
        for f in files:
            pool += [(f, i, new) for i, new in mutants(open(os.path.join(REPO, f)).read())]
        rnd.shuffle(pool)
        for f, i, new in pool[:n]:
            old = plant(f, i, new)
            t = time.time()
            r = subprocess.run(["python3", os.path.join(HERE, "..", "checks", "run.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            out = r.stdout.decode(errors="replace")
            st = {0: "SURVIVED", 1: "killed", 2: "nobuild"}.get(r.returncode, "rc%d" % r.returncode)
            msg = [x for x in out.split("\n") if x.startswith("  ")]
            log.write("%-8s %s %s:%d %.0fs\n    - %s\n    + %s\n%s" % (st, p, f, i + 1, time.time() - t, old.strip(), new.strip(), "" if st != "killed" or not msg else "      %s\n" % msg[-1].strip()[:160]))
            log.flush()
            if shutil.disk_usage("/tmp").free < 8 << 30 or len(os.listdir(os.path.join(MUT + "-build", "obj"))) > 3000:
                shutil.rmtree(MUT + "-build", ignore_errors=True)


main()
