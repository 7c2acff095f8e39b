"""Builds the model checker host and the checked shared objects from /repo's current tree."""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
CXX = "clang++"
STD = ["-std=c++20", "-pthread"]
# Instrumentation only; the runtime is the engine.
INSTR = ["-fsanitize=thread", "-femulated-tls", "-fPIC", "-O1", "-g1", "-fno-omit-frame-pointer",
         "-mllvm", "-tsan-instrument-func-entry-exit=0", "-Wno-everything"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def build_host():
    eng = os.path.join(VERIF, "engine")
    srcs = [os.path.join(eng, f) for f in ("mcrt.cpp", "kern.cpp", "uring.cpp")]
    key = sha(*[read(os.path.join(eng, f)) for f in sorted(os.listdir(eng))])
    out = os.path.join(BUILD, "host-" + key)
    exe = os.path.join(out, "mcrun")
    if os.path.exists(exe):
        return exe
    os.makedirs(out, exist_ok=True)
    objs = []
    procs = []
    for s in srcs:
        o = os.path.join(out, os.path.basename(s) + ".o")
        objs.append(o)
        procs.append(([CXX, *STD, "-O2", "-g1", "-fno-omit-frame-pointer", "-fno-threadsafe-statics", "-Wno-deprecated-volatile", "-c", s, "-o", o]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, procs))
    tmp = exe + ".tmp%d" % os.getpid()
    run([CXX, "-rdynamic", *objs, "-o", tmp, "-ldl", "-lpthread"])
    os.rename(tmp, exe)
    return exe


EXCLUDE = re.compile(r"_(Win|Apple|IOCP|kqueue)\.cpp$")


def repo_sources(root, dirs, backend="epoll"):
    res = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(root, "mg", d, "*.cpp"))):
            b = os.path.basename(f)
            if EXCLUDE.search(b):
                continue
            if b.endswith("_iouring.cpp") and backend != "iouring":
                continue
            if b.endswith("_epoll.cpp") and backend != "epoll":
                continue
            res.append(f)
    return res


def make_variant(name, edits):
    """A copy of /repo/src with scale constants reduced. edits: [(glob, regex, replacement)].
    Returns (root, applied) - an edit which finds nothing is reported and skipped."""
    src = os.path.join(REPO, "src")
    key = sha(tree_hash(src, (".h", ".cpp")), repr(edits))
    root = os.path.join(BUILD, "src-%s-%s" % (name, key))
    applied = []
    done = os.path.join(root, ".applied")
    if os.path.exists(done):
        return root, read(done).decode().split("\n")
    tmp = root + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(src, tmp)
    for pat, rx, repl in edits:
        n = 0
        for p in glob.glob(os.path.join(tmp, pat)):
            t = open(p).read()
            t2, k = re.subn(rx, repl, t)
            if k:
                open(p, "w").write(t2)
            n += k
        applied.append("%s: %s -> %s: %d" % (pat, rx, repl, n))
    open(os.path.join(tmp, ".applied"), "w").write("\n".join(applied))
    if os.path.exists(root):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, root)
    return root, applied


def build_so(name, harness, dirs, defines=(), edits=(), backend="epoll", libs=(), extra_src=(), exclude=None):
    """Compiles harness files + repository sources into one instrumented shared object."""
    root = os.path.join(REPO, "src")
    applied = []
    if edits:
        root, applied = make_variant(name, list(edits))
    eng = os.path.join(VERIF, "engine")
    har = os.path.join(VERIF, "harness")
    hdr = tree_hash(root, (".h",)) + tree_hash(har, (".h",)) + sha(read(os.path.join(eng, "mc.h")), read(os.path.join(eng, "kern.h")))
    flags = [*STD, *INSTR, *["-D" + d for d in defines], "-I" + root, "-I" + eng, "-I" + har]
    srcs = [os.path.join(har, h) for h in harness] + [f for f in repo_sources(root, dirs, backend) if not exclude or not re.search(exclude, f)] + \
        [os.path.join(root, e) for e in extra_src] + [os.path.join(eng, "glue.cpp")]
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    jobs = []
    objs = []
    for s in srcs:
        rel = s
        if s.startswith(root):
            rel = "R" + s[len(root):]
        k = sha(read(s), hdr, " ".join([f for f in flags if not f.startswith("-I")]), rel)
        o = os.path.join(odir, k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))

    def comp(j):
        s, o = j
        t = o + ".tmp%d" % os.getpid()
        run([CXX, *flags, "-c", s, "-o", t])
        os.rename(t, o)

    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, jobs))
    so = os.path.join(BUILD, "%s-%s.so" % (name, sha(*objs, *libs)))
    if not os.path.exists(so):
        t = so + ".tmp%d" % os.getpid()
        run([CXX, "-shared", "-Wl,-z,relro", "-Wl,-z,now", *objs, "-o", t, *libs])
        os.rename(t, so)
    return so, applied


def build_exe(name, harness, dirs, sanitize=False, libs=(), defines=()):
    """Compiles a self-contained explorer (engine/xplore.h) with the repository sources. Not instrumented, is used for
    sequential code which can't be separated from its libraries."""
    root = os.path.join(REPO, "src")
    eng = os.path.join(VERIF, "engine")
    har = os.path.join(VERIF, "harness")
    flags = [*STD, "-g1", "-O1", "-fno-omit-frame-pointer", "-Wno-everything", *["-D" + d for d in defines]]
    if sanitize:
        flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    hdr = tree_hash(root, (".h",)) + tree_hash(har, (".h",)) + sha(read(os.path.join(eng, "xplore.h")))
    srcs = [os.path.join(har, h) for h in harness] + repo_sources(root, dirs)
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    jobs = []
    objs = []
    for s in srcs:
        rel = "R" + s[len(root):] if s.startswith(root) else s
        k = sha(read(s), hdr, " ".join(flags), rel)
        o = os.path.join(odir, k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))

    def comp(j):
        t = j[1] + ".tmp%d" % os.getpid()
        run([CXX, *flags, "-I" + root, "-I" + eng, "-I" + har, "-c", j[0], "-o", t])
        os.rename(t, j[1])

    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, jobs))
    exe = os.path.join(BUILD, "%s-%s" % (name, sha(*objs, *libs, " ".join(flags))))
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        run([CXX, *flags, *objs, "-o", t, *libs])
        os.rename(t, exe)
    return exe


if __name__ == "__main__":
    print(build_host())
