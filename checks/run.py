#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--only scenario]
Builds the checked objects from /repo's current tree, explores every scenario of the property and
writes evidence/<PROPERTY>.json. Exit 0: held on everything explored; 1: VIOLATION line printed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mcbuild import *
from props import GROUPS, PROPS, COMMON_ASSUMPTIONS


def known_findings():
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property="):
                prop, rest = line[len("known: property="):].strip().split(" ", 1)
                key, text = rest.split(" ", 1)
                res[(prop, key)] = text
    return res


def kernel_conformance(groups):
    """Binds the simulated kernel to the real one: all sequences of calls are run on both. It is evidence about the
    environment model and not about the code, hence it never fails the check."""
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    res = {}
    for kind in ("epoll", "uring"):
        if kind == "uring" and not any(GROUPS[g].get("backend") == "iouring" for g in groups):
            continue
        try:
            from conform import conform
            res[kind] = conform(kind, 3, 0, 60) or "unavailable: the real kernel does not let compare"
        except Exception as e:
            res[kind] = "unavailable: " + str(e)[:200]
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    P = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
    host = None
    sos = {}
    applied = []
    runs = []
    kf = known_findings()
    printed = set()
    rc = 0
    replay = None
    budget_end = t0 + (780 if tier == "quick" else 12 * 3600)
    tmp = tempfile.mkdtemp(prefix="mcrun-", dir=BUILD)
    try:
        for sc in P["scenarios"]:
            g = sc["group"]
            if only and sc["name"] != only:
                continue
            if tier == "quick" and sc.get("thorough_only"):
                continue
            if g not in sos:
                G = dict(GROUPS[g])
                if G.pop("standalone", False):
                    sos[g], ap = build_exe(g, **G), []
                else:
                    host = host or build_host()
                    sos[g], ap = build_so(g, **G)
                applied += ["%s: %s" % (g, a) for a in ap if a]
            b = dict(sc.get("all", {}))
            b.update(sc.get(tier, sc.get("quick", {})))
            out = os.path.join(tmp, "out.json")
            rp = os.path.join(tmp, "replay")
            tl = min(b.get("time", 60 if tier == "quick" else 1800), max(5, budget_end - time.time()))
            prog = [sos[g]] if GROUPS[g].get("standalone") else [host, "--so", sos[g]]
            cmd = [*prog, "--scenario", sc["name"], "--out", out, "--replay-out", rp,
                   "--P", str(b.get("P", 2)), "--D", str(b.get("D", 0)), "--time", str(tl),
                   "--jobs", str(min(8, os.cpu_count() or 8))]
            if "horizon" in b:
                cmd += ["--horizon", str(b["horizon"])]
            if "acc" in b:
                cmd += ["--acc", str(b["acc"])]
            for f in ("timers", "spurious", "reduce"):
                if b.get(f):
                    cmd.append("--" + f)
            for k, v in b.get("params", {}).items():
                cmd.append("%s=%d" % (k, v))
            for attempt in range(3):
                if os.path.exists(out):
                    os.unlink(out)
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode in (0, 1) and os.path.exists(out):
                    break
                sys.stderr.write("engine error rc=%d, retry\n%s\n" % (r.returncode, r.stdout.decode(errors="replace")[-2000:]))
            else:
                print("ENGINE ERROR in %s/%s rc=%d" % (prop, sc["name"], r.returncode))
                return 2
            d = json.load(open(out))
            d["group"] = g
            d["params"] = b.get("params", {})
            d["D"] = b.get("D", 0)
            d["deviations"] = [f for f in ("timers", "spurious") if b.get(f)]
            runs.append(d)
            print("%-28s P=%d/%d D=%d execs=%d transitions=%d states=%d threads=%d outcomes=%d wall=%.1fs%s" % (
                d["scenario"], d["completed_P"], d["bound_P"], d["D"], d["executions"], d["transitions"], d["states"],
                d["threads"], d["distinct_outcomes"], d["wall"], " CAPPED" if d["capped"] else ""))
            for k in d["known"]:
                if (prop, k) in kf:
                    if k not in printed:
                        printed.add(k)
                        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kf[(prop, k)]))
                else:
                    d["rc"] = 1
                    d["message"] = "unlisted finding: " + k
            if d["rc"] == 1:
                rdir = os.path.join(VERIF, "evidence", "replays")
                os.makedirs(rdir, exist_ok=True)
                replay = os.path.join(rdir, "%s-%s.replay" % (prop, d["scenario"]))
                if os.path.exists(rp):
                    shutil.copy(rp, replay)
                else:
                    open(replay, "w").write("scenario: %s\nmessage: %s\n" % (d["scenario"], d["message"]))
                with open(replay, "a") as f:
                    f.write("# reproduce: %s\n" % " ".join([*prog, "--scenario", sc["name"], "--replay", replay]))
                rc = 1
                print("  " + d["message"])
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    samples = []
    for d in runs:
        for o in d["outcomes"][:4]:
            samples.append({"scenario": d["scenario"], "outcome": o[0], "executions": o[1]})
    ex = sum(d["executions"] for d in runs)
    cov = {
        "states": sum(d["states"] for d in runs),
        "transitions": sum(d["transitions"] for d in runs),
        "traces_validated_against_impl": ex,
        "evaluations": ex,
        "distinct_nontrivial": sum(d["distinct_outcomes"] for d in runs),
        "rule": "every explored trace is an execution of the repository's own compiled code under the controlled scheduler (no separate model); "
                "an execution is one distinct sequence of schedule/input/environment choices; distinct_nontrivial counts distinct observed outcomes",
        "samples": samples[:40] or [{"scenario": d["scenario"], "executions": d["executions"]} for d in runs],
        "exhaustive": all(not d["capped"] and d["completed_P"] >= d["bound_P"] for d in runs),
        "scenarios": [{k: d[k] for k in ("scenario", "group", "params", "bound_P", "completed_P", "D", "deviations", "capped", "executions",
                                          "transitions", "states", "choice_points", "max_choices", "max_steps", "threads", "distinct_outcomes", "wall")}
                      for d in runs],
    }
    if prop[0] == "A" or prop == "N05":
        cov["simulated_kernel_vs_real"] = kernel_conformance(sos)
    if applied:
        cov["scaled_constants"] = applied
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.get("level", "model_checking"),
          "coverage": cov, "assumptions": COMMON_ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if rc else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    open(p + ".tmp", "w").write(json.dumps(ev, indent=1))
    os.rename(p + ".tmp", p)
    if rc:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD ERROR\n" + str(e))
        sys.exit(2)
