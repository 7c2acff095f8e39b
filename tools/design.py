#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between markers)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from props import PROPS
import props
def block(name, text, s):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    new = b + "\n" + text + "\n" + e
    if "@@%s@@" % name in s:
        return s.replace("@@%s@@" % name, new)
    return re.sub(re.escape(b) + r".*?" + re.escape(e), lambda m: new, s, flags=re.S)
t = ["| id | property | enumerated (quick bounds) | why tests cannot |", "|---|---|---|---|"]
def b(sc, tier):
    x = sc[tier]
    p = " ".join("%s=%s" % kv for kv in x.get("params", {}).items())
    return "%s P=%d%s%s" % (sc["name"], x.get("P", 2), " D=%d" % x["D"] if x.get("D") else "", " " + p if p else "")
for k, p in PROPS.items():
    t.append("| %s | %s | %s. Drivers: %s | %s |" % (k, p["title"], p["quant"], "; ".join(b(s, "quick") for s in p["scenarios"]), p["why"]))
for k, p in getattr(props, "UNCLAIMED", {}).items():
    t.append("| %s | %s | not claimed: %s | |" % (k, p["title"], p["reason"]))
f = ["* **%s** `%s` %s" % tuple(m.groups()) for m in re.finditer(r"^fixed: property=(\S+) (\S+) (.*)$", open(os.path.join(V, "KNOWN_FINDINGS")).read(), re.M)]
s = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
cb = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    s.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], cb.get(i, m["property"])))
p = os.path.join(V, "DESIGN.md")
x = open(p).read()
x = block("TABLE", "\n".join(t), x)
x = block("FIXED", "\n".join(f), x)
x = block("SEEDS", "\n".join(s), x)
open(p, "w").write(x)
