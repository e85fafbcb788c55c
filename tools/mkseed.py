#!/usr/bin/env python3
"""Create /verif/seeded/<id>/ from an edit list, and verify it (development helper, not a check).

usage: mkseed.py spec.py   where spec.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
"""
import json, os, subprocess, sys, runpy
V = "/verif/seeded"
R = "/repo"
SH = """#!/bin/sh
# exit 0: behaviour as promised; nonzero: broken
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export MPLBACKEND=Agg MPLCONFIGDIR="${TMPDIR:-/tmp}/mplcfg.$$" PYTHONDONTWRITEBYTECODE=1
mkdir -p "$MPLCONFIGDIR"
PYTHONPATH="$(pwd)" "$PY" -W ignore "$(dirname "$0")/demo.py"
rc=$?
rm -rf "${TMPDIR:-/tmp}/mplcfg.$$"
exit $rc
"""
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def tests():
    sh("bash /opt/vp/build.sh"); sh("bash /opt/vp/test.sh /tmp/o.json")
    o = json.load(open("/tmp/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    def P(x):
        for k in ("passed", "passing", "stable", "tests"):
            if isinstance(x, dict) and k in x: return set(x[k])
        return set(x)
    return sorted(P(b) - P(o))
GOLD = """import sys, os, warnings
warnings.simplefilter("ignore")
import numpy as np
import matplotlib
matplotlib.use("Agg")
from tftb.generators import *
import tftb.generators as G
from tftb.generators import misc, noise, frequency_modulated, amplitude_modulated, analytic_signals, utils as gutils
from tftb import utils
from tftb.processing import cohen, linear, affine, reassigned, ambiguity, freq_domain, time_domain, postprocessing, plotifl, base
from tftb.processing import utils as putils
HERE = os.path.dirname(os.path.abspath(__file__))
EXPR = %s
def flat(v):
    if isinstance(v, (tuple, list)):
        return [np.atleast_1d(np.asarray(x, dtype=complex)).ravel() for x in v]
    return [np.atleast_1d(np.asarray(v, dtype=complex)).ravel()]
def outcome(e):
    np.random.seed(7)
    try:
        ns = dict(globals())
        exec("def f():\\n" + "\\n".join("    " + l for l in e.splitlines()), ns)
        return flat(ns["f"]())
    except Exception as x:
        return type(x).__name__
def main():
    if "--record" in sys.argv:
        d = {}
        for i, e in enumerate(EXPR):
            o = outcome(e)
            if isinstance(o, str):
                d["%%d_exc" %% i] = np.array(o)
            else:
                for k, x in enumerate(o):
                    d["%%d_%%d" %% (i, k)] = x
        np.savez_compressed(HERE + "/golden.npz", **d)
        return 0
    gold = np.load(HERE + "/golden.npz")
    for i, e in enumerate(EXPR):
        o = outcome(e)
        if isinstance(o, str):
            if "%%d_exc" %% i not in gold or str(gold["%%d_exc" %% i]) != o:
                print("unexpected", o, "for", e); return 1
            continue
        n = len([k for k in gold.files if k.startswith("%%d_" %% i)])
        if n != len(o):
            print("results", e); return 1
        for k, x in enumerate(o):
            key = "%%d_%%d" %% (i, k)
            if key not in gold.files:
                print("should raise", gold["%%d_exc" %% i], e); return 1
            g = gold[key]
            if g.shape != x.shape or not np.allclose(g, x, rtol=1e-6, atol=1e-9, equal_nan=True):
                print("different result", k, "of", e); return 1
    return 0
sys.exit(main())
"""
spec = runpy.run_path(sys.argv[1])["SEEDS"]
only = set(sys.argv[2:])
for s in spec:
    if only and s["id"] not in only: continue
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
    d = os.path.join(V, s["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    if "golden" in s:
        open(d + "/demo.py", "w").write(GOLD % repr(s["golden"]))
        g = sh("cd %s && PYTHONPATH=. /opt/venv/bin/python %s/demo.py --record" % (R, d))
        assert g.returncode == 0, g.stderr
    else:
        open(d + "/demo.py", "w").write(s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        for f, a, b in s["edits"]:
            p = os.path.join(R, f); t = open(p).read()
            assert t.count(a) == 1, (s["id"], f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        miss = tests()
        bad = sh("cd %s && sh %s/demo.sh" % (R, d))
        out = []
        props = [s["property"]] + s.get("also", [])
        for p in props:
            c = sh("cd /verif && ./check %s" % p)
            out.append("%s rc=%d %s" % (p, c.returncode, "CAUGHT" if c.returncode == 1 and "VIOLATION property=%s" % p in c.stdout else "missed"))
            if c.returncode == 1: out.append([l for l in c.stdout.splitlines() if l.startswith("  ")][:2])
    finally:
        sh("git -C %s checkout -- ." % R)
    sh("bash /opt/vp/build.sh")
    good = sh("cd %s && sh %s/demo.sh" % (R, d))
    ok = not miss and bad.returncode != 0 and good.returncode == 0
    print(s["id"], "OK" if ok else "INVALID", "tests missing", miss, "demo bad/good", bad.returncode, good.returncode, out)
    if not ok: print(bad.stdout[-300:], bad.stderr[-600:], good.stdout[-300:], good.stderr[-600:])
