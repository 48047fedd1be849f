#!/usr/bin/env python3
"""tools/plant.py ID... : try the planted bugs of /verif/seeded in scratch
copies of /repo: the demo passes without and fails with the patch, the stable
tests still pass, and the property's check reports it.
options: --notest, --nocheck"""
import json
import os
import shutil
import subprocess
import sys
import time
import concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, text=True,
                       capture_output=True)
    return p.returncode, p.stdout + p.stderr


def tests(copy):
    xml = os.path.join(copy, "..", "junit.xml")
    sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 "
       "--continue-on-collection-errors -W ignore -o junit_family=xunit2 "
       "--junitxml=%s" % xml, copy, PYTHONPATH=copy, OMP_NUM_THREADS="1",
       MPLBACKEND="Agg")
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(xml).iter("testcase"):
        if not any(ch.tag in ("failure", "error", "skipped") for ch in t):
            ok.add(t.get("classname") + "::" + t.get("name"))
    return [s for s in STABLE if s not in ok]


def one(bid, opts):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = "/tmp/plant_" + bid
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    copy = os.path.join(tmp, "repo")
    sh("cp -a /repo " + copy, "/")
    sh("git checkout -q -- .", copy)
    out = ["%s (%s)" % (bid, meta["property"])]
    demo = "bash " + os.path.join(d, "demo.sh")
    rc, o = sh(demo, copy, PYTHONPATH=copy)
    if rc:
        out.append("  DEMO FAILS UNCHANGED: " + o[-600:])
    rc, o = sh("git apply " + os.path.join(d, "patch.diff"), copy)
    if rc:
        out.append("  PATCH DOES NOT APPLY: " + o)
    rc, o = sh(demo, copy, PYTHONPATH=copy)
    out.append("  demo with patch: rc %d %s" % (
        rc, o.strip().splitlines()[-1:] if rc else "NOT DETECTED BY DEMO"))
    if "--notest" not in opts:
        bad = tests(copy)
        out.append("  tests: " + ("ok" if not bad else "BREAKS %s" % bad))
    if "--nocheck" not in opts:
        for p in [meta["property"]] + meta.get("also", []):
            t = time.time()
            rc, o = sh("python3 checks/check.py " + p, V, VERIF_REPO=copy,
                       VERIF_EVID="/tmp/plant_%s/ev" % bid,
                       OPENBLAS_NUM_THREADS="1")
            out.append("  check %s: rc %d (%.0f s)" % (p, rc,
                                                       time.time() - t))
            for ln in o.splitlines():
                if not ln.endswith(" s") or rc != 1:
                    out.append("     " + ln[:300])
    shutil.rmtree(tmp, ignore_errors=True)
    return "\n".join(out)


ids = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = [a for a in sys.argv[1:] if a.startswith("--")]
if not ids:
    ids = sorted(os.listdir(os.path.join(V, "seeded")))
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(lambda b: one(b, opts), ids):
        print(r, flush=True)
