"""usage: python -m pyvc.replay JOB.json OUT.json
Runs contract harnesses on the real code with the repository's interpreter."""
import importlib
import json
import os
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")


def main():
    job = json.load(open(sys.argv[1]))
    from pyvc import conc
    mod = importlib.import_module(job["module"])
    h = getattr(mod, job["harness"])
    h = getattr(h, "fn", h)
    import qetpy
    assert os.path.realpath(qetpy.__file__).startswith(
        os.path.realpath(REPO)), qetpy.__file__
    t0 = time.time()
    n = disc = checks = 0
    covers = {}
    viol = None
    hints = job.get("hints") or [{}]
    seed = job["seed"] * 1000003
    if job.get("only_seed") is not None:
        seeds = [(job["only_seed"], job.get("only_hint", 0))]
    else:
        seeds = None
    i = 0
    while True:
        if seeds is not None:
            if i >= len(seeds):
                break
            sd, hi = seeds[i]
        else:
            if time.time() - t0 > job["time"] or n >= job["max"] or \
                    i > 50 * job["max"]:
                break
            sd, hi = seed + i, i % len(hints)
        i += 1
        hh = hints[hi]
        r, c = conc.run_one(h, sd, hh.get("hints"), hh.get("choices"),
                            job.get("grid", False))
        if r == "discard":
            disc += 1
            continue
        if r == "skip":
            break
        n += 1
        checks += c.checks
        for k, v in c.counts.items():
            covers[k] = covers.get(k, 0) + v
        if r is not None:
            known = False
            for pat in job.get("known", []):
                if pat["check"] == r.name and pat.get("text", "") in r.detail:
                    known = True
            if known:
                covers["known:" + r.name] = covers.get("known:" + r.name,
                                                       0) + 1
                continue
            viol = {"check": r.name, "detail": r.detail[:2000], "seed": sd,
                    "hint": hi, "inputs": {k: _js(v)
                                           for k, v in c.log.items()}}
            break
    with open(sys.argv[2], "w") as out:
        json.dump({"runs": n, "discarded": disc, "checks": checks,
                   "covers": covers, "violation": viol,
                   "wall": time.time() - t0}, out)


def _js(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.dtype.kind == "c":
            return {"re": v.real.tolist(), "im": v.imag.tolist()}
        return v.tolist()
    if isinstance(v, complex):
        return [v.real, v.imag]
    return v


main()
