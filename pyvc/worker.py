"""usage: python3-vt -m pyvc.worker JOB.json OUT.json
Generates and discharges the obligations of one contract harness."""
import json
import sys
import time


def main():
    job = json.load(open(sys.argv[1]))
    t0 = time.time()
    from pyvc import load, vc, form, npshim
    out = {"harness": job["harness"], "obls": [], "problems": [], "paths": 0,
           "covers": []}
    try:
        proj = load.Project()
        mod = proj.module(job["module"])
        h = getattr(mod, job["harness"])
        rep = vc.run(job["harness"], h, proj, budget=job["budget"],
                     obl_limit=job.get("obl_limit", 40),
                     max_paths=job.get("max_paths", 1500),
                     fixed=job.get("fixed"), known=job.get("known", ()))
        out["paths"] = rep.paths
        out["covers"] = sorted(rep.covers)
        out["problems"] = rep.problems
        for o in rep.obls:
            out["obls"].append({
                "name": o.name, "status": o.status, "backend": o.backend,
                "detail": o.detail[:3000] if o.status != "proved" else "",
                "choices": o.choices, "hints": o.hints, "wall": o.wall})
        out["functions"] = sorted(proj.called) if hasattr(
            proj, "called") else []
    except BaseException as e:
        import traceback
        out["problems"].append("engine: %s: %s: %s" % (
            type(e).__name__, e, traceback.format_exc()[-1500:]))
    out["library"] = sorted(npshim.USED)
    out["stats"] = form.STATS
    out["wall"] = time.time() - t0
    json.dump(out, open(sys.argv[2], "w"), default=str)


import threading  # noqa: E402
sys.setrecursionlimit(12000)
threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=main)
th.start()
th.join()
