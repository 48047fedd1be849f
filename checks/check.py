#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough]
Discharges every obligation of the property's contracts on the current /repo
tree; see DESIGN.md."""
import ast
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
RP = os.environ.get("VERIF_REPO_PYTHON") or (
    "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python")
    else sys.executable)


def registry():
    """[(prop, module, harness, targets, meta)] from the contract sources"""
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.py"))):
        mod = "contracts." + os.path.basename(f)[:-3]
        t = ast.parse(open(f).read())
        consts = {}
        for n in t.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                consts[n.targets[0].id] = n.value.value
        for n in t.body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(
                        d.func, "id", "") == "contract":
                    env = dict(consts)
                    targets = eval(compile(ast.Expression(d.args[1]), f,
                                           "eval"), env)
                    meta = {k.arg: eval(compile(ast.Expression(k.value), f,
                                                "eval"), env)
                            for k in d.keywords}
                    out.append((ast.literal_eval(d.args[0]), mod, n.name,
                                targets, meta))
    return out


def run_json(cmd, job, tmp, tag, env, timeout):
    jf = os.path.join(tmp, tag + ".job.json")
    of = os.path.join(tmp, tag + ".out.json")
    json.dump(job, open(jf, "w"))
    err = ""
    try:
        p = subprocess.run(cmd + [jf, of], cwd=VERIF, env=env,
                           capture_output=True, text=True, timeout=timeout)
        err = (p.stderr or "")[-2000:]
    except subprocess.TimeoutExpired:
        err = "killed after %d s" % timeout
    if os.path.exists(of):
        try:
            return json.load(open(of)), err
        except ValueError:
            pass
    return None, err


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    hs = [r for r in registry() if r[0] == prop]
    if not hs:
        print("no contracts for " + prop)
        return 2
    budget = 300 if tier == "quick" else 900
    conf_t = 4 if tier == "quick" else 60
    search_t = 25 if tier == "quick" else 120
    env = dict(os.environ)
    env["PYTHONPATH"] = VERIF
    env["VERIF_REPO"] = REPO
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    kf = os.path.join(VERIF, "known_findings.json")
    known = [k for k in json.load(open(kf)).get("findings", [])
             if k["property"] == prop] if os.path.exists(kf) else []
    tmp = tempfile.mkdtemp(prefix="pyvc_")
    evid = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    replay_dir = os.path.join(evid, "replay")
    os.makedirs(replay_dir, exist_ok=True)

    def prove(h, fixed, tag):
        _, mod, name, targets, meta = h
        if meta.get("crosscheck"):
            return {"obls": [], "problems": [], "paths": 0, "covers": [],
                    "library": [], "stats": {}, "wall": 0}
        if meta.get("bounded"):
            return {"obls": [], "problems": ["declared bounded: "
                                             + str(meta["bounded"])],
                    "paths": 0, "covers": [], "library": [],
                    "stats": {}, "wall": 0}
        job = {"module": mod, "harness": name, "budget": budget,
               "fixed": fixed,
               "known": [k["check"] for k in known if k["harness"] == name],
               "obl_limit": 60 if tier == "quick" else 120}
        rep, err = run_json([VT, "-m", "pyvc.worker"], job, tmp, tag,
                            env, budget + 120)
        if rep is None:
            rep = {"obls": [], "problems": ["engine: no result: " + err],
                   "paths": 0, "covers": [], "library": [], "stats": {},
                   "wall": 0}
        return rep

    def merge(reps):
        out = {"obls": [], "problems": [], "paths": 0, "covers": [],
               "library": [], "stats": {}, "wall": 0}
        for r in reps:
            for k in ("obls", "problems", "covers", "library"):
                out[k] += r[k]
            out["paths"] += r["paths"]
            out["wall"] += r.get("wall", 0)
            for k, v in r["stats"].items():
                out["stats"][k] = out["stats"].get(k, 0) + v
        return out

    def one(h, futs):
        _, mod, name, targets, meta = h
        kn = [k for k in known if k["harness"] == name]
        rep = merge([f.result() for f in futs])
        open_ = []
        for o in rep["obls"]:
            if o["status"] == "proved":
                continue
            o["known"] = None
            for k in kn:
                if k["check"] == o["name"] and all(
                        o["choices"].get(c) == v
                        for c, v in k.get("choices", {}).items()):
                    o["known"] = k
            open_.append(o)
        missing = [c for c in meta.get("covers", [])
                   if c not in rep["covers"]]
        if not rep["problems"] and not meta.get("crosscheck") and \
                not open_:
            if not rep["obls"]:
                rep["problems"].append("vacuous: no obligation generated")
            if missing:
                rep["problems"].append("vacuous: not reached: %s" % missing)
        failed = [o for o in open_ if o["status"] == "failed"
                  and not o["known"]]
        undecided = [o for o in open_ if o["status"] != "failed"
                     and not o["known"]]
        hints, seen = [{}], set()
        for o in failed + undecided:
            key = json.dumps([o["choices"], o["hints"]], sort_keys=True)
            if key not in seen and len(hints) < 24:
                seen.add(key)
                hints.append({"hints": {}, "choices": o["choices"]})
                if o["hints"]:
                    hints.append({"hints": o["hints"],
                                  "choices": o["choices"]})
        for p in rep["problems"]:
            m = re.search(r"\(path (\{.*\})\)$", p)
            if m and len(hints) < 30:
                hints.append({"hints": {},
                              "choices": ast.literal_eval(m.group(1))})
        tm = conf_t
        if failed or undecided or rep["problems"]:
            tm = search_t
        job2 = {"module": mod, "harness": name, "seed": seed,
                "time": meta.get("time", tm), "grid": meta.get("grid", False),
                "max": (300 if tier == "quick" else 5000) if tm == conf_t
                else 100000, "hints": hints,
                "known": [{"check": k["check"], "text": k.get("text", "")}
                          for k in kn]}
        if meta.get("max"):
            job2["max"] = meta["max"] * (1 if tm == conf_t else 10)
        r, err2 = run_json([RP, "-m", "pyvc.replay"], job2, tmp,
                           name + "_r", env, tm + 120)
        return h, rep, failed, undecided, r, err2, hints

    def splits(meta):
        """case split of a harness over some of its choices"""
        out = [{}]
        for k, n in (meta.get("split") or {}).items():
            out = [dict(d, **{k: i}) for d in out for i in range(n)]
        return out

    res = []
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex, \
                cf.ThreadPoolExecutor(max_workers=8) as ex2:
            futs = [(h, [ex.submit(prove, h, fx, "%s_%d" % (h[2], i))
                         for i, fx in enumerate(splits(h[4]))]) for h in hs]
            for r in [ex2.submit(one, h, f) for h, f in futs]:
                res.append(r.result())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = []
    funcs, assumptions, bounded, details = {}, set(), [], []
    nobl = nproved = 0
    backends = {}
    z3n = z3t = 0
    runs = checks = 0
    lib = set()
    broken = []
    kfound = {}
    for h, rep, failed, undecided, r, err2, hints in res:
        _, mod, name, targets, meta = h
        nobl += len(rep["obls"])
        nproved += sum(o["status"] == "proved" for o in rep["obls"])
        for o in rep["obls"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        z3n += rep.get("stats", {}).get("z3", 0)
        z3t += rep.get("stats", {}).get("z3_time", 0)
        lib.update(rep.get("library", []))
        complete = not rep["problems"] and not failed and not undecided
        for t in targets if not meta.get("crosscheck") else ():
            funcs.setdefault(t, set()).add(
                "proved" if complete else "open")
        for a in meta.get("assumes", []):
            assumptions.add(a)
        d = {"harness": mod + ":" + name, "functions": targets,
             "paths": rep["paths"], "obligations": len(rep["obls"]),
             "discharged": sum(o["status"] == "proved" for o in rep["obls"]),
             "complete": complete, "wall_s": round(rep.get("wall", 0), 2),
             "problems": rep["problems"][:5],
             "bounded_runs": r["runs"] if r else 0}
        details.append(d)
        if r is None:
            broken.append("%s: run-time contract check did not finish: %s"
                          % (name, err2))
        else:
            runs += r["runs"]
            checks += r["checks"]
        if rep["problems"] or undecided:
            bounded.append("%s: %s; bounded stand-in: %d random executions "
                           "of the real code" % (
                               name, (rep["problems"] + [
                                   o["name"] + ": " + o["status"]
                                   for o in undecided])[0][:300],
                               r["runs"] if r else 0))
        for o in rep["obls"]:
            if o["status"] != "proved" and o.get("known"):
                kfound[o["known"]["id"]] = o["known"]
        if r:
            for c in r["covers"]:
                if c.startswith("known:"):
                    for k in known:
                        if k["check"] == c[6:]:
                            kfound[k["id"]] = k
        if r and r["violation"]:
            v = r["violation"]
            names = sorted({o["name"] for o in failed})
            viol.append({"kind": "failing-input", "harness": mod + ":" + name,
                         "functions": targets, "check": v["check"],
                         "detail": v["detail"], "inputs": v["inputs"],
                         "seed": v["seed"], "hint": hints[v["hint"]],
                         "failed_obligations": names,
                         "verifier_output": [o["detail"][:1500]
                                             for o in failed[:3]]})
        elif failed:
            viol.append({"kind": "no-failing-input-found",
                         "harness": mod + ":" + name, "functions": targets,
                         "failed_obligations": [
                             {"name": o["name"], "choices": o["choices"],
                              "verifier_output": o["detail"],
                              "model": o["hints"]} for o in failed[:10]],
                         "search": {"executions": r["runs"] if r else 0}})
    level = "proof" if nobl and not bounded else "other"
    man = os.path.join(VERIF, "MANIFEST.json")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": nobl, "discharged": nproved,
            "checker_cmd": "python3-vt -m pyvc.worker (one process per "
                           "contract harness; pyvc = symbolic execution of "
                           "the instrumented source, ring normaliser, z3 "
                           "4.8/4.x python API); replay: " + RP +
                           " -m pyvc.replay",
            "trusted_base": [
                "pyvc (/verif/pyvc): source instrumentation, path "
                "enumeration, ring normal form, sum/DFT rules",
                "z3 (SMT back end)",
                "contracts of library functions (pyvc/npshim.py): "
                + ", ".join(sorted(lib))],
            "functions_under_contract": {
                k: ("open" if "open" in v else "proved")
                for k, v in sorted(funcs.items())},
            "back_ends": backends, "smt_queries": z3n,
            "smt_seconds": round(z3t, 2),
            "harnesses": details, "bounded": bounded,
            "runtime_contract_executions": runs,
            "runtime_contract_checks": checks,
            "explanation": "deductive verification of the instrumented "
            "source; bounded entries (if any) are run-time contract checks "
            "and are not counted as discharged"},
        "assumptions": sorted(assumptions | {
            "machine arithmetic is treated as exact (reals, unbounded "
            "integers); complex arithmetic exact",
            "every denominator the code divides by is non-zero unless the "
            "contract says otherwise",
            "the run-time contract executions are a cross-check, not part "
            "of the proof"}),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"),
              indent=1)
    for k in sorted(kfound):
        print("KNOWN-FINDING: property=%s %s" % (prop, kfound[k]["what"]))
    for d in details:
        print("%s: %d paths, %d/%d obligations discharged, %d contract "
              "executions, %.1f s%s" % (
                  d["harness"], d["paths"], d["discharged"],
                  d["obligations"], d["bounded_runs"], d["wall_s"],
                  "" if d["complete"] else "  [NOT COMPLETE]"))
    for b in bounded:
        print("bounded: " + b)
    if viol:
        for i, v in enumerate(viol):
            path = os.path.join(replay_dir, "%s_%s.json" % (
                prop, v["harness"].split(":")[1]))
            v["property"] = prop
            v["replay_cmd"] = ("cd /verif && VERIF_REPO=%s python3 "
                               "checks/replay.py %s" % (REPO, path))
            json.dump(v, open(path, "w"), indent=1)
            if v["kind"] == "failing-input":
                print("failing obligation %r of %s on the real code: %s"
                      % (v["check"], v["harness"], v["detail"][:300]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            else:
                print("failed obligation(s): %s" % sorted(
                    {o["name"] for o in v["failed_obligations"]}))
                print("VIOLATION property=%s replay=%s "
                      "no-failing-input-found" % (prop, path))
        return 1
    if broken:
        for b in broken:
            print("ERROR " + b)
        return 2
    return 0


sys.exit(main())
