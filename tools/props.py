"""Single source of properties.jsonl and MANIFEST.json
(python3 tools/props.py rewrites both)."""
import json
import os
import sys

sys.modules["props"] = sys.modules[__name__]

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
FIT = "qetpy/core/_fitting.py"


def prop(id, title, statement, text, why, files, mech, over=("inputs",),
         note=None, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": list(over), "text": text},
        why_tests_cant=why,
        anchors={"files": files, "mechanism": [
            {"name": n, "where": w} for n, w in mech],
            **({"observe_at": observe} if observe else {})}))
    PROPS[-1]["_note"] = note


def na(id, reason):
    NA.append({"property": id, "reason": reason})


from props_text import *  # noqa: E402,F401,F403

TECH = ("contract-based deductive verification of the instrumented source "
        "(pyvc: symbolic execution to verification conditions, ring "
        "normaliser + z3)")
NOTE = ("Every obligation generated from the current source is discharged "
        "for all input lengths and values; floats are treated as reals, "
        "complex arithmetic as exact, denominators as non-zero, library "
        "functions by contract (listed in the evidence). A run-time replay "
        "of the same contracts on the real code accompanies every run and is "
        "not part of the proof.")


BOUNDED = {"U09", "K09", "X06", "U11"}     # bounded stand-ins, not proofs


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    gone = {n["property"] for n in NA}
    man = {"version": 1,
           "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python "
                        "-W ignore -c 'import numpy, scipy'",
           "checks": [{
               "property": p["id"],
               "quick_cmd": "python3 checks/check.py %s" % p["id"],
               "thorough_cmd": "python3 checks/check.py %s --tier thorough"
               % p["id"],
               "technique": TECH,
               "level": "other" if p["id"] in BOUNDED else "proof",
               "level_note": p["_note"] if p["id"] in BOUNDED else
               (p["_note"] + " " if p["_note"] else "") + NOTE}
               for p in PROPS if p["id"] not in gone],
           "not_applicable": NA,
           "notes": "No hooks: the checks instrument the source of /repo "
                    "mechanically on every run (see DESIGN.md)."}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
