"""mkbug(id, prop, file, [(old, new)], needs, breaks, demo): writes
/verif/seeded/<id> from the current HEAD of /repo"""
import json
import os
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 on a correct tree, non-zero on a broken one
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x $py ] || py=python3
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg \\
    exec $py -W ignore "$here/demo.py"
'''


def mkbug(bid, prop, file, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"],
                       check=True)
        p = os.path.join(tmp, "r", file)
        s = open(p).read()
        for old, new in edits:
            assert s.count(old) >= 1, (bid, "not found", old)
            if isinstance(new, tuple):       # (replacement, nth)
                new, n = new
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            else:
                assert s.count(old) == 1, (bid, "ambiguous", s.count(old),
                                           old)
                s = s.replace(old, new)
        open(p, "w").write(s)
        diff = subprocess.run(["git", "diff"], cwd=tmp + "/r", check=True,
                              capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
