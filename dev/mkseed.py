"""mkseed.py FILE: FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)].
Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json)."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

sp = importlib.util.spec_from_file_location("s", sys.argv[1])
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
only = sys.argv[2:]
PRE = getattr(m, "PRE", "")
for s in m.SEEDS:
    if only and s["id"] not in only:
        continue
    w = "/tmp/mkseed_w"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD sureal resource/util | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (w, w), shell=True)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        n = t.count(old)
        assert n == 1, (s["id"], f, n, old)
        open(p, "w").write(t.replace(old, new))
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as the property demands\nD="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$D/demo.py"\n')
    open(d + "/demo.py", "w").write(PRE + s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print("wrote", s["id"])
