"""mkseed.py ID PROPERTY FILE  (reads a python literal dict from stdin: old, new | edits, demo, needs, breaks)
Writes seeded/ID from a scratch copy of /repo; then tools/tryseed.sh ID confirms it."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = eval(sys.stdin.read())
sid, pid = sys.argv[1:3]
w = "/tmp/mkseed_" + sid
if os.path.exists(w):
    shutil.rmtree(w)
subprocess.check_call(["git", "clone", "-q", "/repo", w])
for f, old, new in d["edits"]:
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, "w").write(s.replace(old, new))
out = os.path.join(ROOT, "seeded", sid)
os.makedirs(out, exist_ok=True)
open(os.path.join(out, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
open(os.path.join(out, "demo.sh"), "w").write(
    '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
    'export PYTHONPATH="$PWD:$PWD/torchlie:$PWD/torchkin"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(out, "demo.sh"), 0o755)
open(os.path.join(out, "demo.py"), "w").write(d["demo"].strip() + "\n")
json.dump(dict(property=pid, needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
shutil.rmtree(w)
