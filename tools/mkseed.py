#!/usr/bin/env python3
"""mkseed.py: writes /verif/seeded/<id>/ from a spec given on stdin as python:
ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (python source run with phasor importable)."""
import sys, os, json, subprocess, tempfile, shutil
spec = {}
exec(sys.stdin.read(), spec)
d = "/verif/seeded/" + spec["ID"]
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(dir="/tmp")
diff = ""
for path, old, new in spec["EDITS"]:
    p = os.path.join(w, path)
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copy("/repo/" + path, p)
    s = open(p, newline="").read()
    assert s.count(old) == 1, (path, s.count(old))
    open(p, "w", newline="").write(s.replace(old, new))
for path in sorted(set(e[0] for e in spec["EDITS"])):
    r = subprocess.run(["diff", "-u", "--label", "a/" + path, "--label", "b/" + path, "/repo/" + path, os.path.join(w, path)], capture_output=True, text=True)
    diff += r.stdout
shutil.rmtree(w)
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.py", "w").write("import py39_compat\n" + spec["DEMO"].lstrip())
open(d + "/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
