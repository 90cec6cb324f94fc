"""mkseed.py: helper that writes seeded/<id>/ from an edit of a scratch worktree (/tmp/edit)"""
import json, os, shutil, subprocess, sys

W = "/tmp/edit"
SEEDED = "/verif/seeded"


def seed(id, prop, edits, demo, needs, breaks):
    subprocess.check_call(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.DEVNULL)
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", head])
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    o = os.path.join(SEEDED, id)
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(os.path.join(o, "patch.diff"), "w").write(d)
    shutil.copy("/verif/tools/ced.py", o)
    open(os.path.join(o, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom ced import *\n\n" + demo.strip() + "\n")
    open(os.path.join(o, "demo.sh"), "w").write('#!/bin/bash\n# run in the repository after the build\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", head])
    print(id)
