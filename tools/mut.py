"""mut(id, [(file, old, new)…], label): run a check on the worktree /tmp/chk with an edit (quick experiments)"""
import subprocess, os, sys
W = os.environ.get("CHK", "/tmp/chk")
def reset():
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    subprocess.run(["git", "-C", W, "checkout", "-q", "--detach", h], check=True)
def mut(ids, edits, label=""):
    reset()
    for f, o, n in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(o) < 1:
            print(label, "NO MATCH", o[:60]); reset(); return
        open(p, "w").write(s.replace(o, n, 1))
    env = dict(os.environ, CED_REPO=W)
    for i in ids.split():
        r = subprocess.run(["bash", "check.sh", i], cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = [l for l in r.stdout.splitlines() if l.startswith(i + ":") or "error" in l]
        print("%-32s %s rc=%d %s" % (label, i, r.returncode, "" if r.returncode == 0 else " | ".join(l[:150] for l in ls[:3])), flush=True)
    reset()
