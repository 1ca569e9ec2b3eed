#!/usr/bin/env python3
"""tryseed.py ID... [--tier T]: runs each seeded bug's check against a patched scratch worktree."""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = "quick"
ids = []
for a in sys.argv[1:]:
    if a.startswith("--tier="): tier = a[7:]
    else: ids.append(a)
if not ids: ids = sorted(os.listdir(V + "/seeded"))
w = "/tmp/tryseed.wt"
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w], capture_output=True)
subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", w, "HEAD"], check=True, capture_output=True)
env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD="/tmp/tryseed.build")
for i in ids:
    d = f"{V}/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
    a = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        print(i, p, "PATCH DOES NOT APPLY", a.stderr[:200]); continue
    t = time.time()
    r = subprocess.run([V + "/bin/check.py", p, "--tier", tier], env=env, capture_output=True, text=True, errors="replace", timeout=1500)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    c = [l for l in r.stdout.split("\n") if l.startswith("case:")]
    print(i, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", f"{time.time()-t:.0f}s", (c or [r.stderr[-200:]])[0][:150], flush=True)
    ev = f"{V}/evidence/{p}.json"
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w], capture_output=True)
