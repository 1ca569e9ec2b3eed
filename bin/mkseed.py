#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: completes /verif/seeded/ID from demo.cpp, patch.diff, note.json already there.

Copies a frozen, self-contained build kit (shims, drivers) next to the demonstration, writes demo.sh.
With --verify: runs the demonstration on a clean and on a patched worktree, and the stable tests' build."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: the property holds for this demonstration; nonzero: it is broken. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
base=/tmp; [ -w /dev/shm ] && base=/dev/shm
work=$(mktemp -d $base/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export VERIF_REPO="$PWD" VERIF_BUILD="$work/build" CCACHE_DISABLE=1
python3 "$here/kit/bin/build.py" demo >"$work/log" 2>&1 || { tail -40 "$work/log"; exit 3; }
mkdir "$work/data"
DEMO_DIR="$work/data" TMPDIR="$work" timeout 120 "$work/build/bin/demo" "$work/data"
'''
def make(i):
    d = f"{V}/seeded/{i}"
    k = d + "/kit"
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k + "/bin"); os.makedirs(k + "/harness")
    shutil.copy(V + "/bin/build.py", k + "/bin/")
    shutil.copytree(V + "/shim", k + "/shim")
    need = ["core", "inter", "fs", "model"]
    note = json.load(open(d + "/meta.json"))
    tgt = {"variant": "plain", "sources": need + ["runtime_free", "demo"]}
    if os.path.exists(d + "/target.json"):
        tgt = json.load(open(d + "/target.json"))
    for s in tgt["sources"]:
        for e in (".cpp", ".h"):
            p = f"{V}/harness/{s}{e}"
            if os.path.exists(p):
                shutil.copy(p, k + "/harness/")
    for s in tgt.pop("included", []):
        shutil.copy(f"{V}/harness/{s}.cpp", k + "/harness/")
    for s in os.listdir(V + "/harness"):
        if s.endswith(".h"):
            shutil.copy(f"{V}/harness/{s}", k + "/harness/")
    shutil.copy(d + "/demo.cpp", k + "/harness/demo.cpp")
    os.unlink(d + "/demo.cpp") if False else None
    json.dump({"demo": tgt}, open(k + "/harness/targets.json", "w"))
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def verify(i):
    d = f"{V}/seeded/{i}"
    w = tempfile.mkdtemp(prefix="wt.", dir="/tmp")
    os.rmdir(w)
    ok = True
    try:
        run(["git", "-C", "/repo", "worktree", "add", "--detach", w, "HEAD"])
        r = run(["bash", d + "/demo.sh"], cwd=w)
        print(i, "clean:", r.returncode, r.stdout.strip()[-300:].replace("\n", " | "))
        ok &= r.returncode == 0
        a = run(["git", "-C", w, "apply", d + "/patch.diff"])
        if a.returncode:
            print("patch does not apply:", a.stdout); return False
        r = run(["bash", d + "/demo.sh"], cwd=w)
        print(i, "patched:", r.returncode, r.stdout.strip()[-300:].replace("\n", " | "))
        ok &= r.returncode not in (0, 3)
    finally:
        run(["git", "-C", "/repo", "worktree", "remove", "--force", w])
    print(i, "OK" if ok else "NOT OK")
    return ok
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    rc = 0
    for i in ids:
        if "--noverify" not in sys.argv:
            make(i)
            rc |= not verify(i)
        else:
            make(i)
    sys.exit(rc)
