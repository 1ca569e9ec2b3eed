#!/usr/bin/env python3
"""Runs one check: build from /repo, explore, confirm each violation by replay, report.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--jobs N]
exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer (harness or build trouble)."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import build as B

CHECKS = json.load(open(os.path.join(VERIF, "harness", "checks.json")))


def scratch_dir():
    for base in ("/dev/shm", "/tmp"):
        try:
            d = tempfile.mkdtemp(prefix="vf.", dir=base)
            p = os.path.join(d, "x")
            open(p, "w").close()
            os.setxattr(p, "user.t", b"1")
            os.unlink(p)
            return d
        except OSError:
            continue
    raise SystemExit(2)


def known_findings():
    """(property, regex on 'case :: what', description) for findings; fixed lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)$", line)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def merge_evidence(ev, ev2):
    e, f = json.load(open(ev)), json.load(open(ev2))
    c, d = e["coverage"], f["coverage"]
    for k, v in d.items():
        if isinstance(v, bool):
            c[k] = c.get(k, True) and v
        elif isinstance(v, int):
            c[k] = c.get(k, 0) + v
        elif isinstance(v, list):
            c[k] = c.get(k, []) + v
        elif isinstance(v, str) and c.get(k) != v:
            c[k] = (c.get(k, "") + "; " + v).strip("; ")
    e["assumptions"] += [x for x in f["assumptions"] if x not in e["assumptions"]]
    e["wall_s"] += f["wall_s"]
    e["violations"] += f["violations"]
    json.dump(e, open(ev, "w"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", default=str(os.cpu_count() or 8))
    a = ap.parse_args()
    cfg = CHECKS[a.prop]
    exe = B.build(cfg["target"])
    scratch = scratch_dir()
    ev = os.path.join(VERIF, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("SECUREFS") or k in ("LD_PRELOAD",):
            env.pop(k)
    args = ["--prop", a.prop, "--tier", a.tier, "--seed", os.environ.get("VERIF_SEED", "1"),
            "--findings", os.path.join(VERIF, "known-findings.txt")]
    # A companion explores another part of the property; its cases start with '@'.
    companion = B.build(cfg["companion"]) if cfg.get("companion") else None

    def base(case_file):
        first = open(case_file, errors="replace").read(1)
        return [companion if companion and first == "@" else exe] + args
    try:
        if a.replay:
            r = subprocess.run(base(a.replay) + ["--scratch", scratch, "--replay", a.replay], env=env)
            return r.returncode
        if os.path.exists(ev):
            os.unlink(ev)
        r = subprocess.run([exe] + args + ["--scratch", scratch, "--evidence", ev, "--jobs", a.jobs], env=env)
        rc = r.returncode
        if companion and rc == 0:
            ev2 = os.path.join(scratch, "companion.json")
            r = subprocess.run([companion] + args + ["--scratch", scratch, "--evidence", ev2, "--jobs", a.jobs], env=env)
            rc = r.returncode
            if os.path.exists(ev2):
                merge_evidence(ev, ev2)
        findings = [f for f in known_findings() if f[0] == a.prop]
        for f in findings:
            print(f"KNOWN-FINDING: property={a.prop} {f[2]}")
        if rc == 1:
            vd = os.path.join(VERIF, "build", "violations")
            os.makedirs(vd, exist_ok=True)
            confirmed = fresh = 0
            for i in range(16):
                cp = os.path.join(scratch, f"viol.{i}.case")
                if not os.path.exists(cp):
                    break
                case = open(cp, errors="replace").read().strip()
                what = open(cp[:-4] + "what", errors="replace").read().strip()
                if any(f[1].search(case + " :: " + what) for f in findings):
                    continue
                fresh += 1
                print(f"case: {case}\n  {what}", flush=True)
                rp = os.path.join(vd, f"{a.prop}.{i}.case")
                shutil.copy(cp, rp)
                rs = tempfile.mkdtemp(dir=scratch)
                rr = subprocess.run(base(rp) + ["--scratch", rs, "--replay", rp], env=env,
                                    stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
                print(f"  replay: {rr.stdout.strip()[:2000]} {rr.stderr.strip()[-500:]}")
                if rr.returncode == 1:
                    confirmed += 1
                    print(f"VIOLATION property={a.prop} replay={rp}", flush=True)
            if confirmed:
                return 1
            if not fresh:
                print("only listed findings were reported")
                return 0
            sys.stderr.write("violations were reported but none replayed\n")
            return 2
        return 0 if rc == 0 else 2
    finally:
        if scratch.startswith(("/dev/shm/vf.", "/tmp/vf.")):
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
