#!/usr/bin/env python3
"""Builds a check executable from /repo's current working tree into /verif/build (git-ignored).

build(target) -> path of the executable. Targets are listed in TARGETS: a variant of the repository's
objects plus the harness sources of that check."""
import json, fcntl, glob, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# A different repository (development only) gets its own build directory.
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-std=c++17", "-g1", "-w", "-D_FILE_OFFSET_BITS=64", "-DFUSE_USE_VERSION=29", "-pthread"]
# variant -> extra flags for the repository's sources
VARIANTS = {
    "plain": ["-O1"],
    # compiler-inserted calls at every memory access and atomic, answered by our own runtime
    "mc": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "asan": ["-O1", "-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
# target -> (variant, harness sources, needs commands.cpp)
TARGETS = {
    "c_fs": ("plain", ["core", "inter", "fs", "model", "runtime_free", "c_fs"], False),
}

LFLAGS = {}


def load_targets():
    import json
    p = os.path.join(VERIF, "harness", "targets.json")
    if os.path.exists(p):
        for k, v in json.load(open(p)).items():
            TARGETS[k] = (v["variant"], v["sources"], v.get("commands", False))
            LFLAGS[k] = v.get("lflags", "")


def write_if_changed(path, data):
    try:
        if open(path).read() == data:
            return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(data)


def q(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(target, jobs=None, quiet=True):
    load_targets()
    variant, hsrc, commands = TARGETS[target]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    src = os.path.join(REPO, "sources")
    write_if_changed(os.path.join(gen, "is_fuse_t.h"),
                     open(os.path.join(src, "is_fuse_t.h.in")).read().replace("@SECUREFS_IS_FUSE_T_VALUE_FOR_HEADER@", "false"))
    gv = open(os.path.join(src, "git-version.cpp.in")).read()
    import re
    gv = re.sub(r"@[A-Za-z_]+@", "verif", gv)
    write_if_changed(os.path.join(gen, "git-version.cpp"), gv)

    repo_cpp = sorted(glob.glob(os.path.join(src, "**", "*.cpp"), recursive=True))
    repo_cpp = [p for p in repo_cpp if os.path.basename(p) not in ("win.cpp",)]
    if not commands:
        repo_cpp = [p for p in repo_cpp if os.path.basename(p) != "commands.cpp"]
    protos = sorted(glob.glob(os.path.join(REPO, "protos", "*.proto")))

    cxx = "clang++"
    ccache = shutil.which("ccache")
    launcher = (ccache + " ") if ccache else ""
    shim = os.path.join(VERIF, "shim")
    inc = f"-I{shim} -I{gen} -I{src} -I/usr/include/fuse"
    force = f"-include {shim}/vrt_mutex.h"
    libs = sorted({"-l" + os.path.basename(p)[3:-3] for p in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so")})
    n = []
    n.append(f"builddir = {BUILD}")
    n.append(f"rule cc\n  command = {launcher}{cxx} $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    n.append(f"rule protoc\n  command = protoc --proto_path={REPO}/protos --cpp_out={gen} $in\n")
    n.append(f"rule link\n  command = {cxx} -rdynamic -pthread $lflags -o $out $in -lfuse -lprotobuf -lcryptopp -largon2 -lsqlite3 -licuuc -licui18n {' '.join(libs)} -ldl\n")
    pbh = []
    pbcc = []
    for p in protos:
        b = os.path.basename(p)[:-6]
        n.append(f"build {gen}/{b}.pb.cc {gen}/{b}.pb.h: protoc {p}")
        pbh.append(f"{gen}/{b}.pb.h")
        pbcc.append(f"{gen}/{b}.pb.cc")
    od = os.path.join(BUILD, "obj", variant)
    vflags = " ".join(VARIANTS[variant])
    if os.environ.get("VERIF_COV"):
        # development only: see harness/cov.cpp
        vflags += " -fsanitize-coverage=trace-pc-guard,pc-table"
        hsrc = list(hsrc) + ["cov"]
    objs = []

    def add(path, name, flags):
        o = os.path.join(od, name + ".o")
        n.append(f"build {o}: cc {path} || {' '.join(pbh)}\n  flags = {flags}")
        objs.append(o)

    for p in repo_cpp:
        add(p, "repo_" + os.path.relpath(p, src).replace("/", "_"),
            f"{force} {' '.join(COMMON)} {vflags} {inc}")
    for p in pbcc:
        add(p, "gen_" + os.path.basename(p), f"{' '.join(COMMON)} -O1 {inc}")
    add(gen + "/git-version.cpp", "gen_gitversion", f"{' '.join(COMMON)} -O1 {inc}")
    add(shim + "/uni_algo_shim.cpp", "shim_uni", f"{' '.join(COMMON)} -O1 {inc}")
    add(shim + "/absl_bridge_std.cpp", "shim_std", f"{force} {' '.join(COMMON)} -O1 {inc}")
    add(shim + "/absl_bridge_real.cpp", "shim_real", "-std=c++17 -O1 -w")
    hd = os.path.join(VERIF, "harness")
    for h in hsrc:
        fl = f"{' '.join(COMMON)} -O1 {inc} -I{hd}"
        # runtime sources and pure-libc ones do not see the shimmed mutexes
        if h == "inter" or h.startswith("runtime_"):
            fl += " -U_FILE_OFFSET_BITS"
        else:
            fl = force + " " + fl
        add(os.path.join(hd, h + ".cpp"), "h_" + h, fl)
    exe = os.path.join(BUILD, "bin", target)
    n.append(f"build {exe}: link {' '.join(objs)}\n  lflags = {('-fsanitize=address,undefined ' if variant == 'asan' else '') + LFLAGS.get(target, '')}")
    nf = os.path.join(BUILD, target + ".ninja")
    write_if_changed(nf, "\n".join(n) + "\n")
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G", CCACHE_SLOPPINESS="")
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    r = subprocess.run(["ninja", "-f", nf, "-j", str(jobs or os.cpu_count() or 8), exe], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write("\n".join(l for l in r.stdout.split("\n") if not re.match(r"\[\d+/\d+\]|/usr/bin/ccache", l))[-6000:])
        raise SystemExit(2)
    if not quiet:
        print(r.stdout[-400:])
    return exe


if __name__ == "__main__":
    ts = sys.argv[1:]
    if ts == ["--all"]:
        ts = sorted(json.load(open(os.path.join(VERIF, "harness", "targets.json"))))
    for t in ts:
        print(build(t, quiet=False))
