#!/usr/bin/env python3
"""Builds the simulation binaries from /repo's current working tree into /verif/.build (git-ignored), with ninja."""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CPPQED_REPO", "/repo")
OUT = os.environ.get("CPPQED_SIM_BUILD", os.path.join(VERIF, ".build"))

CORE = ["high", "composites", "structure", "quantumdata", "quantumoperator", "quantumtrajectory"]
ELEM = ["frees", "interactions", "utils"]
INC = [f"{VERIF}/sim", f"{VERIF}/sim/standin"] + [f"{REPO}/CPPQEDcore/{d}" for d in CORE] + [f"{REPO}/CPPQEDutils"] + [f"{REPO}/CPPQEDelements/{d}" for d in ELEM]
FLAGS = ["-std=c++20", "-w", "-O1", "-DBZ_HAVE_BOOST_SERIALIZATION", "-DCPPQED_HAS_GSL", "-DNDEBUG",
         "-include", "boost/preprocessor/iteration/iterate.hpp"] + [f"-I{i}" for i in INC] + ["-isystem", "/usr/include/eigen3"]
UTIL_ONLY = ("files", "p05", "p06", "p07", "p14")
LIBS = ["-lblitz", "-lboost_serialization", "-lboost_iostreams", "-lgsl", "-lgslcblas", "-lbz2", "-ldl"]

def sources(binary):
    """binary 'classic': the utility library; anything else: the whole framework. Harness files are named in sim/<binary>.list"""
    src = [f for f in glob.glob(f"{REPO}/CPPQEDutils/*.cc") if os.path.basename(f) != "Version.cc"]
    if not binary in UTIL_ONLY:
        for d in CORE:
            src += [f for f in glob.glob(f"{REPO}/CPPQEDcore/{d}/*.cc") if os.path.basename(f) != "Transformation.cc"]
        for d in ELEM:
            src += glob.glob(f"{REPO}/CPPQEDelements/{d}/*.cc")
    harness = [f"{VERIF}/sim/simkit.cc"] + [f"{VERIF}/sim/{l.strip()}" for l in open(f"{VERIF}/sim/{binary}.list") if l.strip()]
    return sorted(src), harness

def build(binaries):
    os.makedirs(OUT, exist_ok=True)
    esc = lambda s: s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")
    lines = ["ninja_required_version = 1.5", f"builddir = {OUT}", "flags = " + " ".join(FLAGS),
             "rule cc", "  command = g++ $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule ld", "  command = g++ $in -Wl,-z,muldefs -o $out " + " ".join(LIBS)]
    done = {}
    for b in binaries:
        lib, harness = sources(b); objs = []
        # harness files first: they take longest
        for f in harness[::-1] + lib:
            base = f[len(REPO):] if f.startswith(REPO + "/") else "/sim/" + os.path.basename(f)
            o = f"{OUT}/obj{base}.o"
            if o not in done:
                done[o] = f; lines.append(f"build {esc(o)}: cc {esc(f)}")
            objs.append(o)
        # duplicate definitions across header-only parts are resolved first-come: harness objects first
        lines.append(f"build {OUT}/{b}: ld " + " ".join(esc(o) for o in objs))
    lines.append("")
    nf = f"{OUT}/build.ninja"
    text = "\n".join(lines)
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-f", nf, "-j", str(max(8, os.cpu_count() or 8))] + [f"{OUT}/{b}" for b in binaries], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(2)
    return {b: f"{OUT}/{b}" for b in binaries}

if __name__ == "__main__":
    names = sys.argv[1:] or sorted(os.path.basename(f)[:-5] for f in glob.glob(f"{VERIF}/sim/*.list"))
    print(build(names))
