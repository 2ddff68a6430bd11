#!/usr/bin/env python3
"""Generate /verif/build/build.ninja: sanitized objects of /repo's library sources + harnesses.

Only writes the file when its text changes, so that ninja stays incremental.
Configurations:
  san  : clang++ -O1, ASan+UBSan fatal, libstdc++ assertions, Eigen assertions, auto vars pattern-initialised
  tsan : clang++ -O1, ThreadSanitizer (only the targets which need it)
"""
import os, re, sys, glob
REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))

def lib_sources():
    txt = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    m = re.search(r"SET\s*\(\s*SRCS(.*?)\)", txt, re.S | re.I)
    out = []
    for line in m.group(1).splitlines():
        line = line.split("#")[0].strip()
        for tok in line.split():
            if tok.endswith(".cpp") and tok not in out:
                out.append(tok)
    return out

def main():
    os.makedirs(BUILD, exist_ok=True)
    inc = (f"-I{VERIF}/stubs -I{REPO}/include -I{REPO}/deps/nanort/include "
           f" -I{REPO}/deps/nanoflann/include -isystem /usr/include/suitesparse -isystem /usr/include/eigen3")
    defs = "-DGC_HAVE_SUITESPARSE -D_USE_MATH_DEFINES -DNOMINMAX -D_GLIBCXX_ASSERTIONS"
    common = f"-std=c++14 -w -fno-omit-frame-pointer {defs} {inc}"
    cfgs = {
        "san": "-O1 -gline-tables-only -fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern",
        "tsan": "-O1 -gline-tables-only -fsanitize=thread",
    }
    libs = "-lspqr -lcholmod -lumfpack -lccolamd -lcamd -lcolamd -lamd -llapack -lblas -lsuitesparseconfig -ltbb"
    L = ["ninja_required_version = 1.5", f"builddir = {BUILD}", "cxx = clang++"]
    for c, fl in cfgs.items():
        L += [f"rule cxx_{c}", f"  command = python3 -S {VERIF}/tools/cc.py $out {VERIF} {REPO} -- $cxx {common} {fl} $extra -MD -MF $out.d -c $in -o $out",
              "  depfile = $out.d", "  deps = gcc", "  restat = 1", f"  description = CXX[{c}] $in"]
        L += [f"rule link_{c}", f"  command = $cxx {fl} $in -o $out {libs} -lpthread", f"  description = LINK[{c}] $out"]
        L += [f"rule ar_{c}", "  command = rm -f $out && ar qcsD $out $in", f"  description = AR $out"]
    harn = sorted(os.path.basename(p)[:-4] for p in glob.glob(f"{VERIF}/harness/*.cpp"))
    has_tsan = any("[tsan]" in open(f"{VERIF}/harness/{h}.cpp").readline() for h in harn)
    cfgs = {c: f for c, f in cfgs.items() if c != "tsan" or has_tsan}
    for c in cfgs:
        objs = []
        for s in lib_sources():
            o = f"{BUILD}/{c}/lib/{s[:-4]}.o"
            L.append(f"build {o}: cxx_{c} {REPO}/src/{s}")
            objs.append(o)
        lib = f"{BUILD}/{c}/libgc.a"
        L.append(f"build {lib}: ar_{c} " + " ".join(objs))
        outs = []
        for h in harn:
            first = open(f"{VERIF}/harness/{h}.cpp").readline()
            want_tsan = "[tsan]" in first
            if c == "tsan" and not want_tsan: continue
            if c == "san" and want_tsan: continue
            o = f"{BUILD}/{c}/{h}.o"
            L.append(f"build {o}: cxx_{c} {VERIF}/harness/{h}.cpp")
            b = f"{BUILD}/{c}/{h}"
            L.append(f"build {b}: link_{c} {o} {lib}")
            L.append(f"build {h}: phony {b}")
            outs.append(b)
        L.append(f"build all_{c}: phony {lib} " + " ".join(outs))
    L.append("build all: phony " + " ".join("all_" + c for c in cfgs))
    L.append("default all_san")
    txt = "\n".join(L) + "\n"
    p = f"{BUILD}/build.ninja"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)

if __name__ == "__main__":
    main()
