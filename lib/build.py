#!/usr/bin/env python3
"""Build the engine, CUDD and the conformance drivers from /repo's working tree, outside /repo.

Objects live in /verif/build/<digest of the build description>/ (git-ignored); ninja decides from the
content of the (copied) sources what to recompile.  The sources are copied by content into
build/src, so that a changed file in /repo gives a changed file there and nothing in /repo is written.
"""
import glob, os, subprocess, sys, shutil, fcntl, filecmp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
CUDD = "symbolic_search/cudd-3.0.0"
H = os.path.join(VERIF, "harness")


def sync(src, dst):
    """Mirror src to dst, rewriting only files whose content differs (keeps mtimes for ninja)."""
    seen = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("autom4te.cache", ".git")]
        rel = os.path.relpath(root, src)
        d = os.path.normpath(os.path.join(dst, rel))
        os.makedirs(d, exist_ok=True)
        for f in files:
            if not f.endswith((".c", ".h", ".cpp", ".hpp", ".hh", ".cc", ".ggo")) :
                continue
            if rel == "." and f in ("cmdline.c", "cmdline.h"):
                continue
            s, t = os.path.join(root, f), os.path.join(d, f)
            seen.add(t)
            if not os.path.exists(t) or not filecmp.cmp(s, t, shallow=False):
                shutil.copyfile(s, t)
    for root, dirs, files in os.walk(dst):
        for f in files:
            t = os.path.join(root, f)
            if t not in seen and not (root == dst and f in ("cmdline.c", "cmdline.h", "cmdline.stamp")):
                os.remove(t)


def gen_cmdline():
    ggo = os.path.join(SRC, "options.ggo")
    stamp = os.path.join(SRC, "cmdline.stamp")
    txt = open(ggo).read()
    if os.path.exists(stamp) and open(stamp).read() == txt and os.path.exists(os.path.join(SRC, "cmdline.c")):
        return
    try:
        subprocess.run(["gengetopt", "--include-getopt", "--default-optional", "--unamed-opts", "-i", "options.ggo"],
                       cwd=SRC, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except (OSError, subprocess.CalledProcessError):
        for f in ("cmdline.c", "cmdline.h"):
            shutil.copyfile(os.path.join(REPO, "src", f), os.path.join(SRC, f))
    open(stamp, "w").write(txt)


def rel_glob(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(SRC, p)))
    return out


def write_ninja(variant):
    """variant: 'rel' (like the repository's Release build) or 'asan'."""
    san = "-fsanitize=address -g" if variant == "asan" else ""
    san += " " + os.environ.get("VERIF_CXXFLAGS", "")  # development aid: --coverage
    opt = "-O1 -g -fno-omit-frame-pointer" if variant == "asan" else "-O2"
    inc = " ".join("-I" + os.path.join(SRC, d) for d in
                   ["", "search", "symbolic_search", "heuristics", "intDataStructures", "translation", "sat"])
    cud = os.path.join(SRC, CUDD)
    cinc = " ".join("-I" + os.path.join(cud, d) for d in ["cudd", "cplusplus", "epd", "mtr", "st", "util", "dddmp"])
    cfg = os.path.join(BUILD, "cfg")
    os.makedirs(cfg, exist_ok=True)
    tgt = os.path.join(cfg, "config.h")
    if not os.path.exists(tgt) or not filecmp.cmp(os.path.join(H, "cudd_config.h"), tgt, shallow=False):
        shutil.copyfile(os.path.join(H, "cudd_config.h"), tgt)
    o = os.path.join(BUILD, variant)
    os.makedirs(o, exist_ok=True)
    cxx = f"g++ -std=c++17 {opt} {san} -DNDEBUG -DIL_STD -DCMAKE_NO_ILP -w {inc} {cinc}"
    cc = f"gcc {opt} {san} -DHAVE_CONFIG_H -I{cfg} -w {cinc}"
    cxxcudd = f"g++ -std=c++11 {opt} {san} -DHAVE_CONFIG_H -I{cfg} -w {cinc}"
    L = [f"""
rule cxx
  command = {cxx} -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule cc
  command = {cc} -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule cxxcudd
  command = {cxxcudd} -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule cxxc
  command = g++ -std=c++17 {opt} {san} -DHAVE_CONFIG_H -I{cfg} -w {cinc} -MMD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule ar
  command = rm -f $out && ar rcs $out @$out.rsp
  rspfile = $out.rsp
  rspfile_content = $in
rule link
  command = g++ {san} -o $out @$out.rsp -lpthread -lm
  rspfile = $out.rsp
  rspfile_content = $in $libs
"""]
    objs = {}

    def comp(rule, f, key):
        obj = os.path.join(o, "obj", key, os.path.relpath(f, SRC if f.startswith(SRC) else H).replace("/", "__") + ".o")
        L.append(f"build {obj}: {rule} {f}")
        return obj

    cuddc = rel_glob(*[f"{CUDD}/{d}/*.c" for d in ("cudd", "epd", "mtr", "st", "util", "dddmp")])
    # the programs among these directories, as the repository's own build lists them
    skip = {"testcudd.c", "testextra.c", "testst.c", "testmtr.c", "testdddmp.c", "saveimage.c", "restart.c", "test_cudd.c"}
    cuddo = [comp("cc", f, "cudd") for f in cuddc if os.path.basename(f) not in skip]
    cuddo += [comp("cxxcudd", f, "cudd") for f in rel_glob(f"{CUDD}/cplusplus/cuddObj.cc")]
    L.append(f"build {o}/libcudd.a: ar {' '.join(cuddo)}")
    eng = rel_glob("*.cpp", "search/*.cpp", "search/fringes/*.cpp", "symbolic_search/*.cpp", "heuristics/*.cpp",
                   "heuristics/landmarks/*.cpp", "heuristics/landmarks/lmDataStructures/*.cpp",
                   "heuristics/landmarks/lmExtraction/*.cpp", "heuristics/rcHeuristics/*.cpp", "translation/*.cpp",
                   "sat/*.cpp", "intDataStructures/*.cpp")
    idsmain = os.path.join(SRC, "intDataStructures/IntPairHeap-2.cpp")
    eng = [f for f in eng if f != idsmain]
    main = os.path.join(SRC, "SearchEngine.cpp")
    engo = [comp("cxx", f, "eng") for f in eng if f != main]
    cmdo = comp("cc", os.path.join(SRC, "cmdline.c"), "eng")
    maino = comp("cxx", main, "eng")
    ipo = comp("cxx", os.path.join(H, "ipasir_mini.cpp"), "h")
    L.append(f"build {o}/libengine.a: ar {' '.join(engo + [cmdo, ipo])}")
    L.append(f"build {o}/engine: link {maino} {o}/libengine.a {o}/libcudd.a\n  libs = ")
    targets = {"engine": f"{o}/engine"}
    for f in sorted(glob.glob(os.path.join(H, "drv_*.cpp"))):
        n = os.path.basename(f)[:-4]
        cudd_only = n.startswith("drv_cudd")
        d = comp("cxxc" if cudd_only else "cxx", f, "h")
        if cudd_only:
            L.append(f"build {o}/{n}: link {d} {o}/libcudd.a\n  libs = ")
        else:
            L.append(f"build {o}/{n}: link {d} {o}/libengine.a {o}/libcudd.a\n  libs = ")
        targets[n] = f"{o}/{n}"
    fd = comp("cxx", os.path.join(H, "fd_mini.cpp"), "h")
    L.append(f"build {o}/fd_mini: link {fd}\n  libs = ")
    targets["fd_mini"] = f"{o}/fd_mini"
    nf = os.path.join(o, "build.ninja")
    txt = "\n".join(L) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    return o, targets


def build(names, variant="rel"):
    """Build the named targets; returns {name: path}. Raises on failure."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync(os.path.join(REPO, "src"), SRC)
        gen_cmdline()
        o, targets = write_ninja(variant)
        r = subprocess.run(["ninja", "-C", o, "-j", str(os.cpu_count())] + [targets[n] for n in names],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-4000:])
            raise SystemExit(3)
    return {n: targets[n] for n in names}


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1].split(","), *(sys.argv[2:])), round(time.time() - t, 1))
