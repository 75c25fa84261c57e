#!/usr/bin/env python3
"""Work on planted bugs in scratch copies:  plant.py build|demo|check|tests <id> [<property>]
build: patched copy of /repo under /tmp/plant; demo: run demo.sh in the clean and in the patched copy;
check: the property's check against the patched copy; tests: build.sh and test.sh in the patched copy."""
import os, sys, json, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "/tmp/plant"


def sh(cmd, **k): return subprocess.run(cmd, shell=True, **k)


def prepare(i):
    """The patched sources; one scratch copy serves all bugs."""
    os.makedirs(P, exist_ok=True)
    for n in ("clean", "bug"):
        d = os.path.join(P, n)
        if not os.path.exists(d):
            os.makedirs(d)
            sh("cp -a /repo/.git %s/ && git -C %s checkout -qf ." % (d, d), check=True)
        sh("cd %s && git fetch -q /repo main && git checkout -qf FETCH_HEAD && git clean -qfd && git checkout -qf ." % d, check=True)
    r = sh("git -C %s/bug apply %s/seeded/%s/patch.diff" % (P, V, i))
    if r.returncode: sys.exit("patch does not apply")


def env(n): return dict(os.environ, VERIF_REPO=os.path.join(P, n), VERIF_BUILD=os.path.join(P, "build-" + n))


def build(n):
    e = env(n)
    sh("python3 %s/lib/build.py engine" % V, env=e, check=True)
    os.makedirs(os.path.join(P, n, "_build"), exist_ok=True)
    shutil.copy(os.path.join(P, "build-" + n, "rel", "engine"), os.path.join(P, n, "_build", "pandaPIengine"))
    b = os.path.join(P, n, "_build/libcudd-prefix/src/libcudd-build/cudd/.libs"); os.makedirs(b, exist_ok=True)
    shutil.copy(os.path.join(P, "build-" + n, "rel", "libcudd.a"), os.path.join(b, "libcudd.a"))
    c = os.path.join(P, n, "_build/libcudd-prefix/src/libcudd-build"); shutil.copy(os.path.join(V, "harness/cudd_config.h"), os.path.join(c, "config.h"))


if __name__ == "__main__":
    what, i = sys.argv[1:3]
    prepare(i)
    prop = sys.argv[3] if len(sys.argv) > 3 else json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"] if os.path.exists(os.path.join(V, "seeded", i, "meta.json")) else None
    if what in ("build", "demo", "all"):
        build("clean"); build("bug")
    if what in ("demo", "all"):
        for n in ("clean", "bug"):
            r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=os.path.join(P, n))
            print("demo %s: %d" % (n, r.returncode))
    if what in ("check", "all"):
        r = sh("python3 %s/checks/run.py %s" % (V, prop), env=env("bug"))
        print("check %s on %s: %d" % (prop, i, r.returncode))
    if what == "tests":
        d = os.path.join(P, "full"); shutil.rmtree(d, ignore_errors=True)
        sh("cp -a /repo %s && git -C %s apply %s/seeded/%s/patch.diff" % (d, d, V, i), check=True)
        for s in ("build", "test"): sh("sed 's#/repo#%s#g; s#/opt/vp/build.sh#%s/build.sh#g' /opt/vp/%s.sh > %s/%s.sh" % (d, P, s, P, s))
        sh("cd %s && grep -rl --include=Makefile --include=CMakeCache.txt --include='*.cmake' --include=config.status --include=libtool . _build | head -0" % d)
        sh("rm -rf %s/_build %s/_build_sat; bash %s/test.sh %s/out.json > %s/test.log 2>&1" % (d, d, P, P, P))
        o = json.load(open(P + "/out.json")); print("passed", len(o["passed"]), "failed", o["failed"])
        shutil.rmtree(d, ignore_errors=True)
