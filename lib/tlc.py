"""Run TLC on a module of /verif/spec and read its report."""
import os, re, subprocess, tempfile, shutil, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    pass


def tlc(module, env=None, cfg=None, workers=None, timeout=800, heap="6g", extra=(), scratch=None):
    """Returns ok (no error), violated (name of the invariant/property or None), trace (text), generated, distinct."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers or os.cpu_count()),
           "-metadir", d, "-noGenerateSpecTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    r = Result()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=d)
        r.rc, r.out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        r.rc, r.out = "timeout", o.decode(errors="replace") if isinstance(o, bytes) else o
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", r.out)
    r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    v = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|The postcondition (\w+)? ?is violated|Assumption .* is false", r.out)
    r.violated = (v.group(1) or v.group(2) or v.group(0)) if v else None
    r.ok = r.rc == 0 and "No error has been found" in r.out
    i = r.out.find("Error:")
    r.trace = r.out[i:i + 3000000] if i >= 0 else ""
    return r


def last_state_var(r, name):
    """Value (as text) of a variable in the last state of the printed trace."""
    m = re.findall(r"/\\ %s = (.*)" % re.escape(name), r.trace)
    if not m: m = re.findall(r"^%s = (.*)$" % re.escape(name), r.trace, re.M)
    return m[-1].strip() if m else None
