"""Node walks recorded from the real progression (harness/drv_nodes.cpp)."""
import os, json
import engine, build, htn
from check import CheckError


def record(c, insts, mode, seed, maxn, maxs, flags=lambda r, I: [], chunk=1):
    """Returns (instances, walks) for the instances on which the driver ended normally."""
    b = build.build(["drv_nodes"])["drv_nodes"]
    d = c.sub("walk%d" % seed)

    def go(k):
        f = os.path.join(d, "i%d.sas" % k); open(f, "w").write(insts[k].sas())
        rc, o = engine.run([b, mode, f, str(seed * 131 + k), str(maxn), str(maxs)] + flags(k, insts[k]), 60)
        try: return json.loads(o) if rc == 0 else dict(rc=rc, out=o[-2000:])
        except ValueError: return dict(rc=rc, out=o[-2000:])
    return engine.pmap(go, list(range(len(insts))))
