#!/usr/bin/env python3
"""diffraw.py <families,..> <args> <regex> [n] [seed]: instances on which the clean and the planted engine print different matches of the regex."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import campaign as cp, engine
fams, args, rx = sys.argv[1].split(","), sys.argv[2].split(), re.compile(sys.argv[3])
n = int(sys.argv[4]) if len(sys.argv) > 4 else 1000; seed = int(sys.argv[5]) if len(sys.argv) > 5 else 77
insts = cp.instances(seed, fams, n, cap=4000, lo=4)
os.makedirs("/tmp/plant/dd", exist_ok=True)
def go(k):
    f = "/tmp/plant/dd/i%d.sas" % k; open(f, "w").write(insts[k].sas()); r = []
    for b in ("clean", "bug"):
        rc, o = engine.run(["/tmp/plant/%s/_build/pandaPIengine" % b] + args + [f], 10)
        if isinstance(o, bytes): o = o.decode("latin1")
        r.append((rc, sorted(set(rx.findall(o)))))
    return (k, insts[k].fam, len(insts[k].methods), r) if r[0] != r[1] else None
res = sorted([x for x in engine.pmap(go, range(len(insts))) if x], key=lambda x: x[2])
for x in res[:10]: print(x)
print(len(res))
