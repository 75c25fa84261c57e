#!/usr/bin/env python3
"""diffdemo.py <families,..> <configs separated by |> [n]: small instances on which the clean and the planted
engine (tools/plant.py build) differ in status or cost."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import campaign as cp, engine, random
fams = sys.argv[1].split(","); cfgs = [x.split() for x in sys.argv[2].split("|")]; n = int(sys.argv[3]) if len(sys.argv) > 3 else 1000
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 77
insts = cp.instances(seed, fams, n, cap=4000, lo=6)
os.makedirs("/tmp/plant/dd", exist_ok=True)
def go(k):
    f = "/tmp/plant/dd/i%d.sas" % k; open(f, "w").write(insts[k].sas()); out = []
    for c in cfgs:
        r = []
        for b in ("clean", "bug"):
            rc, o = engine.run(["/tmp/plant/%s/_build/pandaPIengine" % b] + c + [f], 10)
            p = engine.parse_progression(insts[k], rc, o); r.append((p["status"], p["cost"], p["length"]))
        if r[0][0] != r[1][0] or r[0][1] != r[1][1]: out.append((k, insts[k].fam, len(insts[k].methods), " ".join(c), r))
    return out
res = sorted([x for o in engine.pmap(go, range(len(insts))) for x in o], key=lambda x: x[2])
for x in res[:15]: print(x)
print(len(res))
