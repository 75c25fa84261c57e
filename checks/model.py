"""P11, P17, P22: what the engine derives from a problem: the hierarchy's tables, invariants, landmarks (drv_model)."""
import os, json, random
import campaign as cp, htn, engine, build, tlc
from progression import batches
from nodes import Shim


def inv(r):
    """Many reachable states but few enough that some facts exclude or imply others; often with true mutex groups
    and invariants in the file."""
    while True:
        nb, nm = r.choice([(2, 1), (3, 1), (1, 2), (4, 0), (5, 0), (6, 0), (2, 2), (0, 2)])
        I = htn.gen(r, dict(ppre=r.choice([0.1, 0.2, 0.3]), pgoal=0.2, nA=r.randint(4, 9), nT=1, maxk=4, topk=r.randint(4, 8), bools=nb, multi=nm, pad=0,
                            adddel=r.choice([0, 0, 0.2]), effless=0, rec=0, order="to"))
        S = htn.reach_facts(I, 300)
        if S and len(S) >= r.choice([4, 6, 9]): return I


cp.CUSTOM["inv"] = inv
cp.ANNOTATED.add("inv")
H_FAMS = ["base", "hard", "dup", "parseq", "join", "to", "many", "multi", "wide", "lin", "word", "diam", "seqmix", "chain", "cost", "iso", "join2"]
L_FAMS = ["chain", "hard", "cost", "lin", "base", "to", "many", "adddel", "effless", "word", "dup", "parseq", "multi"]


def record(c, insts, mode, args, variant="rel"):
    b = build.build(["drv_model"], variant)["drv_model"]
    d = c.sub("m")
    def go(k):
        f = os.path.join(d, "%s%d.sas" % (mode, k)); open(f, "w").write(insts[k].sas())
        rc, o = engine.run([b, mode, f] + args(k), 60, mem_gb=6 if variant == "rel" else 0)
        try: return json.loads(o) if rc == 0 else dict(rc=rc, out=o[-3000:])
        except ValueError: return dict(rc=rc, out=o[-3000:])
    return engine.pmap(go, list(range(len(insts))))


def good(c, insts, W, what):
    gi, gw = [], []
    for I, w in zip(insts, W):
        if "rc" in w: c.violation("%s ended abnormally (%s)" % (what, w["rc"]), dict(instance=I.sas(), output=w["out"]), key=c.key([I.sas()]))
        else: gi.append(I); gw.append(w)
    if len(gi) < 0.9 * len(insts) and not c.violations: raise cp.CheckError("nothing was recorded")
    return gi, gw


def table_check(c, module, name, var, gi, gw, what):
    while gi:
        a, b = os.path.join(c.dir, "insts.json"), os.path.join(c.dir, "tables.json")
        json.dump([I.tla() for I in gi], open(a, "w")); json.dump(gw, open(b, "w"))
        r = c.tlc(module, {"INSTS": a, name: b})
        if not r.violated: break
        k = int(tlc.last_state_var(r, var)) - 1
        c.violation("%s (%s)" % (what, r.violated), dict(instance=gi[k].sas(), recorded=gw[k], spec_trace=r.trace[:6000]), key=c.key([gi[k].sas()]))
        if len(c.violations) >= 3: break
        del gi[k]; del gw[k]


def p11(c):
    for b, seed, n in batches(c, 1600, 400, 3000):
        insts = cp.instances(seed + 1100, H_FAMS, n, cap=20000, lo=2)
        W = record(c, insts, "hier", lambda k: [])
        gi, gw = good(c, insts, W, "computing the derived tables")
        for w in gw:
            c.count("cyclic", 1 if w["cyc"] else 0); c.count("totally_ordered", w["to"]); c.count("parallel_sequences", w["par"])
        if gw: c.sample(dict(tables=gw[0]))
        table_check(c, "Hierarchy", "DERIVED", "k", gi, gw, "a derived table is not true of the problem")
        c.traces += len(gw)
        if c.violations: return


def p17(c):
    for b, seed, n in batches(c, 2500, 400, 4000):
        insts = cp.instances(seed + 1700, ["inv", "inv", "inv", "inv", "inv", "base", "hard", "adddel", "chain"], n, cap=200000, lo=1)
        W0 = record(c, insts, "inv", lambda k: ["0"], "asan"); W1 = record(c, insts, "inv", lambda k: ["1"], "asan")
        W = [a if "rc" in a else b if "rc" in b else dict(cl=a["cl"] + b["cl"], ex=a["ex"] + b["ex"]) for a, b in zip(W0, W1)]
        for a, b in zip(W0, W1):
            if "cl" in a and "cl" in b: c.count("clauses_extracted", len(a["cl"]) // 2); c.count("clauses_computed", len(b["cl"]) // 2)
        gi, gw = good(c, insts, W, "computing the invariants")
        if gw: c.sample(dict(clauses=gw[0]["cl"][:20]))
        table_check(c, "StateInv", "CLAUSES", "i", gi, gw, "a claimed invariant does not hold in a reachable state")
        c.traces += len(gw)
        if c.violations: return


def p22(c):
    for b, seed, n in batches(c, int(os.environ.get("NX", 900)), 500, 1500):
        insts = cp.instances(seed + 2200, L_FAMS, n, cap=300, lo=5)
        W = record(c, insts, "lm", lambda k: [str(seed * 17 + k), "5", "9"])
        gi, gw = good(c, insts, W, "extracting the landmarks")
        claims = []
        for k, (I, w) in enumerate(zip(gi, gw)):
            for j, nd in enumerate(w["nodes"]):
                sz = max(I.size, len(nd["t"]) + 2)
                for src in ("ao", "loc", "lc", "lp", "cc", "cd"):
                    for l in nd.get(src, []):
                        lm = sorted(l) if src in ("cc", "cd") else [[l[0], l[1][0]]]
                        c.count(src)
                        # true from the start: nothing to examine
                        if any(x[0] == 0 and x[1] in nd["st"] or x[0] == 1 and x[1] in nd["t"] for x in lm): continue
                        claims.append((cp.claim(k, "lm", 0, sz, net=nd["t"], ord=nd["o"], st=nd["st"], start=1, lm=lm), (k, j, src)))
                if nd["uf"]:
                    c.count("unreachable")
                    claims.append((cp.claim(k, "never", 0, sz, net=nd["t"], ord=nd["o"], st=nd["st"], start=1, lm=nd["uf"]), (k, j, "uf")))
        for cl, i in claims[:3]: c.sample(dict(source=i[2], claim=cl))
        names = dict(ao="AND/OR graph", loc="local analysis", lc="causal AND/OR graph", lp="causal AND/OR graph of the reachable part", cc="LM-cut (costs)", cd="LM-cut (distance)")
        def desc(cl, info):
            k, j, src = info
            if src == "uf": return "a solution with something the planning graph calls unreachable", dict(instance=gi[k].sas(), node=gw[k]["nodes"][j])
            return "a solution without the landmark %s of the %s" % (json.dumps(cl["lm"]), names[src]), dict(instance=gi[k].sas(), node=gw[k]["nodes"][j], source=src)
        cp.check_claims(c, Shim(c, gi), claims, desc, chunk=100000)
        if c.violations: return
