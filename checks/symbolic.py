"""P13, P14: the BDD-based planner (-b) on totally-ordered problems with at most two subtasks per method."""
import os, random, re
import campaign as cp, htn, engine
from progression import payload, batches


def family(r):
    d = dict(ppre=r.choice([0.1, 0.2, 0.3]), pgoal=r.choice([0.1, 0.3, 0.5]), order=r.choice(["to", "toid", "tored"]), maxk=2, topk=r.randint(1, 2),
             nA=r.randint(2, 7), nT=r.randint(2, 7), rec=r.choice([0, 0, 0.15, 0.3]), zerocost=r.choice([0, 0.2, 0.5, 1.0 if r.random() < .2 else 0]),
             adddel=r.choice([0, 0, 0.15]), maxcost=r.choice([1, 2, 3, 9]), effless=r.choice([0, 0, 0.4]))
    if r.random() < .3: d["multi"] = r.choice([1, 2]); d["bools"] = r.randint(1, 2)
    return d


cp.ANNOTATED.add("bdd")
cp.FAM["bdd"] = family


def bdd(runs, jobs):
    def go(k):
        rc, o = engine.run([runs.bin, "-b", runs.files[k]], runs.timeout if runs.insts[k].acyclic else runs.ctimeout)
        o = engine.ANSI.sub("", o)
        m = re.search(r"Goal reached! Length=(\d+)", o)
        e = re.search(r"Cost: search=(-?\d+) extracted=(-?\d+)", o)
        return dict(rc=rc, out=o, status="solved" if m else "unsolvable" if "Problem is unsolvable" in o else "none", cost=int(m.group(1)) if m else -1,
                    said=(int(e.group(1)), int(e.group(2))) if e else None, plans=engine.parse_plans(runs.insts[k], o))
    runs.c.count("engine_runs", len(jobs))
    return engine.pmap(go, jobs)


def campaign(c, off, n):
    for b, seed, n in batches(c, n, 600, 2 * n):
        insts = cp.instances(seed + off, ["bdd"], n, cap=2500)
        R = cp.Runs(c, insts)
        res = bdd(R, range(len(insts)))
        bad = 0
        for k, p in enumerate(res):
            c.count("runs_" + ("wall_timeout" if p["rc"] == "timeout" else p["status"]))
            bad += p["status"] == "none"
        if bad > len(res) // 2: raise cp.CheckError("most runs gave no verdict (%d of %d)" % (bad, len(res)))
        yield insts, R, res


def p13(c):
    for insts, R, res in campaign(c, 130, 1200):
        plans, gaveup = [], []
        for k, p in enumerate(res):
            if p["status"] != "solved": continue
            if not p["plans"] and "Plan extraction failed" in p["out"]: gaveup.append((k, p)); continue
            if p["rc"] == "timeout": c.count("extraction_timeouts"); continue
            if len(p["plans"]) != 1:
                c.violation("the goal is announced but %d plans are printed" % len(p["plans"]), payload(R, k, ["-b"], p), key=c.key(insts[k].sas())); continue
            plans.append((cp.plan_rec(p, p["plans"][0], k, p["said"][1] if p["said"] else -1), (k, p)))
        # a known finding, as long as it stays as rare as it is
        for k, p in gaveup:
            c.violation("the goal is announced, but the plan cannot be extracted (%d of %d)" % (len(gaveup), len(res)), payload(R, k, ["-b"], p),
                        key="extraction-fails" if len(gaveup) <= max(2, len(res) // 400) else None)
        for q, (k, p) in plans[:2]: c.sample(dict(instance=k, plan=q))
        def desc(q, info):
            k, p = info
            return "the plan printed is not a solution of the announced cost", payload(R, k, ["-b"], p, plan=q)
        cp.check_plans(c, R, plans, desc)
        if c.violations: return


def p14(c):
    for insts, R, res in campaign(c, 140, 1000):
        claims = []
        for k, p in enumerate(res):
            if p["status"] == "unsolvable": claims.append((cp.claim(k, "unsolvable", size=insts[k].size), (k, p)))
            elif p["status"] == "solved":
                claims.append((cp.claim(k, "cost", p["cost"], size=insts[k].size + 2), (k, p)))
                if p["said"] and p["said"][0] != p["said"][1]:
                    c.violation("the plan costs %d, announced was %d" % p["said"][::-1], payload(R, k, ["-b"], p))
            elif p["rc"] == "timeout":
                if insts[k].acyclic and insts[k].nstates < 400: c.violation("no verdict after %d s on an instance with %d nodes" % (R.timeout, insts[k].nstates), payload(R, k, ["-b"], p))
            else: c.violation("the symbolic planner gives no verdict (exit %s)" % p["rc"], payload(R, k, ["-b"], p))
        for cl, (k, p) in claims[:3]: c.sample(dict(instance=k, claim=cl))
        def desc(cl, info):
            k, p = info
            return ("reported unsolvable, but a solution exists" if cl["kind"] == "unsolvable" else "a solution cheaper than %d exists" % cl["bound"]), payload(R, k, ["-b"], p)
        cp.check_claims(c, R, claims, desc)
        # the announced cost is also that of some solution: the plan's
        plans = [(cp.plan_rec(p, p["plans"][0], k, p["cost"]), (k, p)) for k, p in enumerate(res) if p["status"] == "solved" and len(p["plans"]) == 1]
        def desc2(q, info):
            k, p = info
            return "the announced cost %d is not that of the plan printed" % p["cost"], payload(R, k, ["-b"], p, plan=q)
        cp.check_plans(c, R, plans, desc2)
        if c.violations: return
