"""P15, P16: the SAT-based planner (-s), run with a small complete DPLL solver behind the IPASIR interface."""
import os, random, re
import campaign as cp, htn, engine
from progression import payload, batches
from cudd import histories


def family(r):
    o = r.choice(["to", "toid", "tored", "po", "po"])
    d = dict(ppre=r.choice([0.1, 0.25, 0.4]), pgoal=r.choice([0.1, 0.3, 0.5]), order=o, maxk=3, topk=r.randint(1, 3),
             nA=r.randint(2, 7), nT=r.randint(2, 6), rec=r.choice([0, 0, 0.15, 0.3]), adddel=r.choice([0, 0, 0.15]),
             maxcost=r.choice([1, 3, 9]), effless=r.choice([0, 0, 0.4]))
    if r.random() < .4: d["multi"] = r.choice([1, 2]); d["bools"] = r.randint(1, 2)
    return d


cp.ANNOTATED.add("sat")
cp.FAM["sat"] = family


def options(r, to):
    a = []
    if r.random() < .4: a.append("-B")
    if r.random() < .5: a.append("-M")
    if r.random() < .8: a += ["-P", r.choice(["none", "ff", "h2"])]
    if r.random() < .5: a.append("-m")
    if r.random() < .2: a.append("--orderOutput")
    return a


MAXD = 6


def sat(runs, jobs, improve=False, plans=4):
    """Per job (instance, args): the verdict at each depth and the plans; stops after the wanted plans or depth MAXD."""
    def go(j):
        k, a = j
        seen = [0]
        def stop(l):
            m = re.match(r"Generating formula for depth (\d+)", l)
            if m and int(m[1]) > MAXD: return True
            if l.startswith("Total cost of solution"):
                seen[0] += 1
                return seen[0] >= (plans if improve else 10**9)
        rc, o = engine.run_until([runs.bin, "-s"] + a + (["-o"] if improve else []) + [runs.files[k]], stop, runs.timeout)
        unsat, d, cost, satd, cut = [], None, None, [], 0
        for l in o.splitlines():
            m = re.match(r"Generating formula for depth (\d+)(?: and cost (-?\d+))?", l)
            if m: d, cost = int(m[1]), m[2] and int(m[2])
            if "Solver state: UNSAT" in l or "Initial abstract task is pruned" in l: unsat.append((d, cost))
            elif "Solver state: SAT" in l: satd.append((d, cost))
        tot = [(int(x), int(y)) for x, y in re.findall(r"Total cost of solution: (-?\d+) true cost: (-?\d+)", o)]
        return dict(rc=rc, out=o, unsat=unsat, sat=satd, totals=tot, plans=engine.parse_plans(runs.insts[k], o),
                    status="solved" if satd else "unsat" if unsat else "none")
    runs.c.count("engine_runs", len(jobs))
    return engine.pmap(go, jobs)


def campaign(c, off, n, improve):
    for b, seed, n in batches(c, n, 400, 2 * n):
        insts = cp.instances(seed + off, ["sat"], n, cap=2500)
        R = cp.Runs(c, insts, timeout=10)
        r = random.Random(seed + off)
        jobs = [(k, options(r, True)) for k in range(len(insts)) for _ in range(2)]
        res = sat(R, jobs, improve)
        for (k, a), p in zip(jobs, res):
            c.count("runs_" + ("wall_timeout" if p["rc"] == "timeout" else p["status"]))
        bad = sum(p["status"] == "none" for p in res)
        if bad > len(res) // 2: raise cp.CheckError("most runs gave no verdict (%d of %d)" % (bad, len(res)))
        yield insts, R, jobs, res


def crash(p): return not (p["rc"] in ("stopped", "timeout", 0))


def p15(c):
    for improve in (False, True):
        for insts, R, jobs, res in campaign(c, 150 + improve, int(os.environ.get("NX", 500)), improve):
            plans = []
            for (k, a), p in zip(jobs, res):
                args = ["-s"] + a + ["-o"] * improve
                if crash(p): c.violation("the SAT planner ends abnormally (exit %s)" % p["rc"], payload(R, k, args, p), key=c.key([insts[k].sas(), args])); continue
                if p["status"] == "solved" and len(p["plans"]) < len(p["totals"]):
                    c.violation("a plan is announced but not printed", payload(R, k, args, p)); continue
                for q, (x, true) in zip(p["plans"], p["totals"]): plans.append((cp.plan_rec(p, q, k, true), (k, args, p)))
            for q, (k, a, p) in plans[:2]: c.sample(dict(instance=k, args=a, plan=q))
            def desc(q, info):
                k, a, p = info
                return "the plan printed is not a solution of the printed cost", payload(R, k, a, p, plan=q)
            cp.check_plans(c, R, plans, desc)
            if c.violations: return


def clauses(c):
    """The clause helpers under assumptions, against the meaning of the constraints (ClauseTrace)."""
    for n in range(12 if c.thorough else 1):
        for mode, hist in (("small", 480), ("large", 64)):
            histories(c, mode, c.seed + 1000 * n, hist, 0, module="ClauseTrace", driver="drv_sat")
            if c.violations: return


def p16(c):
    clauses(c)
    if c.violations: return
    for insts, R, jobs, res in campaign(c, 160, int(os.environ.get("NX", 900)), False):
        claims, plans = [], []
        for (k, a), p in zip(jobs, res):
            args = ["-s"] + a
            if crash(p): c.violation("the SAT planner gives no verdict (exit %s)" % p["rc"], payload(R, k, args, p), key=c.key([insts[k].sas(), args])); continue
            if p["unsat"]:
                d = max(x for x, _ in p["unsat"])
                claims.append((cp.claim(k, "depth", d + 1, size=max(insts[k].size, 8)), (k, args, p, d)))
            if p["sat"] and p["plans"]:
                q = cp.plan_rec(p, p["plans"][0], k); q["depth"] = p["sat"][0][0]
                plans.append((q, (k, args, p)))
        for cl, (k, a, p, d) in claims[:3]: c.sample(dict(instance=k, args=a, claim=cl))
        def desc(cl, info):
            k, a, p, d = info
            return "the formula for depth %d is unsatisfiable, but a solution of that depth exists" % d, payload(R, k, a, p)
        cp.check_claims(c, R, claims, desc)
        def desc2(q, info):
            k, a, p = info
            return "the formula for depth %d is satisfied, but not by a solution of that depth" % q["depth"], payload(R, k, a, p, plan=q)
        cp.check_plans(c, R, plans, desc2)
        if c.violations: return
