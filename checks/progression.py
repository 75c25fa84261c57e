"""P01-P05, P23, P24: progression search through the command line."""
import os, random, json
import campaign as cp, htn, engine


def payload(runs, k, args, res, **kw):
    d = dict(instance=runs.insts[k].sas(), args=args, family=runs.insts[k].fam, engine_output=res["out"][-6000:])
    d.update(kw); return d


def crash(res): return isinstance(res["rc"], int) and res["rc"] not in (0, 1) or (res["rc"] == 0 and res["status"] == "none")


def tally(c, results):
    for p in results:
        c.count("runs_" + ("wall_timeout" if p["rc"] == "timeout" else p["status"]))
    n = len(results); bad = sum(1 for p in results if p["status"] not in ("solved", "unsolvable"))
    if bad > n * 0.5: raise cp.CheckError("most engine runs gave no verdict (%d of %d)" % (bad, n))


def get_plan(p): return p["plans"][0] if len(p["plans"]) >= 1 else dict(acts=[], root=-1, dec=[], bad=1)


def batches(c, quick, thorough_secs, size):
    """Yields (batch number, seed, n): one batch in quick, batches until the budget is used in thorough."""
    if not c.thorough:
        yield 0, c.seed, quick
    else:
        b = 0
        while b == 0 or c.elapsed() < thorough_secs:
            yield b, c.seed * 7919 + b, size
            b += 1


def p01(c):
    """Every printed plan is a behaviour of the specification."""
    for b, seed, n in batches(c, 1100, 600, 2500):
        r = random.Random(seed)
        insts = cp.instances(seed, ["base", "hard", "dup", "parseq", "to", "pad", "many", "cost", "adddel", "effless", "word", "diam", "multi"], n, cap=4000)
        R = cp.Runs(c, insts)
        jobs = []
        for k, I in enumerate(insts):
            seen = []
            for _ in range(3): jobs.append((k, cp.rand_config(r, I)))
        res = R.run(jobs)
        tally(c, res)
        plans = []
        for (k, a), p in zip(jobs, res):
            if p["status"] == "solved":
                plans.append((cp.plan_rec(p, get_plan(p), k), (k, a, p)))
        for q, (k, a, p) in plans[:2]: c.sample(dict(args=a, plan=q))
        def desc(q, info):
            k, a, p = info
            return "printed plan is not a solution (args %s)" % " ".join(a), payload(R, k, a, p, plan=q)
        cp.check_plans(c, R, plans, desc)
        if c.violations: return


def p05(c):
    for b, seed, n in batches(c, 1100, 600, 2500):
        r = random.Random(seed + 5)
        insts = cp.instances(seed + 50, ["base", "hard", "dup", "to", "cost", "effless", "many", "parseq"], n, cap=4000)
        R = cp.Runs(c, insts)
        jobs = [(k, cp.rand_config(r, I)) for k, I in enumerate(insts) for _ in range(3)]
        res = R.run(jobs)
        tally(c, res)
        plans = []
        for (k, a), p in zip(jobs, res):
            if p["status"] == "solved":
                plans.append((cp.plan_rec(p, get_plan(p), k, p["cost"], p["length"]), (k, a, p)))
        for q, (k, a, p) in plans[:2]: c.sample(dict(args=a, plan=q))
        def desc(q, info):
            k, a, p = info
            return "reported length %s / cost %s are not those of the printed plan (args %s)" % (p["length"], p["cost"], " ".join(a)), payload(R, k, a, p, plan=q)
        cp.check_plans(c, R, plans, desc)
        if c.violations: return


def p02(c):
    """No 'unsolvable' on a solvable instance; a verdict on every instance."""
    for b, seed, n in batches(c, 1000, 600, 2000):
        r = random.Random(seed + 2)
        insts = cp.instances(seed + 20, ["base", "hard", "dup", "parseq", "to", "pad", "many", "cost", "adddel", "effless", "lin", "iso", "word", "word", "diam", "multi", "diam"], n, cap=2500)
        R = cp.Runs(c, insts, 20)
        jobs = [(k, cp.rand_config(r, I)) for k, I in enumerate(insts) for _ in range(4)]
        res = R.run(jobs)
        tally(c, res)
        claims, plans, tmo = [], [], []
        solved = set(k for (k, a), p in zip(jobs, res) if p["status"] == "solved")
        for (k, a), p in zip(jobs, res):
            if p["status"] == "unsolvable": claims.append((cp.claim(k, "unsolvable", size=insts[k].size), (k, a, p)))
            elif p["status"] == "solved":
                if not p["plans"]: c.violation("a solution is reported but none is printed", payload(R, k, a, p))
            elif p["rc"] == "timeout" or p["status"] == "timeout": tmo.append((k, a, p))
            elif crash(p) and not ("bad_alloc" in p["out"] and htn.cyclic(insts[k])): c.violation("the engine gives no verdict (exit %s) (args %s)" % (p["rc"], " ".join(a)), payload(R, k, a, p))
        c.sample(dict(args=claims[0][1][1], claim=claims[0][0]) if claims else "none")
        def desc(cl, info):
            k, a, p = info
            return "reported unsolvable, but a solution exists (args %s)" % " ".join(a), payload(R, k, a, p)
        cp.check_claims(c, R, claims, desc)
        # an acyclic instance has finitely many nodes, here at most a few thousand: the search must end
        for k, a, p in tmo:
            if not htn.cyclic(insts[k]) and insts[k].nstates < 400 and "-V" not in a:
                c.violation("no verdict after 20 s on an instance with %d nodes (args %s)" % (insts[k].nstates, " ".join(a)), payload(R, k, a, p))
        if c.violations: return


def optimum(c, kinds, fams, qn, off):
    for b, seed, n in batches(c, qn, 600, 2 * qn):
        r = random.Random(seed + off)
        insts = cp.instances(seed + off * 10, fams, n, cap=2500)
        R = cp.Runs(c, insts)
        jobs = []
        for k, I in enumerate(insts):
            for kind in kinds:
                for _ in range(3 if kind == "cost" else 2):
                    if kind == "cost": h = r.choice(cp.ADMISSIBLE) + r.choice([[], [], ["rc2(ff)"], ["zero"]]); g = "action"
                    else: h = ["zero"]; g = "path" if kind == "mods" else "mixed"
                    a = cp.heur_args(h) + ["-g", g] + (["-S", str(r.randint(0, 10**6))] if r.random() < 0.5 else []) + cp.visi_flags(r, I)
                    jobs.append((k, a, kind))
        res = R.run([(k, a) for k, a, _ in jobs])
        tally(c, res)
        claims, plans = [], []
        for (k, a, kind), p in zip(jobs, res):
            if p["status"] == "unsolvable": claims.append((cp.claim(k, "unsolvable", size=insts[k].size), (k, a, p)))
            if p["status"] != "solved": continue
            nact = len(get_plan(p)["acts"])
            bound = {"cost": p["cost"], "mods": p["length"], "mixed": p["cost"] + p["length"] - nact}[kind]
            claims.append((cp.claim(k, kind, bound, size=insts[k].size + 2), (k, a, p)))
            plans.append((cp.plan_rec(p, get_plan(p), k, p["cost"], p["length"]), (k, a, p)))
        for cl, (k, a, p) in claims[:3]: c.sample(dict(args=a, claim=cl))
        def desc(cl, info):
            k, a, p = info
            return "a solution with a smaller %s than %d exists (args %s)" % (cl["kind"], cl["bound"], " ".join(a)), payload(R, k, a, p)
        def desc2(q, info):
            k, a, p = info
            return "the claimed optimum is not that of a solution (args %s)" % " ".join(a), payload(R, k, a, p, plan=q)
        cp.check_claims(c, R, claims, desc)
        cp.check_plans(c, R, plans, desc2)
        if c.violations: return


def p03(c): optimum(c, ["cost"], ["cost", "dup", "hard", "cost", "to", "parseq", "base", "many", "pad", "word", "diam"], 1000, 3)
def p04(c): optimum(c, ["mods", "mixed"], ["cost", "dup", "hard", "base", "to", "parseq", "effless", "many", "pad", "word", "diam"], 900, 4)


def p23(c):
    """Same input, options and seed: same output (times aside)."""
    import re
    def norm(o):
        o = re.sub(r"- (Search time|Visited list time) .*|- Generated -?\d+ nodes per second|\d+ ?ms|(?m:^\s*\d+s visitime.*\n)", "", o)
        return re.sub(r"Reading input from .*", "", o)
    for b, seed, n in batches(c, 1000, 300, 2000):
        r = random.Random(seed + 23)
        insts = cp.instances(seed + 230, ["base", "hard", "dup", "parseq", "to", "cost", "effless"], n, cap=4000)
        R = cp.Runs(c, insts)
        jobs = [(k, cp.rand_config(r, I)) for k, I in enumerate(insts) for _ in range(2)]
        res = [R.run(jobs) for _ in range(3)]
        tally(c, res[0])
        groups, who = [], []
        for i, (k, a) in enumerate(jobs):
            if any(x[i]["rc"] == "timeout" for x in res): continue
            groups.append([[l for l in norm(x[i]["out"]).splitlines() if l.strip()] for x in res]); who.append(i)
        f = os.path.join(c.dir, "runs.json")
        while True:
            json.dump(groups, open(f, "w"))
            rr = c.tlc("Determinism", dict(RUNS=f))
            if not rr.violated: break
            import tlc
            g = int(tlc.last_state_var(rr, "g")) - 1
            i = who[g]; k, a = jobs[i]
            c.violation("two runs with the same options and seed differ at event %s (args %s)" % (tlc.last_state_var(rr, "step"), " ".join(a)),
                        payload(R, k, a, res[0][i], other=[x[i]["out"][-6000:] for x in res[1:]]))
            if len(c.violations) >= 3: break
            del groups[g]; del who[g]
        c.traces += 3 * len(groups)
        c.sample(dict(args=jobs[0][1], lines=norm(res[0][0]["out"]).splitlines()[-8:]))
        if c.violations: return


def p24(c):
    """The special treatment of parallel sequences (and unique paths) against the specification and against
    the same search without it."""
    for b, seed, n in batches(c, 1200, 600, 2400):
        r = random.Random(seed + 24)
        insts = cp.instances(seed + 240, ["parseq", "join", "join2", "parseq", "join2", "to", "dup", "word", "diam"], n, cap=2500)
        R = cp.Runs(c, insts)
        jobs = []
        for k, I in enumerate(insts):
            kind = r.choice(["mods", "cost", "mixed"])
            a = ["-H", "zero" if kind != "cost" or r.random() < 0.7 else r.choice(cp.ADMISSIBLE)[0], "-g", {"mods": "path", "cost": "action", "mixed": "mixed"}[kind], "-S", str(r.randint(0, 10**6))]
            fl = [f for f in ("-T", "-Q", "--noLayers", "--noOrderPairs") if r.random() < 0.3]
            jobs.append((k, a + fl, kind)); jobs.append((k, a + fl + ["--noParallelSequences"], kind))
        res = R.run([(k, a) for k, a, _ in jobs])
        tally(c, res)
        claims, plans = [], []
        for i, ((k, a, kind), p) in enumerate(zip(jobs, res)):
            if "Instance is parallel sequences: yes" in p["out"] or "parallel sequences order" in p["out"]: c.count("runs_on_parallel_sequences")
            if p["status"] == "unsolvable": claims.append((cp.claim(k, "unsolvable", size=insts[k].size), (k, a, p)))
            if p["status"] == "solved":
                nact = len(get_plan(p)["acts"])
                bound = {"cost": p["cost"], "mods": p["length"], "mixed": p["cost"] + p["length"] - nact}[kind]
                p["opt"] = bound
                claims.append((cp.claim(k, kind, bound, size=insts[k].size + 2), (k, a, p)))
                plans.append((cp.plan_rec(p, get_plan(p), k, p["cost"], p["length"]), (k, a, p)))
            if i % 2 and p["status"] in ("solved", "unsolvable") and res[i-1]["status"] in ("solved", "unsolvable"):
                q = res[i-1]
                if (p["status"], p.get("opt")) != (q["status"], q.get("opt")):
                    c.violation("verdict or optimum differs with the optimisation: %s %s against %s %s without (args %s)" % (q["status"], q.get("opt"), p["status"], p.get("opt"), " ".join(a)), payload(R, k, a, q, without=p["out"][-4000:]))
        for cl, (k, a, p) in claims[:3]: c.sample(dict(args=a, claim=cl))
        def desc(cl, info):
            k, a, p = info
            return "claim %s %d is broken (args %s)" % (cl["kind"], cl["bound"], " ".join(a)), payload(R, k, a, p)
        def desc2(q, info):
            k, a, p = info
            return "the plan printed is not a solution with the claimed length and cost (args %s)" % " ".join(a), payload(R, k, a, p, plan=q)
        cp.check_claims(c, R, claims, desc)
        cp.check_plans(c, R, plans, desc2)
        if c.violations: return
