"""P18, P19: the translations to classical planning (-2), run with a small exhaustive planner in Fast Downward's place."""
import os, random, re
import campaign as cp, htn, engine, build
from progression import payload, batches


def family(r):
    o = r.choice(["to", "toid", "tored", "po", "po", "un", "mix"])
    d = dict(ppre=r.choice([0.05, 0.15, 0.3]), pgoal=r.choice([0, 0.2, 0.4]), order=o, maxk=3, topk=r.randint(1, 3),
             nA=r.randint(2, 6), nT=r.randint(2, 5), rec=r.choice([0, 0, 0.15, 0.3]), adddel=r.choice([0, 0, 0.15]),
             maxcost=r.choice([1, 3, 9]), effless=r.choice([0, 0, 0.4]))
    if r.random() < .4: d["multi"] = r.choice([1, 2]); d["bools"] = r.randint(1, 2)
    return d


def parfamily(r):
    d = family(r); d.update(order=r.choice(["to", "toid", "tored"]), top="parseq", topk=r.randint(2, 3)); return d


cp.ANNOTATED.add("trans")
cp.FAM["trans"] = family
cp.ANNOTATED.add("transpar")
cp.FAM["transpar"] = parfamily
MAXB = 6


def options(r):
    a = ["--transtype", r.choice(["push", "push", "to", "parallelseq", "postrips", "postrips", "pocond"])]
    if r.random() < .4: a += ["--pgb", str(r.randint(1, 4))]
    if r.random() < .2: a += ["--pgbsteps", "2"]
    return a


def translate(runs, jobs):
    """Per job (instance, args, mode): what the planner said at each bound, and the plan."""
    fd = build.build(["fd_mini"])["fd_mini"]
    def go(x):
        n, (k, a, mode) = x
        d = runs.c.sub("job%d" % n)
        env = dict(os.environ, FD_MODE=mode, FD_LIMIT="40000")
        def stop(l):
            if "FDMINI limit" in l: return True
            m = re.match(r"- new progressionbound: (\d+)", l)
            return bool(m) and int(m[1]) > MAXB
        rc, o = engine.run_until([runs.bin, "-2", "--sasfile", "out.sas", "--downward", fd, "--iterate"] + a + [runs.files[k]], stop, runs.timeout, cwd=d, env=env)
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        os.rmdir(d)
        enc, b, steps, cost, limit = None, None, [], None, False
        for l in o.splitlines():
            m = re.match(r"Generating with (.*) encoding", l)
            if m: enc = m[1]
            m = re.match(r"Number of actions: (-?\d+) pgb: (\d+)", l)
            if m: b = int(m[2])
            if l.startswith("FDMINI unsolvable"): steps.append(("no", b))
            if l.startswith("FDMINI limit"): limit = True
            m = re.match(r"FDMINI solved cost=(-?\d+)", l)
            if m: steps.append(("yes", b)); cost = int(m[1])
        return dict(rc=rc, out=o, enc=enc, steps=steps, cost=cost, plans=engine.parse_plans(runs.insts[k], o),
                    status="limit" if limit else "solved" if cost is not None else "unsolved" if steps else "none")
    runs.c.count("engine_runs", len(jobs))
    return engine.pmap(go, list(enumerate(jobs)))


def campaign(c, off, n):
    for b, seed, n in batches(c, n, 400, 2 * n):
        insts = cp.instances(seed + off, ["trans", "trans", "transpar"], n, cap=1500)
        R = cp.Runs(c, insts, timeout=10)
        r = random.Random(seed + off)
        jobs = []
        for k in range(len(insts)):
            for _ in range(2):
                real = r.random() < .5
                jobs.append((k, options(r) + (["--realCosts"] if real else []), r.choice(["bfs", "ucs", "rand:%d" % r.randint(1, 99), "rand:%d" % r.randint(1, 99)])))
        res = translate(R, jobs)
        for (k, a, mode), p in zip(jobs, res):
            c.count("runs_" + ("wall_timeout" if p["rc"] == "timeout" else p["status"]))
            if p["enc"]: c.count("encoding_" + p["enc"].split()[0] + ("_ADL" if "ADL" in p["enc"] else "_Strips" if "Basic" in p["enc"] else ""))
        if sum(p["status"] == "none" for p in res) > len(res) // 2: raise cp.CheckError("most runs gave no verdict")
        yield insts, R, jobs, res


def crash(p):
    if p["rc"] in ("stopped", "timeout"): return False
    return p["rc"] != 0 or p["status"] != "solved" or "FDMINI bad input" in p["out"]


def tell(R, k, a, mode, p, **kw): return payload(R, k, ["-2", "--iterate"] + a + ["FD_MODE=" + mode], p, **kw)


def with_last_tasks(I):
    """The STRIPS encoding puts an empty task behind the subtasks of a method without a last one."""
    import copy
    J = copy.deepcopy(I); a = len(I.actions)
    sh = lambda t: t + (t >= a)
    J.actions.append(dict(cost=0, pre=[], add=[], **{"del": []}))
    J.names.insert(a, "last[]"); J.init = sh(I.init)
    for m in J.methods:
        m["task"] = sh(m["task"]); m["subs"] = [sh(t) for t in m["subs"]]
        n = len(m["subs"]); tc = set(map(tuple, m["ord"]))
        for k in range(n): tc |= {(x, y) for x in range(n) for y in range(n) if (x, k) in tc and (k, y) in tc}
        if n > 1 and not any(all((x, y) in tc for x in range(n) if x != y) for y in range(n)):
            m["subs"].append(a); m["ord"] = list(m["ord"]) + [(x, n) for x in range(n)]
    return J


def p18(c):
    for insts, R, jobs, res in campaign(c, 180, int(os.environ.get("NX", 500))):
        claims, plans = [], []
        for (k, a, mode), p in zip(jobs, res):
            if "FDMINI bad input" in p["out"]:
                c.violation("the generated SAS+ file is not well formed", tell(R, k, a, mode, p), key=c.key([insts[k].sas(), a])); continue
            if "FDMINI mutex" in p["out"]:
                c.violation("a mutex group of the generated SAS+ file does not hold in a reachable state", tell(R, k, a, mode, p), key=c.key([insts[k].sas(), a])); continue
            if crash(p):
                c.violation("the translation gives no verdict (exit %s)" % p["rc"], tell(R, k, a, mode, p), key=c.key([insts[k].sas(), a])); continue
            no = [b for s, b in p["steps"] if s == "no"]
            if no:
                kind = "seq" if p["enc"].startswith("Parallel") else "width"
                i = k
                if p["enc"].startswith("Basic PO Strips"): i = len(R.insts) + len(R.extra); R.extra.append(with_last_tasks(insts[k]))
                claims.append((cp.claim(i, kind, max(no) + 1, size=max(no) * (3 if kind == "seq" else 1)), (k, a, mode, p)))
            if p["status"] == "solved":  # solvable only if the problem is
                if not p["plans"]: c.violation("no plan is printed for a solved translation", tell(R, k, a, mode, p)); continue
                plans.append((cp.plan_rec(p, p["plans"][0], k), (k, a, mode, p)))
        for cl, (k, a, mode, p) in claims[:3]: c.sample(dict(instance=k, args=a, claim=cl))
        def desc(cl, info):
            k, a, mode, p = info
            return "the translation with bound %d is unsolvable, but the problem has a solution within the bound" % (cl["bound"] - 1), tell(R, k, a, mode, p)
        cp.check_claims(c, R, claims, desc)
        def desc2(q, info):
            k, a, mode, p = info
            return "the translation is solvable, but not by a solution of the problem", tell(R, k, a, mode, p, plan=q)
        cp.check_plans(c, R, plans, desc2)
        if c.violations: return


def p19(c):
    for insts, R, jobs, res in campaign(c, 190, int(os.environ.get("NX", 900))):
        plans = []
        for (k, a, mode), p in zip(jobs, res):
            if p["status"] != "solved": continue
            if not p["plans"] or p["rc"] != 0: c.violation("a plan was found but is not translated back (exit %s)" % p["rc"], tell(R, k, a, mode, p), key=c.key([insts[k].sas(), a])); continue
            plans.append((cp.plan_rec(p, p["plans"][0], k, p["cost"] if "--realCosts" in a else -1), (k, a, mode, p)))
        for q, (k, a, mode, p) in plans[:2]: c.sample(dict(instance=k, args=a, plan=q))
        def desc(q, info):
            k, a, mode, p = info
            return "the plan is not translated back to a solution (of the same cost)", tell(R, k, a, mode, p, plan=q)
        cp.check_plans(c, R, plans, desc)
        if c.violations: return
