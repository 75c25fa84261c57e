"""Progression-search campaigns: generate instances, run the engine under many configurations, and let
HtnSearch.tla / PlanTrace.tla decide what it printed."""
import json, os, random, concurrent.futures as cf
import htn, engine, build
from check import CheckError

# ---- instance families ---------------------------------------------------------
FAM = {
    "base":   lambda r: dict(ppre=r.choice([0.15, 0.3]), pgoal=r.choice([0.1, 0.3])),
    "hard":   lambda r: dict(ppre=r.choice([0.2, 0.3]), pgoal=r.choice([0.2, 0.4]), nA=r.randint(4, 8), nT=r.randint(3, 7), bools=r.randint(3, 5), rec=r.choice([0, 0, 0.1])),
    "dup":    lambda r: dict(ppre=0.1, pgoal=0.2, order=r.choice(["un", "po", "mix"]), nA=r.randint(3, 5), nT=r.randint(2, 4), maxk=3, topk=r.randint(2, 4), rec=0, maxcost=r.choice([3, 9])),
    "parseq": lambda r: dict(ppre=r.choice([0.1, 0.3]), pgoal=0.2, order=r.choice(["to", "toid", "tored"]), top="parseq", topk=r.randint(2, 4), nT=r.randint(2, 5), rec=r.choice([0, 0, 0.15])),
    "join":   lambda r: dict(ppre=r.choice([0.1, 0.3]), pgoal=0.3, order=r.choice(["to", "toid", "tored"]), top=r.choice(["po", "po", "un"]), topk=r.randint(3, 5), nT=r.randint(2, 4), nA=r.randint(3, 5), maxk=2, rec=0),
    "to":     lambda r: dict(ppre=r.choice([0.15, 0.3]), pgoal=r.choice([0.1, 0.4]), order=r.choice(["to", "toid", "tored"]), nA=r.randint(3, 8), nT=r.randint(3, 7), rec=r.choice([0, 0.2, 0.35])),
    "pad":    lambda r: dict(ppre=0.2, pgoal=0.3, pad=r.choice([61, 64, 70, 130]), order=r.choice(["to", "po", "un"]), nA=r.randint(3, 6), nT=r.randint(2, 4)),
    "many":   lambda r: dict(ppre=0.15, pgoal=0.2, nA=r.randint(8, 14), nT=r.randint(6, 12), bools=r.randint(3, 6), rec=0, maxk=3),
    "cost":   lambda r: dict(ppre=r.choice([0.1, 0.25]), pgoal=r.choice([0.3, 0.5]), nA=r.randint(4, 8), nT=r.randint(2, 5), maxcost=r.choice([9, 40]), zerocost=r.choice([0, 0.3]), bools=r.randint(3, 5)),
    "adddel": lambda r: dict(ppre=0.25, pgoal=0.3, adddel=0.2, nA=r.randint(3, 6), nT=r.randint(2, 5)),
    "effless": lambda r: dict(ppre=0.3, pgoal=0.3, effless=0.5, nA=r.randint(4, 8), nT=r.randint(2, 5), maxk=4),
    "multi":  lambda r: dict(ppre=0.1, pgoal=0.2, order=r.choice(["un", "po"]), nA=r.randint(1, 2), nT=r.randint(1, 3), maxk=4, topk=r.randint(3, 5), rec=0, effless=0),
    "wide":   lambda r: dict(ppre=0.1, pgoal=0.2, order=r.choice(["un", "po", "mix"]), nA=r.randint(2, 4), nT=1, maxk=2, topk=r.randint(5, 7), ntop=r.randint(2, 5), rec=0),
    "lin":    lambda r: dict(ppre=0.3, pgoal=0.2, order=r.choice(["to", "un"]), rec=0.25, nT=r.randint(1, 3), maxk=2),
}


def join2(r):
    """Initial methods in which two chains end in one shared task or in two copies of it."""
    while True:
        I = htn.gen(r, dict(ppre=0.3, pgoal=0.3, order="to", top="un", topk=2, nT=2, nA=4, maxk=2, rec=0))
        top = [m for m in I.methods if m["task"] == I.init][0]
        n = len(I.names) - 1
        a, b, c = (r.randrange(n) for _ in range(3))
        top["subs"] = [a, b, c]; top["ord"] = [(0, 2), (1, 2)]
        if r.random() < .5: I.methods.append(dict(name="mtop2", task=I.init, subs=[a, b, c, c], ord=[(0, 2), (1, 3)]))
        else: top["subs"] = [a, b, c, b, c]; top["ord"] = [(0, 2), (1, 2), (3, 4)]
        I = htn.prune(I)
        if I: return I


def iso(r):
    """Initial methods whose networks have the same local statistics but are mostly not isomorphic: two layers
    over few tasks, joined in different ways."""
    while True:
        I = htn.gen(r, dict(ppre=0.1, pgoal=0.2, order="to", nA=r.randint(2, 3), nT=r.randint(1, 2), maxk=2, topk=2, rec=0, effless=0))
        I.methods = [m for m in I.methods if m["task"] != I.init]
        low = list(range(len(I.names) - 1))
        a, b = r.choice(low), r.choice(low)
        k, l = r.choice([(4, 2), (3, 2), (4, 3), (3, 3), (4, 2)]); third = r.random() < .3
        for x in range(r.randint(3, 8)):
            deg = r.choice([1, 1, 2])
            pairs = [(i, k + j) for i in range(k) for j in r.sample(range(l), min(deg, l))]
            subs = [a] * k + [b] * l
            if third:
                subs.append(r.choice([a, b])); pairs += [(k + j, k + l) for j in range(l) if r.random() < .6]
            I.methods.append(dict(name="mi%d" % x, task=I.init, subs=subs, ord=pairs))
        I = htn.prune(I)
        if I: return I


def word(r, kind=None):
    """Solvable iff one of the initial networks has the linearisation the facts prescribe: a counter that
    letter tasks move along a random word."""
    n = r.randint(3, 6); ab = r.randint(1, 3) if kind != "diam" else r.randint(3, 6)
    w = [r.randrange(ab) for _ in range(n)]
    I = htn.Inst(); I.nF = n + 1; I.vars = [(0, n)]; I.s0 = [0]; I.goal = [n] if r.random() < .8 else []
    for i in range(n): I.actions.append(dict(cost=r.randint(0, 3), pre=[i], add=[i + 1], **{"del": [i]}))
    I.names = ["a%d[]" % i for i in range(n)] + ["L%d[]" % x for x in range(ab)] + ["__top[]"]
    I.init = n + ab
    ms = [dict(name="m%d" % i, task=n + w[i], subs=[i], ord=[]) for i in range(n)]
    kind = kind or r.choice(["po", "po", "bip", "to", "chains", "two", "two", "tree", "itree"])
    if kind == "diam" and n < 5: return word(r, kind)
    if kind == "two":   # several A under two X, distributed differently
        n = r.choice([5, 6, 6]); ab = 2; w = [0] * (n - 2) + [1]; r.shuffle(w); w.append(1)
        I.nF = n + 1; I.vars = [(0, n)]; I.goal = [n]; I.actions = []
        for i in range(n): I.actions.append(dict(cost=r.randint(0, 3), pre=[i], add=[i + 1], **{"del": [i]}))
        I.names = ["a%d[]" % i for i in range(n)] + ["L%d[]" % x for x in range(ab)] + ["__top[]"]
        I.init = n + ab
        ms = [dict(name="m%d" % i, task=n + w[i], subs=[i], ord=[]) for i in range(n)]
    good = r.randint(0, 3)
    for x in range(r.randint(3, 4) if kind == "diam" else r.randint(1, 4) if kind != "two" else 3):
        subs = [n + l for l in w]; r.shuffle(subs)
        if kind == "two":
            subs.sort(); c = n - 2; a = r.randint(1, c - 1)
            ms.append(dict(name="t%d" % x, task=I.init, subs=subs, ord=[(i, c if i < a else c + 1) for i in range(c)])); continue
        if r.random() < .1: subs.pop()
        k = len(subs)
        if kind == "bip":
            subs.sort(); c = r.randint(1, k - 1) if k > 1 else 0
            ps = [(i, c + r.randrange(k - c)) for i in range(c)]
        elif kind == "chains":
            idx = list(range(k)); r.shuffle(idx); ps = [(idx[i], idx[i + 1]) for i in range(k - 1) if r.random() < .7]
        elif kind == "diam":  # one first and one last subtask, but no total order; most contradict the word in between
            subs = [n + l for l in w]; k = n
            idx = list(range(k)); r.shuffle(idx); at = {v: i for i, v in enumerate(idx)}; q = r.choice([0, .5, 1]) if not x else 1
            mid = list(range(2, k - 1))
            if x != good: r.shuffle(mid); q = max(q, .6)
            inner = [(mid[i], mid[j]) for i in range(len(mid)) for j in range(i + 1, len(mid)) if r.random() < q]
            ps = [(0, m) for m in mid] + [(m, k - 1) for m in mid] + [(1, k - 1)] + inner
            r.shuffle(ps); ps = [(0, 1)] + ps
            if r.random() < .3: r.shuffle(ps)
            ps = [(at[i], at[j]) for i, j in ps]; subs = [subs[i] for i in idx]
        elif kind in ("tree", "itree"):  # each subtask but one has exactly one direct predecessor (successor)
            idx = list(range(k)); r.shuffle(idx)
            ps = [(idx[r.randrange(i)], idx[i]) for i in range(1, k)]
            if kind == "itree": ps = [(b, a) for a, b in ps]
        else: ps = htn.rand_order(r, k, kind)
        ms.append(dict(name="t%d" % x, task=I.init, subs=subs, ord=ps))
    if r.random() < .3:  # the same network one level further down
        I.names.insert(-1, "W[]"); I.init += 1
        ms.append(dict(name="top", task=I.init, subs=[I.init - 1], ord=[]))
    r.shuffle(ms); I.methods = ms
    I = htn.prune(I)
    return I if I else word(r, kind)


def chain(r):
    """Causal chains: a task that may execute any actions, so that only the facts decide what is done; few facts
    hold at first and most actions need one that another action has to provide."""
    n = r.randint(4, 7); nA = r.randint(5, 10)
    I = htn.Inst(); I.nF = n; I.vars = [(i, i) for i in range(n)]
    I.s0 = [f for f in range(n) if r.random() < .15]
    I.goal = r.sample(range(n), r.choice([0, 1, 1, 2, 2]))
    mc = r.choice([3, 9, 9])
    for i in range(nA):
        x = r.random()
        pre = r.sample(range(n), 0 if x < .2 else 1 if x < .75 else 2)
        add = r.sample([f for f in range(n) if f not in pre] or [0], 1)
        if r.random() < .25: add.append(r.choice([f for f in range(n) if f not in add]))
        dl = [f for f in range(n) if f not in add and r.random() < .08]
        I.actions.append(dict(cost=0 if r.random() < .1 else r.randint(1, mc), pre=pre, add=add, **{"del": dl}))
    I.actions.append(dict(cost=0, pre=[], add=[], **{"del": []}))
    I.names = ["a%d[]" % i for i in range(nA)] + ["noop[]"]
    ms = []
    def task(nm): I.names.append(nm); return len(I.names) - 1
    def meth(t, subs, ord=None): ms.append(dict(name="m%d" % len(ms), task=t, subs=subs, ord=[(i, i + 1) for i in range(len(subs) - 1)] if ord is None else ord))
    T = task("T[]")
    meth(T, [nA])
    part = [i for i in range(nA) if r.random() < .8] or [0]
    for i in part: meth(T, [i, T])
    subs = [T]
    for k in range(r.choice([0, 0, 1, 2])):
        U = task("U%d[]" % k)
        for _ in range(r.randint(1, 3)): meth(U, r.choices(range(nA), k=r.randint(1, 2)))
        subs += [U, T] if r.random() < .6 else [U]
    I.init = task("__top[]"); meth(I.init, subs)
    I.methods = ms
    return htn.prune(I) or chain(r)


def seqmix(r):
    """Parallel chains that read alike when they are not kept apart: few tasks, states that hardly ever change,
    and mostly a number of tasks that just fits some number of bits."""
    while True:
        nA = r.randint(2, 4); nT = r.randint(2, 4)
        I = htn.Inst(); I.nF = 2; I.vars = [(0, 0), (1, 1)]
        for i in range(nA):
            x = r.random()
            I.actions.append(dict(cost=r.randint(0, 3), pre=[1] if x < .1 else [], add=[0] if x > .9 else [], **{"del": [0] if .8 < x < .9 else []}))
        I.s0 = [f for f in (0, 1) if r.random() < .7]; I.goal = [0] if r.random() < .3 else []
        I.names = ["a%d[]" % i for i in range(nA)] + ["T%d[]" % i for i in range(nT)] + ["__top[]"]
        I.init = nA + nT; ms = []
        for t in range(nT):
            for _ in range(r.randint(2, 4)):
                k = r.randint(1, 3)
                ms.append(dict(name="m%d" % len(ms), task=nA + t, subs=[r.randrange(nA) if t == nT - 1 or r.random() < .8 else nA + r.randrange(t + 1, nT) for _ in range(k)],
                               ord=[(i, i + 1) for i in range(k - 1)]))
        k = r.randint(2, 4); idx = list(range(k))
        ms.append(dict(name="top", task=I.init, subs=[nA + r.randrange(nT) for _ in idx], ord=[(i, i + 1) for i in range(k - 1) if r.random() < .3]))
        I.methods = ms
        I = htn.prune(I)
        if not I: continue
        n = len(I.names)
        if r.random() < .7 and n & (n - 1): continue
        return I


CUSTOM = {"diam": lambda r: word(r, "diam"), "chain": chain, "seqmix": seqmix, "join2": join2, "iso": iso, "word": word}


ANNOTATED = set()  # families whose instances may come with mutex groups and invariants


def one(args):
    seed, fam, cap, lo, size = args
    r = random.Random(seed)
    for _ in range(60):
        I = CUSTOM[fam](r) if fam in CUSTOM else htn.gen(r, FAM[fam](r))
        # acyclic instances are explored completely, recursive ones up to a network size
        I.size = size if htn.cyclic(I) else 99
        n = htn.explore(I, cap, I.size)
        if n is not None and n >= lo:
            if fam in ANNOTATED and r.random() < .5: htn.annotate(I, r)
            I.fam = fam; I.nstates = n; I.acyclic = not htn.cyclic(I)
            return I
    return None


def instances(seed, fams, n, cap=1500, lo=6, size=7):
    """n instances, families in turn; deterministic for a seed."""
    jobs = [(seed * 1000003 + i, fams[i % len(fams)], cap, lo, size) for i in range(n)]
    with cf.ProcessPoolExecutor(os.cpu_count()) as ex:
        return [I for I in ex.map(one, jobs, chunksize=8) if I is not None]


RC_INNER = ["ff", "add", "lmc", "filter"]
ADMISSIBLE = [["zero"], ["rc2(lmc;cost)"], ["rc2(filter;cost)"], ["rc2(lmc;cost;no)"], ["rc2(filter;cost;no)"]]
VISI_ALL = ["-T", "-Q", "-O", "--noLayers", "--noOrderPairs", "--noParallelSequences", "--noGIcheck"]


def heur_args(hs): return [x for h in hs for x in ("-H", h)]


def visi_flags(r, inst):
    """Visited-list options that keep the search complete.  Without -O a totally-ordered (or parallel
    sequences) problem is pruned incompletely, as the engine warns; without the isomorphism check a
    partially-ordered one is."""
    cyclic = htn.cyclic(inst)
    if r.random() < 0.35: return []
    if not cyclic and r.random() < 0.1: return ["-V"]
    fl = [f for f in VISI_ALL if r.random() < 0.35]
    to = all(htn.is_to(m) for m in inst.methods)
    if to: fl = [f for f in fl if f != "-O"]
    else:
        fl = [f for f in fl if f != "--noGIcheck"]
        # the engine may treat the problem as parallel sequences
        if "-O" in fl and "--noParallelSequences" not in fl: fl.append("--noParallelSequences")
    return fl


def rand_config(r, inst):
    """Any configuration for which the search is complete."""
    hs = [r.choice(["zero", "modDepth", "mixedModDepth", "cost"]) if r.random() < 0.3 else
          "rc2(%s;%s%s)" % (r.choice(RC_INNER), r.choice(["distance", "cost", "mixed"]), r.choice(["", ";no"]))
          for _ in range(r.choice([1, 1, 1, 2, 3]))]
    c = heur_args(hs) + ["-g", r.choice(["path", "path", "action", "mixed", "none"])]
    if r.random() < 0.4: c += ["-w", str(r.choice([2, 3, 5, 10]))]
    if r.random() < 0.6: c += ["-S", str(r.randint(0, 10**6))]
    if r.random() < 0.35: c += ["--suboptimal"]
    return c + visi_flags(r, inst)


class Runs:
    """Engine results of a campaign on a list of instances."""

    def __init__(s, c, insts, timeout=20, ctimeout=1.5):
        s.c, s.insts, s.timeout, s.ctimeout = c, insts, timeout, ctimeout
        s.bin = build.build(["engine"])["engine"]
        s.d = c.sub("inst")
        s.files = []
        s.extra = []  # more instances for the specification only
        for k, I in enumerate(insts):
            f = os.path.join(s.d, "i%d.sas" % k); open(f, "w").write(I.sas()); s.files.append(f)

    def run(s, jobs):
        """jobs: (instance number, args). Returns the parsed results in order."""
        def go(j):
            k, a = j
            # recursive instances have infinitely many nodes: blind runs on them may not end, and nothing is lost
            rc, o = engine.run([s.bin] + a + [s.files[k]], s.timeout if s.insts[k].acyclic else s.ctimeout)
            p = engine.parse_progression(s.insts[k], rc, o); p["out"] = o
            return p
        s.c.count("engine_runs", len(jobs))
        return engine.pmap(go, jobs)

    def insts_json(s):
        f = os.path.join(s.c.dir, "insts.json")
        json.dump([I.tla() for I in s.insts + s.extra], open(f, "w"))
        return f


def claim(inst, kind, bound=0, size=7, net=(), ord=(), st=(), start=0, **more):
    return dict(more, inst=inst + 1, kind=kind, bound=bound, size=size, net=list(net), ord=[list(x) for x in ord], st=list(st), start=start)


def check_claims(c, runs, claims, describe, chunk=100000, timeout=700):
    """claims: list of (claim, info). Runs HtnSearch over the distinct ones; reports the first broken one per chunk."""
    if not claims: return
    by = {}
    for cl, info in claims: by.setdefault(json.dumps(cl, sort_keys=True), []).append(info)
    keys = list(by)
    ij = runs.insts_json()
    todo = keys
    found = 0
    while todo:
        part, todo = todo[:chunk], todo[chunk:]
        f = os.path.join(c.dir, "claims.json"); json.dump([json.loads(k) for k in part], open(f, "w"))
        r = c.tlc("HtnSearch", dict(INSTS=ij, CLAIMS=f), timeout=timeout)
        if r.violated:
            import tlc
            k = int(tlc.last_state_var(r, "c"))
            info = by[part[k - 1]][0]
            msg, payload = describe(json.loads(part[k - 1]), info)
            payload["spec_trace"] = r.trace[:4000]
            c.violation(msg, payload, key=c.key([payload.get("instance"), payload.get("args")]))
            found += 1
            if found >= 3: break
            todo = part[:k - 1] + part[k:] + todo
    c.traces += sum(len(v) for v in by.values())


def check_plans(c, runs, plans, describe, timeout=700):
    """plans: list of (record, info); PlanTrace decides each."""
    import tlc
    if not plans: return
    ij = runs.insts_json()
    todo = list(plans); found = 0
    c.traces += len(plans)
    while todo:
        f = os.path.join(c.dir, "plans.json"); json.dump([p for p, _ in todo], open(f, "w"))
        r = c.tlc("PlanTrace", dict(INSTS=ij, PLANS=f), timeout=timeout)
        if not r.violated: break
        k = int(tlc.last_state_var(r, "p"))
        msg, payload = describe(*todo[k - 1])
        payload["spec_trace"] = r.trace[:4000]
        c.violation(msg, payload, key=c.key([payload.get("instance"), payload.get("args")]))
        found += 1
        if found >= 3: break
        todo = todo[:k - 1] + todo[k:]


def plan_rec(p, plan, inst, cost=-1, length=-1):
    q = dict(plan); q.update(inst=inst + 1, cost=cost, len=length, depth=-1)
    return q
