"""Grounded HTN problem instances: a seeded generator and the engine's input format."""
import random, json


class Inst:
    """tasks 0..nA-1 are the actions, the rest are abstract; init is the initial task."""

    def __init__(s):
        s.nF = 0; s.vars = []            # (first,last)
        s.strict = []; s.mutex = []; s.inv = []
        s.actions = []                   # dict(cost,pre,add,del)
        s.s0 = []; s.goal = []
        s.names = []                     # all task names
        s.init = 0
        s.methods = []                   # dict(name,task,subs,ord)
        s.tag = ""
        s.factnames = None

    @property
    def nA(s): return len(s.actions)

    def sas(s):
        L = [str(s.nF)]
        fn = s.factnames or ["f%d[]" % i for i in range(s.nF)]
        L = [";; #state features", str(s.nF)] + fn + ["", ";; Mutex Groups", str(len(s.vars))]
        L += ["%d %d v%d" % (a, b, i) for i, (a, b) in enumerate(s.vars)]
        for hdr, lst in (("strict", s.strict), ("mutex", s.mutex), ("inv", s.inv)):
            L += ["", ";; " + hdr, str(len(lst))] + [" ".join(map(str, m)) + " -1" for m in lst]
        L += ["", ";; Actions", str(s.nA)]
        for a in s.actions:
            L.append(str(a["cost"]))
            L.append(" ".join(map(str, a["pre"] + [-1])))
            for k in ("add", "del"):
                L.append(" ".join("0 %d " % f for f in a[k]) + " -1")
        L += ["", ";; initial state", " ".join(map(str, s.s0 + [-1]))]
        L += ["", ";; goal", " ".join(map(str, s.goal + [-1]))]
        L += ["", ";; tasks (primitive and abstract)", str(len(s.names))]
        L += ["%d %s" % (0 if i < s.nA else 1, n) for i, n in enumerate(s.names)]
        L += ["", ";; initial abstract task", str(s.init)]
        L += ["", ";; methods", str(len(s.methods))]
        for m in s.methods:
            L += [m["name"], str(m["task"]), " ".join(map(str, m["subs"] + [-1])),
                  " ".join(str(x) for p in m["ord"] for x in p) + " -1"]
        return "\n".join(L) + "\n"

    def tla(s):
        """The same instance for the specification (1-based sequences are made there)."""
        return dict(nF=s.nF, nA=s.nA, nT=len(s.names), init=s.init,
                    actions=[dict(cost=a["cost"], pre=a["pre"], add=a["add"], dl=a["del"]) for a in s.actions],
                    s0=s.s0, goal=s.goal,
                    methods=[dict(task=m["task"], subs=m["subs"], ord=[list(p) for p in m["ord"]]) for m in s.methods])

    def copy(s):
        t = Inst(); t.__dict__.update(json.loads(json.dumps(s.__dict__)))
        t.vars = [tuple(v) for v in t.vars]
        for m in t.methods: m["ord"] = [tuple(p) for p in m["ord"]]
        return t


def closure(pairs):
    P = set(map(tuple, pairs))
    while True:
        n = {(a, d) for (a, b) in P for (c, d) in P if b == c} - P
        if not n: return P
        P |= n


def is_to(m):
    k = len(m["subs"])
    return len(closure(m["ord"])) == k * (k - 1) // 2


def reachable(inst):
    seen, todo = {inst.init}, [inst.init]
    while todo:
        t = todo.pop()
        for m in inst.methods:
            if m["task"] == t:
                for x in m["subs"]:
                    if x not in seen: seen.add(x); todo.append(x)
    return seen


def productive(inst):
    prod = set(range(inst.nA))
    ch = True
    while ch:
        ch = False
        for m in inst.methods:
            if m["task"] not in prod and all(x in prod for x in m["subs"]):
                prod.add(m["task"]); ch = True
    return prod


def cyclic(inst):
    col = {}
    def dfs(t):
        col[t] = 1
        for m in inst.methods:
            if m["task"] == t:
                for x in m["subs"]:
                    if col.get(x) == 1 or (x not in col and dfs(x)): return True
        col[t] = 2
        return False
    return dfs(inst.init)


def prune(inst):
    """Restrict to productive and reachable tasks (what the grounder delivers). None if nothing is left."""
    P = productive(inst)
    if inst.init not in P: return None
    inst.methods = [m for m in inst.methods if m["task"] in P and all(x in P for x in m["subs"])]
    R = sorted(reachable(inst))
    mp = {t: i for i, t in enumerate(R)}
    inst.actions = [inst.actions[t] for t in R if t < inst.nA]
    inst.names = [inst.names[t] for t in R]
    inst.init = mp[inst.init]
    inst.methods = [dict(name=m["name"], task=mp[m["task"]], subs=[mp[x] for x in m["subs"]], ord=m["ord"])
                    for m in inst.methods if m["task"] in mp]
    if not inst.actions: return None
    return inst


def rand_order(r, k, kind):
    """A random strict partial order on 0..k-1 as a list of pairs (not necessarily reduced or closed)."""
    perm = list(range(k)); r.shuffle(perm)
    if kind == "to":
        ps = [(perm[i], perm[i + 1]) for i in range(k - 1)]
    elif kind == "tored":   # total order with redundant pairs
        ps = [(perm[i], perm[j]) for i in range(k) for j in range(i + 1, k)
              if j == i + 1 or r.random() < 0.5]
    elif kind == "toid":
        ps = [(i, i + 1) for i in range(k - 1)]
    elif kind == "un":
        ps = []
    else:
        p = r.choice([0.3, 0.5, 0.8])
        ps = [(perm[i], perm[j]) for i in range(k) for j in range(i + 1, k) if r.random() < p]
    r.shuffle(ps)
    return ps


def gen(r, p=None):
    """One random instance; p overrides the parameters drawn."""
    p = dict(p or {})
    d = lambda k, f: p[k] if k in p else f()
    while True:
        I = Inst()
        nb = d("bools", lambda: r.randint(1, 4)); nm = d("multi", lambda: r.choice([0, 0, 0, 1, 2]))
        pad = d("pad", lambda: 0)
        kinds = ["b"] * nb + ["m"] * nm + ["p"] * pad
        r.shuffle(kinds)
        f = 0; multi = []; bools = []; pads = []
        for k in kinds:
            n = r.randint(2, 4) if k == "m" else 1
            I.vars.append((f, f + n - 1))
            if k == "m": multi.append((f, f + n - 1))
            elif k == "b": bools.append(f)
            else: pads.append(f)
            f += n
        I.nF = f
        nA = d("nA", lambda: r.randint(2, 6)); nT = d("nT", lambda: r.randint(1, 5))
        zc = d("zerocost", lambda: r.choice([0.0, 0.2, 0.5])); el = d("effless", lambda: r.choice([0, 0, 0.3]))
        both = d("adddel", lambda: 0)
        mc = d("maxcost", lambda: r.choice([1, 3, 9]))
        for a in range(nA):
            pre, add, dl = [], [], []
            noeff = r.random() < el
            for b in bools:
                if r.random() < d("ppre", lambda: 0.4): pre.append(b)
                x = r.random()
                if not noeff:
                    if x < 0.3: add.append(b)
                    elif x < 0.5: dl.append(b)
                    elif x < 0.5 + both: add.append(b); dl.append(b)
            for (x, y) in multi:
                cur = r.choice(range(x, y + 1)) if r.random() < 0.6 else None
                if cur is not None: pre.append(cur)
                if not noeff and r.random() < 0.5:
                    new = r.choice(range(x, y + 1))
                    add.append(new)
                    dl += [g for g in range(x, y + 1) if g != new and (cur is None or g == cur)]
            if pads and r.random() < 0.3: add.append(r.choice(pads))
            for l in (pre, add, dl): r.shuffle(l)
            I.actions.append(dict(cost=0 if r.random() < zc else r.randint(1, mc), pre=pre, add=add, **{"del": dl}))
        I.names = ["a%d[]" % i for i in range(nA)] + ["T%d[]" % i for i in range(nT)] + ["__top[]"]
        I.init = nA + nT
        rec = d("rec", lambda: r.choice([0, 0, 0.3]))
        okind = d("order", lambda: r.choice(["to", "tored", "toid", "po", "po", "un", "mix"]))
        top = d("top", lambda: okind)
        maxk = d("maxk", lambda: r.choice([2, 3, 3, 4]))
        ms = []
        def mk(t, lo, kind, k=None):
            k = k or r.randint(1, maxk)
            subs = []
            for _ in range(k):
                if r.random() < rec: subs.append(r.randrange(0, nA + nT))
                elif lo < nA + nT and r.random() < 0.5: subs.append(r.randrange(lo, nA + nT))
                else: subs.append(r.randrange(0, nA))
            kd = r.choice(["to", "po", "un"]) if kind == "mix" else kind
            return dict(name="m%d" % len(ms), task=t, subs=subs, ord=rand_order(r, k, kd))
        for t in range(nA, nA + nT):
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                ms.append(mk(t, t + 1, okind))
        for _ in range(d("ntop", lambda: 1)):
            m = mk(I.init, nA, "un" if top == "parseq" else top, d("topk", lambda: r.randint(1, maxk + 1)))
            if top == "parseq":   # several chains, unordered to each other
                k = len(m["subs"]); idx = list(range(k)); r.shuffle(idx)
                m["ord"] = [(idx[i], idx[i + 1]) for i in range(k - 1) if r.random() < 0.6]
            ms.append(m)
        sh = list(range(len(ms))); r.shuffle(sh)
        I.methods = [ms[i] for i in sh]
        for b in bools + pads:
            if r.random() < 0.5: I.s0.append(b)
        for (x, y) in multi: I.s0.append(r.randint(x, y))
        I.s0.sort()
        for b in bools:
            if r.random() < d("pgoal", lambda: 0.3): I.goal.append(b)
        for (x, y) in multi:
            if r.random() < 0.3: I.goal.append(r.randint(x, y))
        I = prune(I)
        if I is not None:
            I.tag = json.dumps(p)
            return I


def explore(inst, cap=3000, size=8):
    """Number of (network, state) nodes reachable under the reduction HtnSearch uses, or None beyond cap."""
    nA = inst.nA
    by = {}
    for i, m in enumerate(inst.methods): by.setdefault(m["task"], []).append((tuple(m["subs"]), frozenset(closure(m["ord"]))))
    A = [(frozenset(a["pre"]), frozenset(a["del"]), frozenset(a["add"])) for a in inst.actions]
    def repl(ts, o, k, sub, so):
        n = len(sub); mp = lambda j: j if j < k else j + n - 1
        bef = [a for a, b in o if b == k]; aft = [b for a, b in o if a == k]
        no = {(mp(a), mp(b)) for a, b in o if a != k and b != k}
        for s in range(n):
            no.update((mp(a), k + s) for a in bef); no.update((k + s, mp(b)) for b in aft)
        no.update((k + a, k + b) for a, b in so)
        if n == 0: no.update((mp(a), mp(b)) for a in bef for b in aft)
        return ts[:k] + sub + ts[k + 1:], frozenset(no)
    start = ((inst.init,), frozenset(), frozenset(inst.s0))
    seen = {start}; todo = [start]
    while todo:
        ts, o, st = todo.pop()
        blocked = {b for a, b in o}
        first = [k for k in range(len(ts)) if k not in blocked]
        ab = [k for k in first if ts[k] >= nA]
        nx = []
        if ab:
            for sub, so in by.get(ts[ab[0]], ()):
                if len(ts) - 1 + len(sub) <= size: nx.append(repl(ts, o, ab[0], sub, so) + (st,))
        else:
            for k in first:
                p, d, a = A[ts[k]]
                if p <= st: nx.append(repl(ts, o, k, (), ()) + ((st - d) | a,))
        for x in nx:
            if x not in seen:
                if len(seen) >= cap: return None
                seen.add(x); todo.append(x)
    return len(seen)


def reach_facts(I, cap=3000):
    """The states reachable by executable actions in any order, or None if there are more than cap."""
    pre = [frozenset(a["pre"]) for a in I.actions]; add = [frozenset(a["add"]) for a in I.actions]
    dl = [frozenset(a["del"]) for a in I.actions]
    s0 = frozenset(I.s0); seen = {s0}; todo = [s0]
    while todo:
        s = todo.pop()
        for p, x, d in zip(pre, add, dl):
            if p <= s:
                t = (s - d) | x
                if t not in seen:
                    seen.add(t); todo.append(t)
                    if len(seen) > cap: return None
    return seen


def annotate(I, r):
    """Adds some of the mutex groups and invariants that are true in every reachable state, as the grounder would."""
    S = reach_facts(I)
    if S is None: return
    F = range(I.nF)
    def grow(g):
        rest = [f for f in F if f not in g]; r.shuffle(rest)
        for f in rest:
            if all(len(s & (g | {f})) <= 1 for s in S) and any(f in s for s in S): g = g | {f}
        return g
    groups = {frozenset(grow(frozenset([f]))) for f in F}
    for g in groups:
        if len(g) < 2 or r.random() < .4: continue
        l = sorted(g)
        if all(len(s & g) == 1 for s in S): (I.strict if r.random() < .7 else I.mutex).append(l)
        else: I.mutex.append(l)
    # literals in the file: f or -f-2
    lit = lambda s, x: x in s if x >= 0 else -x - 2 not in s
    L = list(F) + [-f - 2 for f in F]
    for _ in range(r.choice([0, 2, 6])):
        c = r.sample(L, min(len(L), r.choice([2, 2, 3])))
        if len({x if x >= 0 else -x - 2 for x in c}) == len(c) and all(any(lit(s, x) for x in c) for s in S): I.inv.append(c)
