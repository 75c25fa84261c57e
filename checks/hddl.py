"""P12: --writeInputToHDDL, the written files read back and compared with the problem by HddlTrace.tla."""
import os, random, re
import campaign as cp, htn, engine, build
from progression import batches
from model import table_check

NOOP, MPREC = "__noop", "__method_precondition"


def gen(r):
    I = htn.gen(r, dict(ppre=0.3, pgoal=0.3, nA=r.randint(2, 6), nT=r.randint(1, 4), maxk=r.choice([2, 3, 4]),
                        order=r.choice(["to", "tored", "toid", "po", "po", "un", "mix"]), rec=r.choice([0, 0.3]), adddel=r.choice([0, 0.2])))
    nA = I.nA
    new = []   # actions to add: (name, action)
    def act(name, pre): new.append((name, dict(cost=r.choice([0, 0, 1]), pre=pre, add=[], **{"del": []}))); return len(new) - 1
    noops = [act("%s%s[]" % (NOOP, x), []) for x in r.choice([[], [""], ["", "_b"]])]
    mps = [act("%s%d[a,b]" % (MPREC, x), r.sample(range(I.nF), r.randint(0, min(2, I.nF)))) for x in range(r.choice([0, 1, 2, 3]))]
    sh = lambda t: t if t < nA else t + len(new)
    for m in I.methods:
        m["subs"] = [sh(t) for t in m["subs"]]; m["task"] = sh(m["task"])
        if mps and r.random() < .6:   # mostly before everything else
            k = len(m["subs"]); m["subs"].append(nA + r.choice(mps))
            x = r.random()
            m["ord"] = list(m["ord"]) + [(k, j) for j in range(k) if x < .8 or r.random() < .5]
            if r.random() < .1: m["subs"].append(nA + r.choice(mps))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            if not noops or len(m["subs"]) > 5: continue
            k = len(m["subs"]); m["subs"].append(nA + r.choice(noops))
            # ordered into a linearisation, so that the orderings stay acyclic
            lin = lin_of(k, m["ord"]); p = r.randint(0, k); d = r.choice([.3, .6, 1])
            m["ord"] = list(m["ord"]) + [(j, k) for j in lin[:p] if r.random() < d] + [(k, j) for j in lin[p:] if r.random() < d]
        # shuffle the positions
        k = len(m["subs"]); perm = list(range(k))
        if r.random() < .7: r.shuffle(perm)
        subs = [0] * k
        for j in range(k): subs[perm[j]] = m["subs"][j]
        m["subs"] = subs; m["ord"] = [(perm[a], perm[b]) for a, b in m["ord"]]
        if r.random() < .3: r.shuffle(m["ord"])
    I.names[nA:nA] = [n for n, _ in new]; I.actions += [a for _, a in new]; I.init = sh(I.init)
    x = r.random()
    if x < .3: I.factnames = ["at-%d[t_%d,l+%d]" % (f, f // 2, f) for f in range(I.nF)]
    elif x < .5: I.factnames = ["none-of-those" if f == 1 else "+p[a|%d;b]" % f for f in range(I.nF)]
    elif x < .6:   # names that read the same once brackets and commas are replaced
        I.factnames = ["p[%s]" % ("a,b_%d" % (f // 2) if f % 2 else "a_b,%d" % (f // 2)) for f in range(I.nF)]
    if r.random() < .3: I.names = [n if n.startswith("__") else n.replace("[]", "[o-1,x_%d]" % (k % 2)) for k, n in enumerate(I.names)]
    if r.random() < .1: I.names = [n if n.startswith("__") else ("go[a,b_%d]" if k % 2 else "go[a_b,%d]") % (k // 2) for k, n in enumerate(I.names)]
    return I


def lin_of(k, ord):
    C = htn.closure(ord); done = []
    while len(done) < k: done += [j for j in range(k) if j not in done and all(a in done for a, b in C if b == j)][:1]
    return done


def clean(s):
    for ch in ",;][|!()?<>": s = s.replace(ch, "_")
    s = s.replace("+", "p").replace("-", "m")
    return "x" + s if s[0] == "_" else s


def sexpr(txt):
    txt = re.sub(r";[^\n]*", "", txt)
    st = [[]]
    for w in re.findall(r"[()]|[^\s()]+", txt):
        if w == "(": st.append([])
        elif w == ")":
            if len(st) < 2: raise ValueError("unbalanced")
            x = st.pop(); st[-1].append(x)
        else: st[-1].append(w)
    if len(st) != 1: raise ValueError("unbalanced")
    return st[0]


def naming(declared, wanted):
    """declared names (in order) -> number, by the cleaned original names; names that read the same are told apart
    by an appendix, in order of declaration.  wanted: {number: original name}."""
    left = dict(wanted); out = {}
    for d in declared:
        if d in out: out[d] = -1; continue
        c = [k for k in left if clean(left[k]) == d] or [k for k in left if d.startswith(clean(left[k]) + "_")]
        if c: out[d] = c[0]; del left[c[0]]
        else: out[d] = -1
    return out


def conj(x):
    """The conjuncts of a formula."""
    if not x: return []
    return [y for z in x[1:] for y in conj(z)] if x[0] == "and" else [x]


def sections(l):
    return {l[k]: l[k + 1] for k in range(len(l) - 1) if isinstance(l[k], str) and l[k].startswith(":")}


def read_back(I, d, p):
    D, = sexpr(d); P, = sexpr(p)
    F = naming([x[0] for s in D if s[0] == ":predicates" for x in s[1:]], dict(enumerate(I.factnames or ["f%d[]" % f for f in range(I.nF)])))
    A = [s for s in D if s[0] == ":action"]; T = [s for s in D if s[0] == ":task"]; M = [s for s in D if s[0] == ":method"]
    N = naming([s[1] for s in T], {k: n for k, n in enumerate(I.names) if k >= I.nA})
    NA = naming([s[1] for s in A], {k: n for k, n in enumerate(I.names) if k < I.nA})
    if set(N) & set(NA): raise ValueError("an action and a task of the same name")
    N.update(NA)
    fact = lambda x: F.get(x[0], -1) if len(x) == 1 else -1
    methods = []
    for s in M:
        q = sections(s)
        subs = q.get(":ordered-subtasks", q.get(":subtasks", []))
        subs = conj(subs)
        if ":ordered-subtasks" in q: ts = [x[0] for x in subs]; od = [[k, k + 1] for k in range(1, len(ts))]
        else:
            ids = {x[0]: k + 1 for k, x in enumerate(subs)}; ts = [x[1][0] for x in subs]
            if len(ids) != len(subs): raise ValueError("a subtask's name is used twice")
            od = []
            for o in conj(q.get(":ordering", [])):
                o = [w for w in o if w != "<"]
                od.append([ids[o[0]], ids[o[1]]])   # an unknown name is an error in the file
        methods.append(dict(task=N.get(q[":task"][0], -1), hasPre=1 if ":precondition" in q else 0,
                            pre=[fact(x) for x in conj(q.get(":precondition", []))], subs=[N.get(t, -1) for t in ts], ord=od))
    names = [s[1] for s in M]
    if len(set(names)) != len(names): raise ValueError("two methods of the same name")
    actions = []
    for s in A:
        q = sections(s)
        e = conj(q.get(":effect", []))
        actions.append(dict(id=N[s[1]], pre=[fact(x) for x in conj(q.get(":precondition", []))],
                            add=[fact(x) for x in e if x[0] != "not"], dl=[fact(x[1]) for x in e if x[0] == "not"]))
    h = next(s for s in P if s[0] == ":htn"); top = conj(sections(h)[":subtasks"])
    return dict(preds=list(F.values()), tasks=[N[s[1]] for s in T], methods=methods, actions=actions,
                top=N.get(top[0][0], -1) if len(top) == 1 else -1,
                s0=[fact(x) for s in P if s[0] == ":init" for x in s[1:]],
                goal=[fact(x) for s in P if s[0] == ":goal" for x in conj(s[1])],
                noop=[k for k, n in enumerate(I.names) if n.startswith(NOOP)], mprec=[k for k, n in enumerate(I.names) if n.startswith(MPREC)])


def p12(c):
    b0 = build.build(["engine"])["engine"]
    for b, seed, n in batches(c, 2500, 300, 4000):
        r = random.Random(seed * 7 + 12)
        insts = [gen(r) for _ in range(n)]
        d = c.sub("h")
        def go(k):
            f = os.path.join(d, "i%d.sas" % k); open(f, "w").write(insts[k].sas())
            rc, o = engine.run([b0, "--writeInputToHDDL", f], 30)
            if rc != 0: return dict(bad="the export ended abnormally (%s)" % rc)
            try: x, y = open(f + ".d.hddl").read(), open(f + ".p.hddl").read()
            except OSError: return dict(bad="no files were written")
            for g in (f, f + ".d.hddl", f + ".p.hddl"): os.remove(g)
            try: return dict(read_back(insts[k], x, y), d=x)
            except (ValueError, KeyError, IndexError, StopIteration) as e: return dict(bad="the written files are not well-formed: %r" % e, d=x)
        W = engine.pmap(go, list(range(n)))
        c.count("engine_runs", n)
        gi, gw = [], []
        for I, w in zip(insts, W):
            if "bad" in w: c.violation(w["bad"], dict(instance=I.sas(), domain=w.get("d")), key=c.key([I.sas()]))
            else:
                dom = w.pop("d"); gi.append(I); gw.append(w); w["_"] = 0
                if len(c.samples) < 1: c.sample(dict(domain=dom[:3000]))
                c.count("methods", len(w["methods"])); c.count("preconditions", sum(m["hasPre"] for m in w["methods"]))
        if len(gi) < 0.9 * n and not c.violations: raise cp.CheckError("nothing was exported")
        table_check(c, "HddlTrace", "HDDL", "i", gi, gw, "the written problem is a different one")
        c.traces += len(gw)
        if c.violations: return
