"""P06-P10: search nodes, their statistics and heuristics, and the visited list, recorded through drv_nodes."""
import os, json, random
import campaign as cp, walks, htn, tlc
from progression import batches


def good(c, insts, W):
    gi, gw = [], []
    for I, w in zip(insts, W):
        if "nodes" not in w:
            c.violation("the progression ended abnormally (%s)" % w.get("rc"), dict(instance=I.sas(), output=w.get("out"))); continue
        gi.append(I); gw.append(w)
    if len(gi) < 0.9 * len(insts) and not c.violations: raise cp.CheckError("walks were not recorded")
    return gi, gw


def files(c, insts, W):
    a, b = os.path.join(c.dir, "insts.json"), os.path.join(c.dir, "walks.json")
    json.dump([I.tla() for I in insts], open(a, "w")); json.dump(W, open(b, "w"))
    return dict(INSTS=a, WALKS=b)


FAMS = ["base", "dup", "hard", "join", "join2", "parseq", "to", "effless", "adddel", "multi", "wide", "lin", "pad", "word", "diam"]


def walk_check(c, module, quick_n, off, maxn, maxs, what, count):
    for b, seed, n in batches(c, quick_n, 500, quick_n * 2):
        insts = cp.instances(seed + off, FAMS, n, cap=20000, lo=4)
        W = walks.record(c, insts, "walk", seed, maxn, maxs)
        gi, gw = good(c, insts, W)
        while gi:
            r = c.tlc(module, files(c, gi, gw))
            if not r.violated: break
            k = int(tlc.last_state_var(r, "w")) - 1
            c.violation("%s (%s)" % (what, r.violated), dict(instance=gi[k].sas(), spec_trace=r.trace[:6000]), key=c.key([gi[k].sas()]))
            if len(c.violations) >= 3: break
            del gi[k]; del gw[k]
        c.traces += sum(len(w["edges"]) for w in gw)
        c.count("nodes", sum(len(w["nodes"]) for w in gw)); c.count("edges", sum(len(w["edges"]) for w in gw))
        if gw: c.sample(count(gw[0]))
        if c.violations: return


def p07(c):
    walk_check(c, "NodeTrace", 1200, 700, 60, 10, "the engine's successor is not one of the specification", lambda w: dict(edge=w["edges"][0], child=w["nodes"][w["edges"][0]["c"] - 1]))


def p10(c):
    walk_check(c, "NodeStats", 1500, 1000, 60, 12, "recorded tasks or reachable actions differ from the network's", lambda w: dict(node=w["nodes"][-1]))


def net_claim(inst, kind, bound, size, node):
    return cp.claim(inst, kind, bound, size, net=node["t"], ord=[(a - 1, b - 1) for a, b in node["o"]], st=node["st"], start=1)


HFAMS = ["chain", "cost", "hard", "chain", "dup", "base", "to", "parseq", "multi", "effless", "adddel", "lin", "many", "cost", "word"]


AFAMS = ["chain", "cost", "chain", "hard", "chain", "word", "chain", "parseq", "chain", "dup", "chain", "many", "chain", "multi", "chain", "to"]


class Shim:
    """The part of campaign.Runs that check_claims needs."""
    def __init__(s, c, insts): s.c, s.insts = c, insts

    def insts_json(s):
        f = os.path.join(s.c.dir, "insts.json"); json.dump([I.tla() for I in s.insts], open(f, "w")); return f


def heur(c, kind, quick_n, off, admissible):
    fams = HFAMS if kind == "unsolvable" else AFAMS
    for b, seed, n in batches(c, quick_n, 500, quick_n):
        insts = cp.instances(seed + off, fams, n, cap=400, lo=6)
        W = walks.record(c, insts, "heur", seed, 40, 9)
        gi, gw = good(c, insts, W)
        claims = []
        for k, (I, w) in enumerate(zip(gi, gw)):
            for j, nd in enumerate(w["nodes"][1:], 1):
                for x, h in enumerate(nd["h"]):
                    name = w["names"][x]
                    c.evals += 1
                    if kind == "unsolvable" and h == -1:
                        claims.append((net_claim(k, "unsolvable", 0, max(I.size, len(nd["t"]) + 2), nd), (k, j, name, h)))
                    if kind == "cost" and h > 0 and name in admissible:
                        claims.append((net_claim(k, admissible[name], h, max(I.size, len(nd["t"]) + 2), nd), (k, j, name, h)))
                    if kind == "cost" and h == -1 and name in admissible:
                        claims.append((net_claim(k, "unsolvable", 0, max(I.size, len(nd["t"]) + 2), nd), (k, j, name, h)))
        c.count("nodes", sum(len(w["nodes"]) for w in gw))
        for cl, i in claims[:3]: c.sample(dict(heuristic=i[2], value=i[3], claim=cl))
        def desc(cl, info):
            k, j, name, h = info
            nd = gw[k]["nodes"][j]
            what = "is called a dead end but can be completed to a solution" if h == -1 else "gets the estimate %d but can be completed at a smaller cost" % h
            return "a node %s by %s" % (what, name), dict(instance=gi[k].sas(), args=[name, j], node=nd)
        cp.check_claims(c, Shim(c, gi), claims, desc, chunk=4000)
        if c.violations: return


def p08(c): heur(c, "unsolvable", 1800, 800, None)


# without the correction of the task count, LM-cut is admissible for the costs its model gives to methods and actions
ADM = {"zero": "cost", "rc2(lmc;cost)": "cost", "rc2(lmc;cost;no)": "cost", "rc2(filter;cost)": "cost", "rc2(filter;cost;no)": "cost",
       "rc2(lmc;distance;no)": "mods", "rc2(lmc;mixed;no)": "mixed"}


def p09(c): heur(c, "cost", 1200, 900, ADM)


def p06_flags(k, I):
    """Visited-list configurations for instance k: N no reopening, T/Q/O/P/L/G/S switch something off."""
    r = random.Random(k)
    to = all(htn.is_to(m) for m in I.methods)
    out = []
    for _ in range(3):
        f = "".join(x for x in "NTQOPLS" if r.random() < 0.4)
        if r.random() < .3: f = r.choice(["", "N"])
        # without the hashes the exact keys alone tell nodes apart
        if r.random() < .4: f = "".join(sorted(set(f + "TQ")))
        # documented as incomplete: no topological order with totally ordered problems
        if to or "S" not in f: f = f.replace("O", "") if to else f
        out.append(f)
    return out


def p06(c):
    for b, seed, n in batches(c, 500, 500, 800):
        insts = cp.instances(seed + 600, ["wide", "dup", "multi", "wide", "parseq", "to", "join", "join2", "iso", "pad", "iso", "word", "diam", "diam"], n, cap=60000, lo=4)
        seq = cp.instances(seed + 650, ["seqmix", "seqmix", "seqmix", "parseq"], n // 4, cap=60000, lo=40)
        W = walks.record(c, insts, "dup", seed, 70, 9, p06_flags) + walks.record(c, seq, "dup", seed + 7000, 300, 9, lambda k, I: ["TQ", "NTQ"])
        insts = insts + seq
        gi, gw = good(c, insts, W)
        logs, who = [], []
        for k, w in enumerate(gw):
            for v in w["visi"]:
                f = v["flags"]
                if v["mode"] == "seq" and "O" in f: continue
                exact = 1 if v["mode"] == "seq" else 0
                used = sorted({e[0] for e in v["ev"]}); mp = {x: i + 1 for i, x in enumerate(used)}
                logs.append(dict(nodes=[{q: w["nodes"][x - 1][q] for q in ("st", "t", "o")} for x in used], ev=[[mp[e[0]]] + e[1:] for e in v["ev"]],
                                 reopen=0 if "N" in f else 1, exact=exact, att=v["att"], uniq=v["uniq"])); who.append((k, f, v["mode"]))
                c.count("lists_" + v["mode"]); c.count("rejected", sum(1 for e in v["ev"] if not e[2])); c.count("insertions", len(v["ev"]))
        while logs:
            p = os.path.join(c.dir, "logs.json"); json.dump(logs, open(p, "w"))
            r = c.tlc("DupTrace", dict(LOGS=p))
            if not r.violated: break
            i = int(tlc.last_state_var(r, "l")) - 1
            k, f, mode = who[i]
            c.violation("the visited list (%s mode, flags '%s') gave a wrong answer (%s)" % (mode, f, r.violated),
                        dict(instance=gi[k].sas(), args=[f], log=logs[i], spec_trace=r.trace[-5000:]), key=c.key([gi[k].sas(), f]))
            if len(c.violations) >= 3: break
            del logs[i]; del who[i]
        c.traces += len(logs)
        if logs: c.sample(dict(flags=who[0][1], events=logs[0]["ev"][:20]))
        if c.violations: return
