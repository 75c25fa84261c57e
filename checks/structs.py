"""P20, P21: the tries and the integer structures of the planner, driven by drv_ds; TLC decides the histories."""
import os, json, random, itertools
import build, jobs, tlc
from check import CheckError
from cudd import histories, judge, rounds, sick, read_partial


def p21(c): rounds(c, ["adt"], 2400, 80, module="DsTrace", driver="drv_ds")


def behaviours(c):
    """Insertion histories of the specification's small tries (TrieModel), as printed by TLC."""
    r = c.tlc("TrieModel", dict(DUMP="1"))
    if r.violated: raise CheckError("TrieModel is not a map: %s" % r.violated)
    hist = []
    for l in r.out.splitlines():
        if l.startswith('"HIST '): hist.append(json.loads(json.loads(l)[5:]))
    if len(hist) < 100: raise CheckError("no behaviours of TrieModel")
    return hist


def embed(key, lens, salt):
    """A short key as a long one: every bit becomes a run whose first bit it is; the rest depends on the prefix only."""
    s = ""
    for k, b in enumerate(key):
        s += str(b)
        r = random.Random("%s/%s" % (salt, "".join(map(str, key[:k + 1]))))
        n = lens[k % len(lens)] - 1
        s += "0" * n if salt % 3 == 0 else "1" * n if salt % 3 == 1 else "".join(r.choice("01") for _ in range(n))
    return s


LENS = [[1], [64], [63, 65], [64, 1], [1, 63], [65, 63], [32], [128, 64], [64, 64, 1], [2, 62, 64], [130, 62]]


def p20(c):
    hist = behaviours(c)
    c.count("specification_behaviours", len(hist))
    exe = build.build(["drv_ds"])["drv_ds"]
    rnd = random.Random(c.seed)
    per = {False: 2600}.get(c.thorough, 12000)
    n = 0
    while True:
        pick = [hist[rnd.randrange(len(hist))] for _ in range(per)]
        cmds, outs = [], []
        for q in range(8):
            f, o = os.path.join(c.dir, "s%d.txt" % q), os.path.join(c.dir, "s%d.json" % q)
            with open(f, "w") as w:
                for x, h in enumerate(pick[q::8]):
                    keys = [tuple(k) for k in h]
                    more = list(itertools.chain(keys, *[[k[:j] for j in range(1, len(k))] for k in keys], [k[:-1] + (1 - k[-1],) for k in keys]))
                    allk = sorted(set(more)); num = {k: i + 1 for i, k in enumerate(allk)}
                    lens, salt = rnd.choice(LENS), rnd.randrange(1000)
                    look = [k for k in allk]; rnd.shuffle(look)
                    acc = [(num[k], 10 + i) for i, k in enumerate(keys)] + [(num[k], 0 if k not in keys else 100 + i) for i, k in enumerate(look)] + [(num[k], 0) for k in keys]
                    w.write("%d %d %d\n%s\n%s\n" % (x % 5 == 4, len(allk), len(acc), "\n".join(embed(k, lens, salt) for k in allk), "\n".join("%d %d" % a for a in acc)))
            cmds.append([exe, "script", "0", "0", f, o]); outs.append(o)
        logs = []
        for (rc, out), o, cmd in zip(jobs.run(cmds, timeout=200), outs, cmds):
            hs = [json.loads(l) for l in open(o)] if rc == 0 else read_partial(o)
            if rc != 0:
                if not sick(rc): raise CheckError("drv_ds script: %s %s" % (rc, out[-300:]))
                c.violation("the trie %s" % ("hangs" if rc == "timeout" else "crashes (%s)" % rc), dict(output=out, events=hs[-1][-12:] if hs else [], script=open(cmd[4]).read()[:4000])); hs = hs[:-1]
            logs += hs
        if not c.violations: judge(c, logs, "trie", c.seed, "DsTrace")
        if not c.violations: histories(c, "trie", c.seed + 1000 * n, 1600, 60, module="DsTrace", driver="drv_ds")
        if not c.violations: histories(c, "many", c.seed + 1000 * n, 16000, 400, module="DsTrace", driver="drv_ds")
        n += 1
        if c.violations or not c.thorough or n > 20 or c.elapsed() > 600: return
