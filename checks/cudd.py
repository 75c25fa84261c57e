"""C01-C08: decision diagrams.  drv_cudd runs random histories on the real library and logs every operation with the
function of its result; TLC decides each history as a behaviour of the specified register machine."""
import os, json, re
import build, jobs, tlc
from check import CheckError


def sick(rc): return rc == "timeout" or rc < 0 or rc >= 128 or rc == 134


def histories(c, mode, seed, hist, events, module="BddTrace", driver="drv_cudd", env=None, chunks=8, extra=()):
    """One batch: several driver processes, then TLC over all complete histories."""
    exe = build.build([driver])[driver]
    per = -(-hist // chunks)
    outs = [os.path.join(c.dir, "%s-%d-%d.json" % (mode, seed, q)) for q in range(chunks)]
    rs = jobs.run([[exe, mode, str(seed * 100 + q), str(per), str(events), o] + list(extra) for q, o in enumerate(outs)], timeout=400)
    logs = []
    for q, ((rc, out), o) in enumerate(zip(rs, outs)):
        hs = [json.loads(l) for l in open(o)] if rc == 0 else read_partial(o)
        if rc != 0:
            if not sick(rc): raise CheckError("%s %s ended with %s: %s" % (driver, mode, rc, out[-500:]))
            last = hs[-1][-12:] if hs else []
            c.violation("the library %s in a %s history after %s" % ("hangs" if rc == "timeout" or rc == -14 else "crashes (%s)" % rc, mode, [e["o"] for e in last][-3:]),
                        dict(mode=mode, seed=seed * 100 + q, output=out, events=last))
            hs = hs[:-1]
        logs += [h for h in hs if len(h) > 1]
    judge(c, logs, mode, seed, module, env)
    for o in outs:
        if os.path.exists(o): os.remove(o)


def judge(c, logs, mode, seed, module, env=None):
    """TLC decides the recorded histories."""
    while logs:
        p = os.path.join(c.dir, "trace.json"); json.dump(logs, open(p, "w"))
        r = c.tlc(module, dict(TRACE=p, **(env or {})))
        if not r.violated: break
        m = re.findall(r"bad = <<(\d+), (\d+), \"(\w+)\", \"([\w ]+)\">>", r.trace)
        if not m: raise CheckError("TLC reports %s without naming an event" % r.violated)
        k, l, op, why = int(m[-1][0]), int(m[-1][1]), m[-1][2], m[-1][3]
        c.violation("%s history: event %d (%s): %s" % (mode, l, op, why),
                    dict(mode=mode, seed=seed, event=logs[k - 1][l - 1], before=logs[k - 1][:l - 1][-30:], ops=[e["o"] for e in logs[k - 1][:l]]), key=op)
        if len(c.violations) >= 3: break
        del logs[k - 1]
    c.traces += len(logs)
    ops = c.extra.setdefault("operations", {})
    for h in logs:
        c.count("events", len(h)); c.evals += len(h)
        for e in h: ops[e["o"]] = ops.get(e["o"], 0) + 1
    if logs: c.sample([[e["o"], e["d"], e["a"], e["x"][:8], e["y"][:4]] if "d" in e else e for e in logs[0][:15]])


def read_partial(path):
    """The histories of a log that ends abruptly, the broken one last."""
    hs = []
    if os.path.exists(path):
        for l in open(path):
            for end in ("", "]", None):
                try: hs.append(json.loads(l + end) if end is not None else []); break
                except ValueError: pass
    return hs


def rounds(c, plans, quick_hist, events, thorough_rounds=40, limit=600, **kw):
    """plans: modes.  Quick: one round; thorough: more, until the time is used."""
    n = 0
    while True:
        for mode in plans:
            histories(c, mode, c.seed + 1000 * n, quick_hist, events, **kw)
            if c.violations: return
        n += 1
        if not c.thorough or n >= thorough_rounds or c.elapsed() > limit: return


def with_wide(c, mode, hist, events, wide, whist=240, wevents=24):
    """Full tables over few variables, then chains over many."""
    rounds(c, [mode], hist, events, limit=400)
    if not c.violations: rounds(c, [wide], whist, wevents, module="WideTrace", driver="drv_cudd_wide")


def c01(c): with_wide(c, "bdd", 1400, 70, "ops")
def c02(c): with_wide(c, "quant", 1200, 60, "quant")
def c03(c): with_wide(c, "reorder", 1400, 70, "order")
def c04(c): with_wide(c, "approx", 1000, 60, "approx")
def c05(c): with_wide(c, "query", 1200, 60, "count", 480, 30)
def c06(c): rounds(c, ["add"], 1400, 60, module="AddTrace")
def c07(c): rounds(c, ["zdd", "cover"], 800, 60, module="ZddTrace")
def c08(c):
    for mode, n, ev in (("io", 900, 12), ("cnf", 900, 12), ("const", 3, 1)):
        if not c.violations: rounds(c, [mode], n, ev, module="DddmpTrace", driver="drv_cudd_io")
    if not c.violations: rounds(c, ["io"], 80, 16, module="WideTrace", driver="drv_cudd_wide")
