"""What every check shares: tiers, seeds, counting, evidence, violations and known findings."""
import os, sys, json, time, tempfile, shutil, hashlib, traceback
import tlc as _tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CheckError(Exception):
    """The machinery could not give an answer."""


class Check:
    def __init__(s, prop, tier, seed, level="model_checking"):
        s.prop, s.tier, s.seed, s.level = prop, tier, seed, level
        s.t0 = time.time()
        s.states = s.transitions = s.traces = s.evals = 0
        s.samples, s.extra, s.assumptions = [], {}, []
        s.violations = []
        s.known = []
        s.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        s.findings = load_findings(prop)

    @property
    def thorough(s): return s.tier == "thorough"

    def budget(s, quick, thorough): return thorough if s.thorough else quick

    def elapsed(s): return time.time() - s.t0

    def sub(s, name):
        d = os.path.join(s.dir, name); os.makedirs(d, exist_ok=True); return d

    def sample(s, x):
        if len(s.samples) < 4: s.samples.append(x)

    def count(s, k, n=1): s.extra[k] = s.extra.get(k, 0) + n

    # --- TLC ------------------------------------------------------------------
    def tlc(s, module, env=None, what="", **kw):
        """Runs TLC; returns the Result when it finished, with or without a violated invariant."""
        r = _tlc.tlc(module, env, scratch=s.dir, **kw)
        s.states += r.distinct; s.transitions += r.generated
        s.count("tlc_runs")
        if not r.ok and not r.violated:
            sys.stderr.write(r.out[-6000:])
            raise CheckError("TLC gave no answer on %s (%s)" % (module, r.rc))
        return r

    # --- violations -------------------------------------------------------------
    def key(s, payload):
        return hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:12]

    def violation(s, msg, payload=None, key=None):
        key = key or s.key(payload)
        for f in s.findings:
            if f["key"] == key:
                if f not in s.known: s.known.append(f)
                return
        d = os.path.join(VERIF, "build", "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (s.prop, len(s.violations) + 1))
        json.dump(dict(property=s.prop, what=msg, key=key, seed=s.seed, tier=s.tier, case=payload), open(path, "w"), indent=1, default=str)
        s.violations.append((msg, path))
        print("  -- %s [key %s]" % (msg, key))

    def finish(s, samples=None):
        cov = dict(states=s.states, transitions=s.transitions, traces_validated_against_impl=s.traces,
                   samples=(s.samples or ["none"]))
        if s.evals: cov["evaluations"] = s.evals
        cov.update(s.extra)
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=s.level, coverage=cov, assumptions=s.assumptions,
                  wall_s=round(time.time() - s.t0, 2), violations=len(s.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", s.prop + ".json"), "w"), indent=1, default=str)
        for f in s.findings:
            print("KNOWN-FINDING: property=%s %s" % (s.prop, f["what"]))
        for msg, path in s.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (s.prop, path))
        print("%s %s seed %d: %d states, %d transitions, %d traces, %d violations, %.1f s %s" %
              (s.prop, s.tier, s.seed, s.states, s.transitions, s.traces, len(s.violations), time.time() - s.t0, json.dumps(s.extra, default=str)))
        return 1 if s.violations else 0


def load_findings(prop):
    """Lines 'finding: property=<id> key=<key> <what fails>' of known-findings.txt."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                w = line.split(None, 3)
                out.append(dict(key=w[2].split("=", 1)[1], what=w[3].strip()))
    return out


def main(run, prop):
    """run(check) does the work."""
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        run(c)
        rc = c.finish()
    except CheckError as e:
        # a violation already found stands, whatever failed afterwards
        if c.violations: rc = c.finish()
        else:
            print("ERROR property=%s %s" % (prop, e)); rc = 2
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(rc)
