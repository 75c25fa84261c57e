#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks in checks/run.py."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(here, "checks", "run.py")).read()
where = eval(re.search(r"WHERE = (\{.*?\})\n\n", src, re.S).group(1))
spec = {
    "progression": "TLA+ specification of HTN progression (HTN.tla) checked with TLC: every verdict, optimum and plan the real engine prints is decided by exhaustive exploration (HtnSearch) or trace validation (PlanTrace)",
}
over = json.load(open(os.path.join(here, "tools", "techniques.json"))) if os.path.exists(os.path.join(here, "tools", "techniques.json")) else {}
claimed = [p for ps in where.values() for p in ps]
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
note = ("TLC exhausts the specification on each generated instance (finite: acyclic instances completely, recursive ones up to a bound on the network size) "
        "and decides every recorded behaviour of the real code against it; the instances themselves are sampled, seeded.")
checks = []
for p in props:
    if p["id"] in claimed:
        o = over.get(p["id"], {})
        checks.append(dict(property=p["id"], quick_cmd="python3 checks/run.py %s" % p["id"], thorough_cmd="python3 checks/run.py %s --tier thorough" % p["id"],
                           technique=o.get("technique", spec["progression"]), level="model_checking", level_note=o.get("note", note)))
na = [dict(property=p["id"], reason=over.get(p["id"], {}).get("na", "specification and conformance driver not finished")) for p in props if p["id"] not in claimed]
json.dump(dict(version=1, setup_cmd="python3 -m py_compile lib/*.py checks/*.py && java -version", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
