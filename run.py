#!/usr/bin/env python3
"""run.py PROPERTY [--thorough]: decide one property from /repo's current source (see DESIGN.md)"""
import collections
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
TRUSTED = [
    "rustc nightly front end, type checker, borrow checker and MIR construction",
    "driver/driver.rs (MIR export)",
    "engine/interp.py + engine/models.py (transfer functions of MIR and of library calls)",
    "engine/oracle.py (reference semantics)",
]


def main():
    prop = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    t0 = time.time()
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    mir = os.environ.get("VERIF_MIR")
    own = None
    if not mir:
        own = mir = os.path.join(HERE, ".build", "mir-%d.json" % os.getpid())
        r = subprocess.run([os.path.join(HERE, "driver", "dump.sh"), mir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            print("ERROR: cannot extract the MIR of /repo")
            sys.exit(2)
    import framework as F
    from interp import Program
    from props import PROPS, MODULES

    P = Program(mir)
    if own:
        os.unlink(own)
    groups, rules = PROPS[prop]
    jobs = []
    for m in MODULES:
        mod = importlib.import_module(m)
        for j in mod.all_jobs(F.TIER):
            if any(j.group == g or j.group.startswith(g + "/") for g in groups):
                jobs.append(j)
    only = os.environ.get("VERIF_ONLY")
    if only:
        jobs = [j for j in jobs if only in j.name]
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e.get("status") == "known" and prop in e["properties"]:
                known[e["key"]] = e

    def counts(v):
        return any(v["rule"].startswith(x) for x in rules)

    def found(r):
        return any(counts(v) and not (v["key"] and v["key"] in known) for v in r.violations)

    # what is not examined in time is counted as undecided; the first violation ends the run
    limit = int(os.environ.get("VERIF_LIMIT", "3000" if F.TIER == "thorough" else "600"))
    results = F.run_jobs(P, jobs, limit=limit, stop=found)
    viol = []
    for r in results:
        for v in r.violations:
            if counts(v):
                v["group"] = r.group
                v["scenario"] = r.name
                viol.append(v)
    seen = collections.OrderedDict()
    hits = {}
    for v in viol:
        if v["key"] and v["key"] in known:
            hits[v["key"]] = hits.get(v["key"], 0) + 1
            continue
        seen.setdefault((v["rule"], v["where"]), []).append(v)
    for k in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    reasons = collections.Counter()
    per_group = collections.OrderedDict()
    for r in results:
        for k, n in r.reasons.items():
            reasons[k] += n
        g = per_group.setdefault(r.group, dict(scenarios=0, traces=0, obligations=0, undecided=0, infeasible=0))
        g["scenarios"] += 1
        g["traces"] += r.traces
        g["obligations"] += r.obligations
        g["undecided"] += r.undecided
        g["infeasible"] += r.infeasible
    touched = sorted(set().union(*[r.touched for r in results])) if results else []
    samples = []
    for r in results:
        for s in r.samples[:1]:
            if len(samples) < 25 and s not in samples:
                samples.append(s)
    nv = sum(len(x) for x in seen.values())
    errors = [r.name + ": " + r.error.strip().splitlines()[-1] for r in results if r.error]
    cov = dict(
        explanation="Abstract interpretation of the compiler's MIR of the current source (trace-partitioned, "
        "nothing of it is executed) and structural rules over the type-checked program. Each obligation is one "
        "abstract trace or construct judged against the rule; undecided ones are counted, never reported.",
        rules=rules,
        groups=per_group,
        abstract_traces=sum(r.traces for r in results),
        obligations_decided=sum(r.obligations for r in results),
        undecided=sum(r.undecided for r in results),
        undecided_reasons=dict(reasons.most_common(12)),
        truncated_scenarios=[r.name for r in results if r.truncated],
        engine_errors=errors[:10],
        functions_analysed=touched,
        samples=samples,
        known_findings=hits,
        trusted_base=TRUSTED,
    )
    ev = dict(
        property=prop,
        tier=F.TIER,
        seed=F.SEED,
        level="other",
        coverage=cov,
        assumptions=[
            "operands of constructors satisfy the structural invariants that the constructors establish",
            "allocation does not fail and ids / offsets stay below 2^32",
        ],
        wall_s=round(time.time() - t0, 1),
        violations=nv,
    )
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s: %d scenarios, %d abstract traces, %d obligations decided, %d undecided, %.0f s"
        % (prop, len(results), cov["abstract_traces"], cov["obligations_decided"], cov["undecided"], time.time() - t0)
    )
    for e in errors[:3]:
        print("note: " + e)
    if seen:
        path = os.path.join(HERE, "evidence", prop + ".violation.json")
        with open(path, "w") as f:
            json.dump([dict(rule=k[0], where=k[1], cases=v) for k, v in seen.items()], f, indent=1)
        for (rule, where), vs in seen.items():
            print("  rule %s violated by %s (%d cases); e.g. %s" % (rule, where, len(vs), vs[0]["what"]))
            print("      " + vs[0]["detail"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0)


main()
