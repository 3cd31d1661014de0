#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's current tree.  check.py --replay <file> re-runs a violation."""
import json, os, shutil, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import tlc  # noqa: E402


def modules():
    import contract
    table = {p: contract for p in contract.plans.PLANS}
    for name in ("macrochk", "readers", "drops", "effort", "lens"):
        if os.path.exists(os.path.join(HERE, "lib", name + ".py")):
            m = __import__(name)
            table[m.PROPERTY] = m
    return table


def known(pid):
    """known findings: lines `known: property=<id> <key> :: <what fails>`"""
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: property=%s " % pid):
                out.append(l.split(" ", 2)[2].strip())
    return out


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(HERE, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    t0 = time.time()
    rc = 2
    try:
        mod = modules()[pid]
        bad, cov = mod.check(pid, tier, seed, work)
        for k in known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(bad),
                  assumptions=getattr(mod, "ASSUMPTIONS", ["TLC, the JVM, rustc and the standard library behave as documented", "the harness reports faithfully what the public API returned"]))
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if bad:
            b, line, trace, i = min(bad, key=lambda x: (len(x[1]), x[1]))
            path = os.path.join(HERE, "replay", "%s.json" % pid)
            with open(path, "w") as f:
                json.dump(dict(property=pid, binary=b, scenario=line, rejected_event=trace["ev"][i] if i < len(trace["ev"]) else "incomplete", events_before=trace["ev"][:i][-20:],
                               how="python3 /verif/check.py --replay " + path, others=len(bad) - 1), f, indent=1)
            print("scenario: %s %s" % (b, line[:600]))
            print("not a behaviour of the specification: %s" % json.dumps(trace["ev"][i] if i < len(trace["ev"]) else "incomplete")[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        else:
            print("%s held: %d model states, %d scenarios validated (%.0f s)" % (pid, cov.get("states", 0), cov.get("traces_validated_against_impl", 0), time.time() - t0))
            rc = 0
    except tlc.ToolError as x:
        print("TOOL-ERROR %s: %s" % (pid, x), file=sys.stderr)
    finally:
        if not os.environ.get("KEEP_WORK"):
            shutil.rmtree(work, ignore_errors=True)
    return rc


def replay(path):
    r = json.load(open(path))
    table = modules()
    m = table[r["property"]]
    if hasattr(m, "replay"):
        return m.replay(r)
    import harness
    harness.build([r["binary"]])
    work = os.path.join(HERE, "work", "replay")
    os.makedirs(work, exist_ok=True)
    evs, op = harness.rerun_traced(r["binary"], "0", r["scenario"], work, 100)
    for e in evs:
        print(e)
    if op:
        print("died in", op)
    return 0


if __name__ == "__main__":
    sys.exit(main())
