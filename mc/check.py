#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no answer."""
import hashlib, importlib, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import common
import build

KNOWN = os.path.join(common.VERIF, "known_findings.txt")


def known_findings(pid):
    """lines 'finding: property=<id> key=<text in the violation> ## what'"""
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                if l.startswith("finding: property=%s " % pid):
                    k, _, what = l.split("key=", 1)[1].rstrip("\n").partition(" ## ")
                    out.append((k, what))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = importlib.import_module("checks." + pid)
    res = common.Result()
    res.known = known_findings(pid)
    try:
        prefix = build.ensure()
        mod.run(prefix, tier, res)
    except common.HarnessError as e:
        print("ERROR property=%s: %s" % (pid, e))
        return 2
    except build.BuildError as e:
        print("ERROR property=%s: the tree does not build: %s" % (pid, e))
        return 2
    fresh, seen = res.viols, res.seen
    for w in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": res.states, "transitions": res.transitions,
            "traces_validated_against_impl": res.traces,
            "distinct_nontrivial": res.nontrivial,
            "exhaustive": bool(res.exhaustive),
            "bounds": res.bounds or mod.__doc__ or "",
            "counters": res.counters,
            "samples": res.samples or ["(none)"],
        },
        "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(common.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: states=%d transitions=%d nontrivial=%d counters=%s wall=%.1fs"
          % (pid, res.states, res.transitions, res.nontrivial, json.dumps(res.counters), ev["wall_s"]))
    if fresh:
        d = os.path.join(common.VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.txt" % (pid, hashlib.sha256(fresh[0].encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("property %s, tier %s\nreplay: cd /verif && VERIF_TIER=%s python3 mc/check.py %s\n\n"
                    % (pid, tier, tier, pid))
            for v in fresh:
                f.write(v + "\n\n")
        for v in fresh[:5]:
            print("  " + v.replace("\n", "\n    ")[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if res.states == 0:
        print("ERROR property=%s: nothing was explored" % pid)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
