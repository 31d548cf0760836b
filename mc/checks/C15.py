"""Delta-debug recording: every history of tests and every interruption point of a set of searches, on the real code."""
import os, sys
import common
from common import sh

NAMES = ["1: f at a.c:1\n", "12: f at a.c:12\n", "2: g at a.c:3\n"]


def real(prefix, res, d):
    """the command itself, with real scripts: binds the stand-ins of the worker to the real thing"""
    n = 0
    for algo in ({"DD_RDDMIN": "d"}, {"DD_RDDMIN": "s", "DD_NUM_THREADS": "2"}, {"DD_ALGO": "ddmax"}):
        for sets in ([[0]], [[0, 2]], [[1], [0, 2]], [[0, 1, 2]]):
            w = "%s/real%d" % (d, n)
            n += 1
            os.mkdir(w)
            with open(w + "/list", "w") as f:
                f.writelines(NAMES)
            with open(w + "/run", "w") as f:
                f.write("#!/bin/sh\nif [ -n \"$VFC_DDEBUG_GEN\" ]; then cp '%s/list' \"$1/dd.line.1\"; : > \"$1/res\"; else cp \"$VFC_DDEBUG_INCLUDE\" \"$1/res\"; fi\n" % w)
            with open(w + "/cmp", "w") as f:
                f.write("#!/bin/sh\n[ -e \"$1/res\" ] && [ -e \"$2/res\" ] || exit 7\n")
                for s in sets:
                    f.write(" && ".join("grep -qx '%s' \"$2/res\"" % NAMES[i].strip() for i in s) + " && exit 1\n")
                f.write("exit 0\n")
            for t in ("run", "cmp"):
                os.chmod(w + "/" + t, 0o755)
            env = {"PYTHONPATH": prefix + "/py", "INTERFLOP_DD_NRUNS": "2"}
            env.update({"INTERFLOP_" + k: v for k, v in algo.items()})
            rc, o, e = sh([sys.executable, "-m", "verificarlo.ddebug.main", w + "/run", w + "/cmp"], cwd=w, env=env)
            res.states += 1
            res.traces += 1
            what = "vfc_ddebug %s, failing sets %s" % (algo, sets)
            if rc:
                res.violation("%s: status %s %s" % (what, rc, (o + e)[-600:]))
                continue
            got = {}
            p = w + "/dd.line"
            for l in os.listdir(p):
                if os.path.islink(p + "/" + l):
                    with open(p + "/" + l + "/dd.line.include") as f:
                        got[l] = sorted(NAMES.index(x) for x in f.readlines())
            if "DD_ALGO" in algo:
                ok = "ddmax" in got and not any(set(s) <= set(got["ddmax"]) for s in sets) and all(
                    any(set(s) <= set(got["ddmax"] + [i]) for s in sets) for i in range(3) if i not in got["ddmax"])
            else:
                ok = sorted(v for k, v in got.items() if k.startswith("ddmin")) == sorted(sets)
            if not ok:
                res.violation("%s: the result links are %s" % (what, got))


def run(prefix, tier, res):
    w = os.path.join(common.HERE, "dd_record.py")
    common.run_sharded(lambda i: [sys.executable, w, prefix, str(i), str(common.NPROC), tier], res, what="delta-debug recording: ")
    with common.Scratch() as d:
        real(prefix, res, d)
    res.bounds = ("all sequences of up to %d tests over 2 sets and 1-3 runs with every outcome of each run, sequential and parallel; all subsets of 4 deltas with coinciding concatenations; "
                  "every file-system step of %s searches over 2-3 deltas interrupted and restarted, three of them twice; 12 searches by the real command with real scripts" % (3 if tier == "quick" else 4, "80" if tier == "quick" else "over 300"))
    res.sample({"history": "test({0},1) PASS; test({0,2},2) FAIL at run 2; test({0},3)", "checked": "runs 2-3 of {0} are done, run 1 is not repeated"})
