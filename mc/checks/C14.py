"""Delta debugging: the real search classes driven by every oracle within the bound."""
import os, sys
import common


def run(prefix, tier, res):
    w = os.path.join(common.HERE, "dd_search.py")
    common.run_sharded(lambda i: [sys.executable, w, prefix, str(i), str(common.NPROC), tier], res, what="delta debugging: ")
    res.bounds = ("all oracles over up to 4 deltas, all monotone ones over 5, monotone ones with few minimal failing sets over up to %d; run-dependent outcomes over 3 deltas "
                  "(3-5 runs, every run table and granularity); ddmax, strict, stochastic and dichotomic rddmin" % (9 if tier == "quick" else 11))
    res.sample({"deltas": 4, "minimal failing sets": "{0,2},{1}", "checked": "returned sets fail, are 1-minimal, disjoint, and what is left passes"})
