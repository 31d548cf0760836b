from checks import _sched

BOUNDS = "2-3 threads, 1-3 operations, at most 2 preemptions (thorough: 3, and 4 threads), 25 seeds"


def run(prefix, tier, res):
    res.bounds = BOUNDS
    _sched.run("C08", prefix, tier, res)
