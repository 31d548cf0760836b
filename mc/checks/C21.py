from checks import _sched

BOUNDS = "2-4 threads, 1-3 operations of every kind, at most 2-3 preemptions (thorough: 4)"


def run(prefix, tier, res):
    res.bounds = BOUNDS
    _sched.run("C21", prefix, tier, res)
