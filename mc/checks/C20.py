from checks import _tables


def run(prefix, tier, res):
    res.bounds = "all insert/remove sequences to depth 6 over colliding keys from every small fill level, every key looked up after each step"
    _tables.run("C20", prefix, tier, res)
