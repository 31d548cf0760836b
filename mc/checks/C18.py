from checks import _tables


def run(prefix, tier, res):
    res.bounds = "all probe sequences over names whose hashes collide, value classes and modes up to the enumerated depth; growth to thousands of names; CSV parsed back"
    _tables.run("C18", prefix, tier, res)
