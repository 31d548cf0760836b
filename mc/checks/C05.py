from checks import _arith


def run(prefix, tier, res):
    res.bounds = BOUNDS
    _arith.run("C05", prefix, tier, res)


BOUNDS = ("all pairs of a cancellation-rich alphabet (exponent differences 0-60, total cancellations, near infinities and subnormals) x tolerance classes, choice tree over draws; plus the tree's own generator over 64 seeds x 600 draws (thorough 512 seeds)")
