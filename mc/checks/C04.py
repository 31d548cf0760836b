from checks import _arith


def run(prefix, tier, res):
    res.bounds = BOUNDS
    _arith.run("C04", prefix, tier, res)


BOUNDS = ("operand tuples incl. subnormals x 4 modes x 3 operators x all precisions, choice tree over mask draws; plus the tree's own generator over 64 seeds x 600 draws (thorough 512 seeds)")
