from checks import _arith


def run(prefix, tier, res):
    res.bounds = BOUNDS
    _arith.run("C03", prefix, tier, res)


BOUNDS = ("operand tuples of the alphabet x 3 MCA modes x precisions x absolute/relative/all errors x daz/ftz/sparsity, choice tree over all draws of the integer draw alphabet; plus the tree's own generator over 64 seeds x 600 draws (thorough 512 seeds)")
