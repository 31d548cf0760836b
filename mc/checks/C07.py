from checks import _arith


def run(prefix, tier, res):
    res.bounds = BOUNDS
    _arith.run("C07", prefix, tier, res)


BOUNDS = ("operations x operand pairs/triples x 4 modes x presets x daz/ftz x error modes x precisions and ranges of both types")
