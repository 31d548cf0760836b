from checks import _arith


def run(prefix, tier, res):
    res.bounds = BOUNDS
    _arith.run("C06", prefix, tier, res)


BOUNDS = ("every (precision, range) pair of both types x operands at every rounding border (half-ulp +- one bit, binade ends, overflow and underflow borders); thorough: all 2^32 floats for 12 formats")
