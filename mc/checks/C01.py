from checks import _arith


def run(prefix, tier, res):
    res.bounds = BOUNDS
    _arith.run("C01", prefix, tier, res)


BOUNDS = ("all pairs of 300-900 structured values per type (zeros, subnormals, binade ends, rounding-critical mantissas, infinities, NaNs), triples for fma, 16 predicates, casts; the ieee backend under its option subsets and every other backend in ieee mode")
