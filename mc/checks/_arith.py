import os
import common

FLAGS = ("-std=c++17", "-O2", "-ffp-contract=off", "-rdynamic")


def binary():
    return common.compile_cxx("arith.cpp", FLAGS, ("-ldl", "-lquadmath"), deps=("backend.hpp", "watchdog.hpp"))


def real(sub, prefix, tier, res):
    """the same laws with the tree's own generator behind the seam, over a range of seeds"""
    b = common.compile_cxx("arith.cpp", FLAGS + ("-DREALRNG",), ("-ldl", "-lquadmath"), deps=("backend.hpp", "watchdog.hpp"))
    common.run_sharded(lambda i: [b, sub, prefix, str(i), "8", tier], res, nshards=8, timeout=800)


def run(sub, prefix, tier, res):
    if sub in ("C02", "C03", "C04", "C05"):
        real(sub, prefix, tier, res)
    b = binary()
    n = 8 if tier == "quick" else 64
    common.run_sharded(lambda i: [b, sub, prefix, str(i), str(n), tier], res, nshards=n) if n == 8 else \
        _many(b, sub, prefix, tier, res, n)


def _many(b, sub, prefix, tier, res, n):
    for base in range(0, n, 8):
        common.run_sharded(lambda i: [b, sub, prefix, str(base + i), str(n), tier], res, nshards=8, timeout=7200)
