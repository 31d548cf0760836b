import os
import common


def binary():
    return common.compile_cxx("tables.cpp", ("-std=c++17", "-O2"), ("-ldl",), deps=("watchdog.hpp",))


def run(sub, prefix, tier, res):
    b = binary()
    with common.Scratch() as d:
        for i in range(8):
            os.mkdir(os.path.join(d, str(i)))
        common.run_sharded(lambda i: [b, sub, prefix, str(i), "8", tier, os.path.join(d, str(i))], res, timeout=3000)
