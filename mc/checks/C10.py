"""C10: all sequences of user calls, on the wrapper (recording backends) and on vprec and mca."""
import itertools, os, struct
import common
from checks._wrap import *

USERS_FLAGS = ("-std=c++17", "-O2", "-fext-numeric-literals", "-ffp-contract=off", "-rdynamic")


def binary():
    return common.compile_cxx("users.cpp", USERS_FLAGS, ("-ldl", "-lquadmath"), deps=("backend.hpp", "watchdog.hpp"))


def dbits(v):
    return "%x" % struct.unpack("<Q", struct.pack("<d", v))[0]


def fbits(v):
    return "%x" % struct.unpack("<I", struct.pack("<f", v))[0]


def want_user(a):
    v = int(a[1:])
    d = 2.5 + v
    return {
        "o": ["sub_double", dbits(3.5), dbits(0.125)], "p": ["user", "2", str(v)], "P": ["user", "3", str(v)],
        "r": ["user", "4", str(v)], "R": ["user", "5", str(v)],
        "i": ["user", "1", "0", fbits(1.5 + v), str(v)], "I": ["user", "1", "1", dbits(2.5 + v), str(v)],
        "c": ["user", "-1"] + {0: ["0", "zero", "7"], 1: ["1", dbits(d), "one", "-7"],
                               3: ["3", dbits(d), dbits(d + 1), dbits(d + 2), "three", str(1 << 40)],
                               9: ["10", dbits(d)] + [dbits(float(k)) for k in range(1, 10)] + ["ten", "-1"]}.get(v, [])}[a[0]]


def run(prefix, tier, res):
    with common.Scratch() as d:
        st = stub(prefix, d)
        common.shutil.copyfile(os.path.join(common.HERE, "prog", "usercalls.c"), d + "/usercalls.c")
        alpha = ["o0", "p7", "P-3", "r5", "R11", "i2", "I-4", "c0", "c1", "c3", "c9"]
        for opts in (["-O0"], ["-O2"], ["-O2", "--inst-func", "--inst-fcmp", "--inst-fma", "--inst-cast", "--ddebug"]):
            exe = d + "/u" + str(len(opts)) + opts[0]
            if not compile_or_violation(prefix, opts + ["usercalls.c", "-o", exe], d, res, "a program making user calls"):
                return
            jobs = []
            for n in (1, 2, 3):
                for mask in itertools.product((0, 0x8000), repeat=n):
                    for k in (1, 2):
                        for seq in itertools.product(alpha, repeat=k):
                            if k == 2 and (n == 3 or opts != ["-O2"]) and tier == "quick" and seq[0] not in ("c9", "P-3", "o0"):
                                continue
                            jobs.append((n, mask, seq))
            def one(j):
                i, (n, mask, seq) = j
                bl = ";".join("%s M=%x" % (st["ABC"[q]], mask[q]) for q in range(n))
                rc, o, er, ev = run_prog(exe, bl, d + "/log%d" % i, seq)
                try:
                    os.unlink(d + "/log%d" % i)
                except OSError:
                    pass
                want = []
                for a in seq:
                    w = want_user(a)
                    for q in range(n):
                        if w[0] == "user" and mask[q]:
                            continue
                        want.append(["ABC"[q] + ".0"] + w)
                got = [e for e in ev if e[1] in ("user", "sub_double")]
                if rc != 0 or got != want:
                    return "user calls %s with backends %s (compiled %s): status %s, events %s, expected %s\n%s" % (
                        " ".join(seq), bl.replace(d, "."), " ".join(opts), rc, got, want, er[-400:]), len(ev)
                return None, len(ev)
            for m, n in common.pmap(one, list(enumerate(jobs)), 12):
                res.states += 1
                res.traces += 1
                res.nontrivial += 1
                res.transitions += n
                if m:
                    res.violation(m)
        b = binary()
        common.run_sharded(lambda i: [b, prefix, str(i), "8", tier], res, timeout=3000)
    res.bounds = ("wrapper: all call sequences of length 1-2 over 11 calls x 1-3 backends x every subset without a "
                  "user-call handler; vprec/mca: all sequences up to length %d over 12-15 calls for 5-6 option sets, the "
                  "whole operation grid compared after each call" % (3 if tier == "quick" else 4))
