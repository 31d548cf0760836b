"""C25: the trace of the ieee backend shows every operation exactly, and the program's own output is left alone."""
import itertools, os
import common
from checks import _wrap

OPTS = ["--debug", "--debug-binary", "--print-new-line", "--print-subnormal-normalized", "--no-backend-name", "--count-op"]
OTHERS = ["libinterflop_mca.so --mode ieee", "libinterflop_mca_int.so --mode ieee", "libinterflop_bitmask.so --mode ieee",
          "libinterflop_vprec.so --mode ieee", "libinterflop_cancellation.so --tolerance 2000"]

FLAGS = ["", "#", "0", "-", "+", " "]
WIDTHS = ["", "12", ".5"]
INTS = ["b", "B", "d", "i", "o", "u", "x", "X"]
LENS = [("", "5u"), ("l", "5ul"), ("ll", "0xF0F0F0F0F0ull"), ("hh", "(unsigned)0xA5"), ("h", "(unsigned)0x1234"), ("z", "(size_t)77")]
FLTS = ["e", "E", "f", "F", "g", "G", "a", "A"]


def program():
    """every integer and floating conversion x flags x widths x lengths, through printf, snprintf and wide printf"""
    L = ["#include <stdio.h>", "#include <wchar.h>", "#include <stdlib.h>", "#include <string.h>",
         "int main(int c, char **v) {", " volatile double x = c; char s[400]; wchar_t w[400];",
         " x = x * 3.25 - 0.5; float y = (float)x; y = y / 3;"]
    n = 0
    for k in INTS:
        for ln, val in LENS:
            for f in FLAGS:
                for wd in WIDTHS:
                    fmt = "%" + f + wd + ln + k
                    L.append(' printf("%d [%s]\\n", %s);' % (n, fmt, val)); n += 1
            L.append(' snprintf(s, 400, "%%%s%s", %s); puts(s);' % (ln, k, val)); n += 1
            L.append(' swprintf(w, 400, L"%%%s%s", %s); wcstombs(s, w, 400); puts(s);' % (ln, k, val)); n += 1
    for k in FLTS:
        for f in FLAGS:
            for wd in WIDTHS:
                L.append(' printf("%d [%s] [%s]\\n", x, (double)y);' % (n, "%" + f + wd + k, "%" + f + wd + k)); n += 1
    L += [' printf("%s|%c|%5s|%-7s|%p|%%|%m\\n", "ab", \'q\', "z", "t", (void *)0);',
          ' return 0; }']
    return "\n".join(L) + "\n", n


def own_output(prefix, tier, res):
    src, n = program()
    with common.Scratch() as d:
        open(os.path.join(d, "p.c"), "w").write(src)
        rc, o, e = common.sh([_wrap.CLANG, "-w", "p.c", "-o", "native"], cwd=d)
        if rc:
            raise common.HarnessError("native: " + e)
        rc, want, e = common.sh([os.path.join(d, "native")])
        if rc:
            raise common.HarnessError("native run: %s" % rc)
        if not _wrap.compile_or_violation(prefix, ["-w", "p.c", "-o", "p"], d, res, "printf conversions"):
            return
        lists = []
        for m in range(64):
            lists.append(" ".join(["libinterflop_ieee.so"] + [OPTS[k] for k in range(6) if m >> k & 1]))
        lists += OTHERS
        lists += [a + ";" + b for a in ["libinterflop_ieee.so", "libinterflop_ieee.so --debug-binary"] for b in OTHERS]
        env = {"LD_LIBRARY_PATH": prefix + "/lib"}

        def one(i):
            return _wrap.run_prog(os.path.join(d, "p"), lists[i], os.path.join(d, "log%d" % i), env=env)
        for i, (rc, o, e, ev) in enumerate(common.pmap(one, range(len(lists)))):
            res.states += 1
            res.transitions += n
            res.traces += 1
            res.nontrivial += 1
            if rc != 0:
                res.violation("VFC_BACKENDS='%s': the program ends with %s\n%s" % (lists[i], rc, e[-800:]))
            elif o != want:
                for a, b in zip(want.splitlines(), o.splitlines()):
                    if a != b:
                        break
                res.violation("VFC_BACKENDS='%s' changes what the program itself prints: '%s' becomes '%s'" % (lists[i], a, b))
        res.count("conversions x backend lists", n * len(lists))


def run(prefix, tier, res):
    res.bounds = ("all operations x all exponents x structured mantissas (single bits, prefixes, suffixes) x 8 partners x all 64 option "
                  "subsets, every predicate; every printf conversion x flags x widths x lengths of the program itself under 79 backend lists")
    b = common.compile_cxx("trace.cpp", ("-std=c++17", "-O2", "-ffp-contract=off", "-rdynamic"), ("-ldl",),
                           deps=("backend.hpp", "watchdog.hpp"))
    common.run_sharded(lambda i: [b, prefix, str(i), "8", tier], res)
    own_output(prefix, tier, res)
