"""C23: the compiler driver against plain clang on every command line of the grids, and with every external step failing."""
import itertools, os, re, shutil, stat, tempfile
import common
from common import sh
from checks._wrap import *

CLANGXX = CLANG + "++"
# file names and strings with everything a shell could take for its own
ODD = ["plain", "a b", "it's", 'd"q', "par(en)", "$HOME", "`id`", "se;mi", "am&p", "pi|pe", "st*r", "q?", "[x]", "{a,b}", "#h", "~t", "!x", "ba\\ck", "l<g>", "a=b", "per%cent", "tab\tx", "\u00fc", "  two", "$(id)", "a'b'c", "--dd", "a.b", ","]
CHARS = [" ", "'", '"', "$", "`", ";", "&", "|", "*", "?", "(", ")", "<", ">", "[", "]", "{", "}", "#", "~", "!", "\\", "=", "%", "\t", "a", "$a", "\\\\"]

MAIN = r'''#include <stdio.h>
#ifdef HDR
#include HDR
#else
#define HV 0
#endif
#ifdef S
#define STR S
#else
#define STR ""
#endif
#ifndef A
#define A 0
#endif
#ifdef __cplusplus
extern "C" {
#endif
double fb(double); double fc(double); double fe(double); int fs(int); double fx(double); double fy(double);
#ifdef __cplusplus
}
#endif
int main(int argc, char **argv) {
  volatile double x = 1.5 + argc, y = 0.1;
  double r = x * y + x / y;
#ifdef UB
  r += fb(r);
#endif
#ifdef UC
  r += fc(r);
#endif
#ifdef UE
  r += fe(r);
#endif
#ifdef US
  r += fs(3);
#endif
#ifdef UX
  r += fx(r);
#endif
  printf("%a %d [%s] %d %d\n", r, (int)A, STR, (int)HV, x < y);
  return 0;
}
'''
FILES = {
    "main.c": MAIN,
    "b.c": "double fb(double x) { return x * 3.0 + 0.3; }\n",
    "sub/c.c": "double fc(double x) { return x / 3.0; }\n",
    "e.cpp": 'extern "C" double fe(double x) { return x - 0.7; }\n',
    "s.s": ".text\n.globl fs\nfs:\n leal 4(%rdi), %eax\n ret\n.section .note.GNU-stack,\"\",@progbits\n",
    "sp.S": "#include \"h.h\"\n#ifndef INC\n#define INC HV\n#endif\n.ifndef SYM\n.set SYM, 0\n.endif\n.text\n.globl fs\nfs:\n leal (INC+SYM)(%rdi), %eax\n ret\n.section .note.GNU-stack,\"\",@progbits\n",
    "i1/h.h": "#define HV 1\n", "i2/h.h": "#define HV 2\n", "i 3/h.h": "#define HV 3\n",
    "pre.c": "#define A 77\n", "inc.c/k.h": "#define HV 55\n", "cfg.h": "#define A 66\n",
    "warn.c": "#warning look\nint w(void) { int unused_one; return 0; }\n" + MAIN,
    "warn2.c": "#warning second\ndouble fb(double x) { return x + 1; }\n",
    "syntax.c": "int f( { return 0; }\n" + MAIN,
    "nohdr.c": '#include "nowhere.h"\n' + MAIN,
    "undef.c": "int g(void);\nint main(void) { return g(); }\n",
    "names.txt": "nothing nothing\n", "functions.txt": "main main\n",
    "app.C": "class K { public: int v; };\n" + MAIN, "app.cc": "class K {};\n" + MAIN, "app.cxx": "class K {};\n" + MAIN, "app.cpp": "class K {};\n" + MAIN, "app.c++": "class K {};\n" + MAIN,
    "x y/z.c": MAIN,
}
LIBX = {"x1.c": "double fy(double); double fx(double x) { return fy(x) + 1; }\n", "y1.c": "double fz(double); double fy(double x) { return fz(x) * 2; }\n",
        "z1.c": "double fz(double x) { return x - 5; }\n", "all.c": "double fx(double x) { return x * 7; }\n"}


def listing(d):
    out = set()
    for r, ds, fs in os.walk(d):
        for f in fs:
            out.add(os.path.relpath(os.path.join(r, f), d))
    return out


def run(prefix, tier, res):
    deep = tier == "thorough"
    base = tempfile.mkdtemp(prefix="vfcmc.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        explore(prefix, deep, res, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.bounds = "%d odd file and directory names x 9 uses, %d shell-special characters alone and in pairs, all orders of 3 flags, all ordered selections of up to 4 link inputs, all pairs of instrumentation options x 4 modes, dependency flags, error cases, every external step of 9 commands failing in 3 ways" % (len(ODD), len(CHARS))


def explore(prefix, deep, res, base):
    tpl = os.path.join(base, "tpl")
    for f, t in FILES.items():
        p = os.path.join(tpl, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            fh.write(t)
    lib = os.path.join(base, "lib")
    os.makedirs(lib)
    for f, t in LIBX.items():
        with open(os.path.join(lib, f), "w") as fh:
            fh.write(t)

    def must(cmd, cwd):
        rc, o, e = sh(cmd, cwd=cwd)
        if rc:
            raise common.HarnessError("%s: %s" % (cmd, e))
    for f in LIBX:
        must(["gcc", "-O1", "-fPIC", "-ffp-contract=off", "-c", f], lib)
    for d in ("lib", "l i'b"):
        os.makedirs(os.path.join(tpl, d))
        # circular archives: fx in cx needs fy in cy needs fz in cx
        must(["ar", "rc", os.path.join(tpl, d, "libcx.a"), "x1.o", "z1.o"], lib)
        must(["ar", "rc", os.path.join(tpl, d, "libcy.a"), "y1.o"], lib)
        must(["ar", "rc", os.path.join(tpl, d, "libx.a"), "all.o"], lib)
    must(["gcc", "-O1", "-ffp-contract=off", "-c", "b.c", "-o", "pb.o"], tpl)
    driver = os.path.join(prefix, "bin", "verificarlo")
    env = {"PATH": prefix + "/bin:" + os.environ["PATH"], "HOME": "/nonexistent"}
    renv = {"VFC_BACKENDS": "libinterflop_ieee.so", "VFC_BACKENDS_LOGGER": "False"}
    n = itertools.count()

    def tree(sub="w"):
        d = os.path.join(base, "t%d" % next(n), sub)
        shutil.copytree(tpl, d, symlinks=True)
        return d

    def drop(d, sub="w"):
        while os.path.dirname(d) != base:
            d = os.path.dirname(d)
        shutil.rmtree(d, ignore_errors=True)

    def steps(tool, cmds, d, extra=(), e=env):
        """runs the commands in d; returns the list of (rc, out, err)"""
        out = []
        for c in cmds:
            t = tool
            a = list(c)
            if a and a[0] == "++":          # the C++ driver
                a = a[1:]
                t = [CLANGXX] if tool[0] == CLANG else tool + ["--linker=clang++"]
            out.append(sh(t + list(extra) + a, cwd=d, env=e, timeout=240))
            if out[-1][0]:
                break
        return out

    def text(d, f):
        with open(os.path.join(d, f), "rb") as fh:
            return fh.read()

    def srcobj(cmds):
        """objects the driver leaves next to the sources it links"""
        o = set()
        for c in cmds:
            if not any(x in ("-c", "-S", "-E") for x in c):
                for a in c:
                    if not a.startswith("-") and re.search(r"\.(c|cc|cpp|cxx|c\+\+|s|S|C)$", a):
                        o.add(os.path.normpath(os.path.splitext(a)[0] + ".o"))
        return o

    def show(cmds):
        return " && ".join(repr(c) for c in cmds)

    def compare(cmds, exes=(), extra=(), sub="w", same=(), temps=False, loose=False, warn=False):
        """the driver does with cmds what clang does; returns (message or None, info)"""
        d1, d2 = tree(sub), tree(sub)
        try:
            before = listing(d1)
            flags = ["-ffp-contract=off"]
            r1 = steps([CLANG] + flags, cmds, d1)
            if loose and r1[-1][0]:
                return None, "clang refuses"
            r2 = steps([driver] + flags, cmds, d2, extra)
            what = "verificarlo %s%s" % (" ".join(extra) + " " if extra else "", show(cmds))
            if (r1[-1][0] == 0) != (r2[-1][0] == 0) or len(r1) != len(r2):
                return "%s: exit %s, clang %s\n%s" % (what, r2[-1][0], r1[-1][0], (r2[-1][2] or r1[-1][2])[-700:]), "rc"
            f1, f2 = listing(d1) - before, listing(d2) - before
            if r1[-1][0]:
                if any(t[0] is not None and isinstance(t[0], int) and t[0] < 0 for t in r2):
                    return "%s: dies with a signal" % what, "rc"
                left = f2 - f1 - srcobj(cmds)
                if left:
                    return "%s: fails as clang does, but leaves %s" % (what, sorted(left)), "left"
                return None, "both fail"
            if f1 - f2:
                return "%s: %s is not produced (%s)" % (what, sorted(f1 - f2), sorted(f2)), "missing"
            left = f2 - f1 - srcobj(cmds)
            if left and not temps:
                return "%s: leaves %s" % (what, sorted(left)), "left"
            for f in sorted(f1):
                if re.search(r"\.(s|i|ii|d)$", f) or f in same:
                    a, b = text(d1, f), text(d2, f)
                    if a != b:
                        return "%s: the content of %s differs\n%s\n---\n%s" % (what, f, a.decode(errors="replace")[-400:], b.decode(errors="replace")[-400:]), "content"
            for (c, o1, e1), (c2, o2, e2) in zip(r1, r2):
                if o1 != o2 and "--show-cmd" not in extra and "--verbose" not in extra:
                    return "%s: prints something else on the standard output\n%s\n---\n%s" % (what, o1[-300:], o2[-300:]), "stdout"
                if warn:
                    w1, w2 = [len(re.findall(r"warning: ", e)) for e in (e1, e2)]
                    if w1 != w2:
                        return "%s: %d warnings, clang prints %d" % (what, w2, w1), "warnings"
            for x in exes:
                q1 = sh([os.path.join(d1, x)], cwd=d1)
                q2 = sh([os.path.join(d2, x)], cwd=d2, env=renv)
                if q1[0] != q2[0] or q1[1] != q2[1]:
                    return "%s: the program prints %r (exit %s), clang's %r (exit %s) %s" % (what, q2[1], q2[0], q1[1], q1[0], q2[2][-300:]), "run"
                if "printf" in MAIN and not q2[1]:
                    return "%s: the program prints nothing" % what, "run"
                # it is instrumented: without a backend it does not start
                if not loose:
                    q3 = sh([os.path.join(d2, x)], cwd=d2)
                    if q3[0] == 0:
                        return "%s: the program runs without a backend: it is not instrumented" % what, "run"
            return None, "ok"
        finally:
            drop(d1)
            drop(d2)

    jobs = []

    def job(kind, *a, **k):
        jobs.append((kind, a, k))

    # --- names
    def put(name, content):
        p = os.path.join(tpl, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            with open(p, "w") as fh:
                fh.write(content)
    for o in ODD:
        put("odd/" + o + ".c", MAIN)
        put(o + ".c", MAIN) if not o.startswith("-") else None
        if not o.startswith(("-",)):
            s = o + ".c"
            q = "out " + o
            job("names", [[s, "-o", q]], exes=[q])
            job("names", [["-c", s], ["-c", s, "-o", q + ".o"], [o + ".o", "-o", "p"]] if deep else [["-c", s], [o + ".o", "-o", "p"]], exes=["p"])
            if deep:
                job("names", [["-c", s, "-o", q + ".o"], [q + ".o", "-o", q]], exes=[q])
            job("names", [["-S", s]])
            job("names", [["-S", s, "-o", q + ".s"]])
            job("names", [["-E", s]])
            job("names", [["-o", q + ".i", "-E", s]])
        job("names", [["odd/" + o + ".c", "-o", "p"]], exes=["p"])
        job("names", [["main.c", "-o", "p"]] if deep else [["-c", "main.c"]], exes=["p"] if deep else (), sub=o)
        put("I" + o + "/hh.h", "#define HV 9\n")
        job("names", [["-DHDR=<hh.h>", "-II" + o, "-E", "main.c"]])
    # --- strings in macros
    lit = lambda v: '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    for v in CHARS + ["", "a b", "it's", "%s %d", "$HOME/*", "".join(CHARS), "".join(reversed(CHARS))]:
        for form in (["-DS=" + lit(v)], ["-D", "S=" + lit(v)]):
            if deep or (len(form) == 1 and v not in ("a", "]", "}", ")", "%")):
                job("strings", [form + ["main.c", "-o", "p"]], exes=["p"])
            if deep or (len(form) == 2 and len(v) != 1):
                job("strings", [["-c", "main.c"] + form, ["main.o", "-o", "p"]], exes=["p"])
            job("strings", [["-E", "main.c"] + form])
    for a, b in itertools.product(CHARS, repeat=2):
        job("strings", [["-E", "main.c", "-DS=" + lit(a + b)]])
        if deep:
            job("strings", [["main.c", "-DS=" + lit(a + b), "-o", "p"]], exes=["p"])
            for c in CHARS[:12]:
                job("strings", [["-E", "main.c", "-DS=" + lit(a + b + c)]])
    # --- order and position of flags
    for fl in (["-DA=1", "-UA", "-DA=2"], ["-DHDR=<h.h>", "-Ii1", "-Ii2"], ["-O0", "-O2", "-O1"], ["-include", "cfg.h", "-UA"], ["-DA=5", "-w", "-DHDR=<h.h>", "-Ii 3"]):
        groups = [["-include", "cfg.h"], ["-UA"]] if fl[0] == "-include" else [[x] for x in fl]
        for perm in itertools.permutations(groups):
            for k in range(len(perm) + 1):
                pre, post = sum(perm[:k], []), sum(perm[k:], [])
                job("order", [pre + ["-E", "main.c"] + post])
                if k == 0 or (deep and k == len(perm)):
                    job("order", [pre + ["main.c"] + post + ["-o", "p"]], exes=["p"])
    for perm in itertools.permutations([["-c"], ["-o", "q.o"], ["main.c"], ["-DA=4"]]):
        job("order", [sum(perm, []), ["q.o"]], exes=["a.out"])
    for f in (["-oq"], ["-o", "q"], ["-o", "./q"], ["-o", "sub/q"]):
        job("order", [["main.c"] + f], exes=["sub/q" if "sub" in f[-1] else "q"])
    job("order", [["-E", "main.c", "-o", "-"]])
    job("order", [["-S", "main.c", "-o", "-"]])
    # options whose value looks like a source
    for f in (["-include", "pre.c"], ["-imacros", "pre.c"], ["-I", "inc.c", "-DHDR=<k.h>"], ["-Iinc.c", "-DHDR=<k.h>"], ["-isystem", "inc.c", "-DHDR=<k.h>"],
              ["-D", "Q=a.c"], ["-DQ=a.c"], ["-Wl,-Map=m.c"], ["-L", "inc.c"]):
        job("values", [f + ["main.c", "-o", "p"]], exes=["p"])
        job("values", [["main.c"] + f + ["-o", "p"]], exes=["p"])
        job("values", [["-c", "main.c"] + f, ["main.o", "-o", "p"]], exes=["p"])
        job("values", [["-E", "main.c"] + f])
    # --- what is compiled and linked
    ins = {"main": ["main.c"], "b": ["b.c"], "c": ["sub/c.c"], "e": ["e.cpp"], "s": ["s.s"], "pb": ["pb.o"], "ax": ["lib/libx.a"], "lx": ["-Llib", "-lx"], "lx2": ["-L", "l i'b", "-l", "x"], "lm": ["-lm"]}
    uses = {"b": "-DUB", "c": "-DUC", "e": "-DUE", "s": "-DUS", "pb": "-DUB", "ax": "-DUX", "lx": "-DUX", "lx2": "-DUX"}
    excl = [("b", "pb"), ("ax", "lx"), ("ax", "lx2"), ("lx", "lx2")]
    for k in (1, 2, 3, 4) if deep else (1, 2, 3):
        for sel in itertools.permutations(ins, k):
            if "main" not in sel or any(a in sel and b in sel for a, b in excl):
                continue
            if k == 3 and not deep and sel.index("main"):
                continue
            job("link", [sum((ins[s] for s in sel), []) + [uses[s] for s in sel if s in uses] + ["-o", "p"]], exes=["p"], loose=True)
    for g in (["-Wl,--start-group", "-lcx", "-lcy", "-Wl,--end-group"], ["-Wl,--start-group", "-lcy", "-lcx", "-Wl,--end-group"], ["-lcx", "-lcy", "-lcx"],
              ["-Wl,--whole-archive", "-lcx", "-lcy", "-Wl,--no-whole-archive"], ["-Wl,-Bstatic", "-lcx", "-lcy", "-lcx", "-Wl,-Bdynamic"], ["lib/libcx.a", "lib/libcy.a", "lib/libcx.a"],
              ["-lcx", "lib/libcy.a", "-lcx"], ["lib/libcx.a", "-lcy", "lib/libcx.a"], ["-Xlinker", "--start-group", "-lcy", "-lcx", "-Xlinker", "--end-group"]):
        job("link", [["main.c", "-DUX", "-Llib"] + g + ["-o", "p"]], exes=["p"], loose=True)
        job("link", [["-c", "main.c", "-DUX"], ["main.o", "-Llib"] + g + ["-o", "p"]], exes=["p"], loose=True)
    job("link", [["-c", "main.c", "-DUB", "-DUC"], ["-c", "b.c"], ["-c", "sub/c.c"], ["main.o", "b.o", "c.o", "-o", "p"]], exes=["p"])
    job("link", [["-c", "main.c", "b.c", "-DUB"], ["main.o", "b.o", "-o", "p"]], exes=["p"])
    job("link", [["-c", "main.c", "sub/c.c", "e.cpp", "-DUC", "-DUE"], ["main.o", "c.o", "e.o", "-o", "p"]], exes=["p"])
    job("link", [["-c", "s.s"], ["-c", "main.c", "-DUS"], ["main.o", "s.o", "-o", "p"]], exes=["p"])
    job("link", [["-c", "s.s", "-o", "t.o"], ["main.c", "t.o", "-DUS", "-o", "p"]], exes=["p"])
    for f in (["-Ii1"], ["-Ii2"], ["-I", "i2", "-DINC=7"], ["-Ii1", "-D", "INC=8", "-UINC"], ["-Ii1", "-Ii2"], ["-Ii2", "-Ii1", "-Wa,-defsym,SYM=16"], ["-isystem", "i 3"], []):
        job("link", [["main.c", "sp.S", "-DUS"] + f + ["-o", "p"]], exes=["p"])
        job("link", [["-c", "sp.S"] + f, ["-c", "sp.S", "-o", "t.o"] + f, ["main.c", "t.o", "-DUS", "-o", "p"], ["main.c", "sp.o", "-DUS", "-o", "q"]], exes=["p", "q"])
        job("link", [["-E", "sp.S"] + f])
    job("link", [["-c", "x y/z.c", "-o", "x y/out.o"], ["x y/out.o", "-o", "x y/p"]], exes=["x y/p"])
    job("link", [["-c", "x y/z.c"], ["z.o", "-o", "p"]], exes=["p"])
    job("link", [["-shared", "-fPIC", "b.c", "-o", "libb.so"], ["main.c", "-DUB", "libb.so", "-Wl,-rpath,$ORIGIN", "-o", "p"]], exes=["p"])
    for s in ("app.C", "app.cc", "app.cxx", "app.cpp", "app.c++"):
        job("link", [["++", s, "-o", "p"]], exes=["p"])
        job("link", [["++", "-c", s, "-o", "a.o"], ["++", "a.o", "-o", "p"]], exes=["p"])
        job("link", [["-c", s], [os.path.splitext(s)[0] + ".o", "-o", "p"]], exes=["p"])
    # --- instrumentation options change neither outputs nor results
    vo = [["--inst-fcmp"], ["--inst-fma"], ["--inst-cast"], ["--inst-func"], ["--ddebug"], ["--verbose"], ["--show-cmd"], ["--save-temps"], ["--linker=clang"],
          ["--function", "main"], ["--include-file", "functions.txt"], ["--exclude-file", "names.txt"]]
    for k in (1, 2):
        for sel in itertools.combinations(vo, k):
            ns = [s[0] for s in sel]
            if "--function" in ns and ("--include-file" in ns or "--exclude-file" in ns):
                continue
            ex = sum(sel, [])
            t = "--save-temps" in ns
            if k == 1 or deep:
                job("options", [["-E", "main.c"]], extra=ex, temps=t)
                job("options", [["-S", "main.c", "-o", "q.s"]], extra=ex, temps=t)
                job("options", [["-c", "main.c", "-DUB"], ["-c", "b.c", "-o", "k.o"], ["main.o", "k.o", "-o", "p"]], exes=["p"], extra=ex, temps=t)
            job("options", [["main.c", "-DUB", "b.c", "-o", "p"]], exes=["p"], extra=ex, temps=t)
    # --- errors
    for c in ([["-c", "syntax.c"]], [["syntax.c", "-o", "p"]], [["main.c", "syntax.c", "-o", "p"]], [["-c", "nohdr.c"]], [["-E", "nohdr.c"]], [["-S", "syntax.c"]], [["undef.c", "-o", "p"]],
              [["missing.c"]], [["-c", "missing.c"]], [["-S", "missing.c"]], [["-E", "missing.c"]], [["missing.o"]], [["main.c", "missing.o"]], [["main.c", "-lmissing"]], [["main.c", "-fnot-an-option"]], [["-c", "main.c", "-mnot-an-option"]],
              [[]], [["-c"]], [["-o", "p"]], [["-c", "main.c", "b.c", "-o", "q.o"]], [["-S", "main.c", "b.c", "-o", "q.s"]], [["main.c", "-o", "nowhere/p"]], [["-c", "main.c", "-o", "nowhere/p.o"]],
              [["main.c", "-o", "sub"]], [["-c", "main.c", "-o", "sub"]], [["main.c", "-DUB"]], [["b.c"]], [["main.c", "-std=c1"]], [["-Werror", "warn.c"]], [["-Werror", "-c", "warn.c"]], [["-Werror", "-Wunused", "-c", "warn.c"]],
              [["main.c", "b.c", "missing.c"]], [["-E", "main.c", "-o", "nowhere/x"]], [["main.c", "-o"]], [["main.c", "main.c"]], [["-c", "s.s", "-o", "nowhere/s.o"]]):
        job("errors", c)
    for c in ([["-c", "warn.c"]], [["warn.c", "-o", "p"]], [["-c", "warn.c", "warn2.c"]], [["warn.c", "warn2.c", "-DUB", "-o", "p"]], [["-Wunused", "-c", "warn.c", "-o", "q.o"]], [["-Wall", "-Wextra", "warn.c", "-o", "p"]],
              [["-w", "-c", "warn.c"]], [["-c", "main.c"]], [["-Wall", "main.c", "-o", "p"]]):
        job("warnings", c, warn=True)
    # --- dependency files
    for f in (["-MMD"], ["-MD"], ["-MMD", "-MF", "dep.d"], ["-MD", "-MF", "dep.d", "-MT", "tgt"], ["-MMD", "-MP"], ["-MMD", "-MQ", "t$x"], ["-MD", "-MT", "a b"]):
        h = ["-DHDR=<h.h>", "-Ii1"]
        job("deps", [["-c", "main.c"] + f + h, ["main.o", "-o", "p"]], exes=["p"])
        job("deps", [["-c", "main.c", "-o", "q.o"] + f + h])
        job("deps", [["-c", "main.c", "-o", "sub/q.o"] + f + h])
        if f[-1] not in ("dep.d",):
            job("deps", [["-c", "sub/c.c"] + f])
    for f in (["-M"], ["-MM"], ["-M", "-MF", "dep.d"], ["-MM", "-MT", "tgt"], ["-MM", "-o", "dd.d"]):
        job("deps", [["main.c"] + f], same=["dd.d"])

    def one(j):
        kind, a, k = j
        return kind, compare(*a, **k), a[0]
    must(["gcc", "-O1", "-ffp-contract=off", "-c", "b.c", "-o", "pb.o"], tpl)
    for kind, (m, info), cmds in common.pmap(one, jobs):
        res.transitions += len(cmds)
        res.states += 1
        res.count(kind)
        res.count("= " + info)
        if info == "ok":
            res.nontrivial += 1
            res.traces += 1
        if m:
            res.violation(m)
        elif res.states % 300 == 1:
            res.sample(show(cmds) + ": " + info)
    faults(prefix, deep, res, base, tree, drop, env, renv, srcobj, show)


TOOL = r'''#!/bin/bash
# stands for a tool: numbers the calls, and makes one of them fail
exec 9>"$FAULT_DIR/lock"; flock 9
k=$(($(cat "$FAULT_DIR/n") + 1)); echo $k >"$FAULT_DIR/n"; exec 9>&-
echo "$k %(real)s" >>"$FAULT_DIR/calls"
if [ "$k" = "$FAULT_AT" ]; then
  case "$FAULT_HOW" in
  before) exit 1 ;;
  after) "%(real)s" "$@"; exit 1 ;;
  signal) "%(real)s" "$@"; kill -9 $$ ;;
  esac
fi
exec "%(real)s" "$@"
'''


def faults(prefix, deep, res, base, tree, drop, env, renv, srcobj, show):
    """each external step of a set of commands fails in turn"""
    tools = os.path.join(base, "tools")
    os.makedirs(tools)
    for t in ("clang", "clang++", "opt", "llvm-link"):
        p = os.path.join(tools, t)
        with open(p, "w") as fh:
            fh.write(TOOL % {"real": os.path.join(common.LLVM, "bin", t)})
        os.chmod(p, 0o755)
    src = open(os.path.join(prefix, "bin", "verificarlo")).read()
    new = src.replace(common.LLVM + "/bin", tools)
    if new == src:
        raise common.HarnessError("the driver does not name its tools")
    fdir = os.path.join(base, "fp", "bin")
    os.makedirs(fdir)
    for x in os.listdir(prefix):
        if x != "bin":
            os.symlink(os.path.join(prefix, x), os.path.join(base, "fp", x))
    drv = os.path.join(fdir, "verificarlo")
    with open(drv, "w") as fh:
        fh.write(new)
    os.chmod(drv, 0o755)

    def launch(cmd, pre, at, how):
        d = tree()
        f = os.path.join(os.path.dirname(d), "fault")
        os.makedirs(f)
        with open(os.path.join(f, "n"), "w") as fh:
            fh.write("0\n")
        e = dict(env, FAULT_DIR=f, FAULT_AT=str(at), FAULT_HOW=how)
        try:
            if pre:
                rc, o, er = sh([os.path.join(prefix, "bin", "verificarlo")] + pre, cwd=d, env=env, timeout=240)
                if rc:
                    return 0, rc, set(), er
            before = listing(d)
            rc, o, er = sh([drv] + cmd, cwd=d, env=e, timeout=240)
            with open(os.path.join(f, "n")) as fh:
                k = int(fh.read())
            return k, rc, listing(d) - before, er
        finally:
            drop(d)
    cases = [(None, ["main.c", "-o", "p"]), (None, ["main.c", "b.c", "s.s", "-DUB", "-DUS", "-o", "p"]), (None, ["-c", "main.c", "-o", "q.o"]), (None, ["-c", "main.c", "b.c"]),
             (None, ["--inst-func", "main.c", "-o", "p"]), (None, ["--emit-llvm", "-c", "main.c", "-o", "q.bc"]), (None, ["-S", "main.c", "-o", "q.s"]), (None, ["-E", "main.c", "-o", "q.i"]),
             (["-c", "main.c"], ["main.o", "-o", "p"]), (None, ["-c", "s.s", "-o", "q.o"]), (None, ["--ddebug", "--linker=clang++", "e.cpp", "main.c", "-DUE", "-o", "p"])]
    plan = []
    for (pre, cmd), (k, rc, new_, er) in zip(cases, common.pmap(lambda c: launch(c[1], c[0], 0, "none"), cases)):
        if rc or not k:
            res.violation("verificarlo %s: exit %s under renamed tools\n%s" % (cmd, rc, er[-500:]))
            continue
        outs = set([cmd[cmd.index("-o") + 1]] if "-o" in cmd else [])
        outs |= set(re.sub(r"\.(c|cpp|s)$", ".o", a) for a in cmd if re.search(r"\.(c|cpp|s)$", a))
        left = new_ - outs
        if left:
            res.violation("verificarlo %s leaves %s" % (cmd, sorted(left)))
        for at in range(1, k + 1):
            for how in ("before", "after", "signal"):
                plan.append((pre, cmd, at, how, outs, k))
    for (pre, cmd, at, how, outs, k), (k2, rc, new_, er) in zip(plan, common.pmap(lambda p: launch(p[1], p[0], p[2], p[3]), plan)):
        res.transitions += 1
        res.states += 1
        res.nontrivial += 1
        res.count("faults")
        w = "verificarlo %s, step %d of %d failing (%s)" % (cmd, at, k, how)
        if k2 < at:
            raise common.HarnessError("%s: the step was not reached (%s)" % (w, k2))
        if rc == 0 or rc == "timeout":
            res.violation("%s: exit %s" % (w, rc))
        left = new_ - outs
        if left:
            res.violation("%s: leaves %s" % (w, sorted(left)))
        if not er.strip():
            res.violation("%s: no message" % w)
