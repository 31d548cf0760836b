"""Delta-debug filters: every include/exclude/generate combination over the sites of a program."""
import itertools, os, re
import common
from common import sh
from checks import _sched
from checks._wrap import CLANG, stub, compile_or_violation, run_prog

# name, result type, parameters, expression, lanes
SITES = [("dadd", "double", "a + b", 1, "d"), ("fmul", "float", "a * b", 1, "f"), ("ddiv", "double", "a / b", 1, "d"),
         ("vsub2", "d2", "a - b", 2, "d"), ("dfma", "double", "__builtin_fma(a, b, a)", 1, "d"), ("vmul4", "f4", "a * b", 4, "f"),
         ("vmul4bis", "f4", "a * b", 4, "f"), ("fsub", "float", "a - b", 1, "f"), ("ffma", "float", "__builtin_fmaf(a, b, a)", 1, "f"),
         ("vdiv8", "d8", "a / b", 8, "d"), ("fcmpcast", "float", "(float)((double)a) + (a < b)", 1, "f")]
N = len(SITES)
COUNT = 2  # executions of each selected site
# children the program leaves behind: 0-3 ended with that status, k killed by a signal, r running until the program ends; i: SIGCHLD is ignored from here on
CHILDREN = r"""  for (char *s = c > 2 ? v[2] : ""; *s; s++) {
    fflush(stdout);
    if (*s == 'i') { signal(SIGCHLD, SIG_IGN); continue; }
    pid_t self = getpid(), q = fork();
    if (q == 0) {
      if (*s == 'k') raise(SIGKILL);
      if (*s == 'r') { prctl(PR_SET_PDEATHSIG, SIGKILL); for (int i = 0; i < 30 && getppid() == self; i++) sleep(1); }
      _exit(*s - '0');
    }
    siginfo_t si;
    if (*s != 'r') waitid(P_PID, q, &si, WEXITED | WNOWAIT);
  }
"""


def program():
    s = ["#include <stdio.h>", "#include <stdlib.h>", "#include <signal.h>", "#include <unistd.h>", "#include <sys/wait.h>", "#include <sys/prctl.h>", "typedef double d2 __attribute__((vector_size(16)));",
         "typedef float f4 __attribute__((vector_size(16)));", "typedef double d8 __attribute__((vector_size(64)));"]
    line = {}
    for n, t, e, l, k in SITES:
        if l == 1:
            s.append("__attribute__((noinline)) %s %s(%s a, %s b)" % (t, n, t, t))
            s.append("{ return %s; }" % e)
        else:
            s.append("__attribute__((noinline)) void %s(%s *p, %s *q)" % (n, t, t))
            s.append("{ %s a = *p, b = *q; *p = %s; }" % (t, e))
        line[n] = len(s)
    for k, t in (("d", "double"), ("f", "float")):
        s.append("static volatile const %s X%s[] = {%s};" % (t, k, ", ".join("%.1f" % (1.1 + i) for i in range(8 + COUNT))))
        s.append("static volatile const %s Y%s[] = {%s};" % (t, k, ", ".join("%.1f" % (0.3 + i) for i in range(8))))
    s.append("int main(int c, char **v) {\n  long m = strtol(v[1], 0, 16);\n%s  for (int r = 0; r < %d; r++) {" % (CHILDREN, COUNT))
    for i, (n, t, e, l, k) in enumerate(SITES):
        if l == 1:
            s.append('    if (m >> %d & 1) printf("%d %%a\\n", (double)%s(X%s[r], 0.7));' % (i, i, n, k))
        else:
            s.append('    if (m >> %d & 1) { %s x, y; for (int i = 0; i < %d; i++) { x[i] = X%s[i + r]; y[i] = Y%s[i]; } %s(&x, &y); for (int i = 0; i < %d; i++) printf("%d %%a\\n", (double)x[i]); }' % (i, t, l, k, k, n, l, i))
    s.append("  }\n  return 0;\n}")
    return "\n".join(s) + "\n", line


def subsets(ix):
    for m in range(1 << len(ix)):
        yield sum(1 << ix[j] for j in range(len(ix)) if m >> j & 1)


def run(prefix, tier, res):
    src, line = program()
    confs = [("-O0",), ("-O2",)] if tier == "quick" else [("-O0",), ("-O1",), ("-O2",), ("-O3", "-march=native"), ("-Os",)]
    with common.Scratch() as d:
        st = stub(prefix, d, "AB")
        for ci, conf in enumerate(confs):
            w = "%s/c%d" % (d, ci)
            os.mkdir(w)
            with open(w + "/p.c", "w") as f:
                f.write(src)
            fl = list(conf) + ["-ffp-contract=off", "--ddebug", "--inst-fma", "--inst-fcmp", "--inst-cast"]
            if compile_or_violation(prefix, fl + ["p.c", "-o", "p"], w, res, "ddebug program"):
                explore(prefix, tier, res, w, st, conf, line)
    # several threads recording sites at once: all schedules
    _sched.run("C13", prefix, tier, res)
    res.bounds = "generation by 2-3 threads under all schedules with 1-2 preemptions; %d sites (scalar, vector, fma, around comparisons/casts) x %s; all include and all exclude subsets, all include x exclude pairs over 5 sites, generation for all executed subsets of 6 sites and under every exclusion, with every sequence of 1-2 unwaited children (status 0, 1, 3, killed, running, SIGCHLD ignored), single backends and chains" % (N, [" ".join(c) for c in confs])


def explore(prefix, tier, res, w, st, conf, line):
    tag = "ddebug program (%s): " % " ".join(conf)
    rc, o, e = sh([CLANG, conf[0], "-ffp-contract=off", "-march=native", w + "/p.c", "-o", w + "/n"])
    if rc:
        raise common.HarnessError(e)
    rc, nat, e = sh([w + "/n", "%x" % ((1 << N) - 1)])
    native = {}
    for l in nat.splitlines():
        k, v = l.split()
        native.setdefault(int(k), []).append(v)
    FULL = (1 << N) - 1

    def go(n, mask, inc=None, exc=None, gen=None, be=None, children=""):
        ev = {"VFC_BACKENDS_LOGGER": "False"}
        for k, t in (("INCLUDE", inc), ("EXCLUDE", exc)):
            if t is not None:
                p = "%s/%s.%d" % (w, k, n)
                with open(p, "w") as f:
                    f.write(t)
                ev["VFC_DDEBUG_" + k] = p
        if gen:
            ev["VFC_DDEBUG_GEN"] = gen
        return run_prog(w + "/p", be or st["A"] + " T=4", "%s/log.%d" % (w, n), ["%x" % mask] + ([children] if children else []), ev)

    def generate(n, mask, exc=None, children=""):
        g = "%s/gen.%d" % (w, n)
        if os.path.exists(g):
            os.unlink(g)
        r = go(n, mask, exc=exc, gen=g, children=children)
        try:
            with open(g) as f:
                return r, [l for l in f.read().splitlines()]
        except OSError:
            return r, None

    addr = {}
    # each site alone gives its line
    def single(i):
        r, g = generate(100000 + i, 1 << i)
        return i, r, g
    for i, r, g in common.pmap(single, range(N)):
        res.states += 1
        n = SITES[i][0]
        m = re.fullmatch(r"(0x[0-9a-f]+): (\S+) at (\S+):(\d+)", g[0]) if g and len(g) == 1 else None
        if r[0] or not m or m.group(2) != n or os.path.basename(m.group(3)) != "p.c" or not line[n] - 1 <= int(m.group(4)) <= line[n]:
            res.violation("%sexecuting only %s (p.c:%d), VFC_DDEBUG_GEN lists %s (status %s %s)" % (tag, n, line[n], g, r[0], r[2][-200:]))
        else:
            addr[i] = g[0]
    if len(addr) != N:
        return
    if len({a.split(":")[0] for a in addr.values()}) != N:
        res.violation(tag + "two sites share an address: %s" % sorted(addr.values()))
        return
    listing = lambda s: "".join(addr[i] + "\n" for i in range(N) if s >> i & 1)

    def judge(n, mask, on, r, desc):
        """sites of 'on' go through the backend, the others of mask natively"""
        rc, o, e, ev = r
        cnt, pos = 0, {}
        want = []
        for rep in range(COUNT):
            for i, (nm, t, ex, l, k) in enumerate(SITES):
                if not mask >> i & 1:
                    continue
                for lane in range(l):
                    if nm == "fcmpcast":   # only its addition is a site; the rest always goes through the backend
                        want.append(None)
                    elif on >> i & 1:
                        want.append("T")
                    else:
                        want.append(native[i][rep * l + lane])
        got = [l.split()[1] for l in o.splitlines()]
        if rc or len(got) != len(want):
            return "status %s, %d results instead of %d: %s" % (rc, len(got), len(want), e[-200:])
        for p, (g, x) in enumerate(zip(got, want)):
            isT = 4096 <= float.fromhex(g) < 8192
            if x == "T" and not isT or x not in (None, "T") and g != x:
                return "result %d is %s, expected %s" % (p, g, "the backend's" if x == "T" else x)
        arith = [x for x in ev if x[0].startswith("A.") and x[1].split("_")[0] in ("add", "sub", "mul", "div", "fma")]
        exp = COUNT * sum(SITES[i][3] for i in range(N) if mask & on & (1 << i))
        if len(arith) != exp:
            return "%d operations reach the backend instead of %d" % (len(arith), exp)
        return None

    jobs = []
    for s in subsets(list(range(N))):
        jobs.append((FULL, s, None))
        jobs.append((FULL, None, s))
    core = [0, 1, 3, 4, 5] if tier == "quick" else [0, 1, 3, 4, 5, 6]
    cm = sum(1 << i for i in core)
    for a in subsets(core):
        for b in subsets(core):
            jobs.append((cm, a, b))

    def filt(j):
        n, (mask, inc, exc) = j
        on = mask & (inc if inc is not None else FULL) & ~(exc or 0)
        r = go(n, mask, listing(inc) if inc is not None else None, listing(exc) if exc is not None else None)
        m = judge(n, mask, on, r, "")
        return "include %s, exclude %s, executing %x: %s" % (None if inc is None else listing(inc).split("\n"), None if exc is None else listing(exc).split("\n"), mask, m) if m else None
    for m in common.pmap(filt, list(enumerate(jobs))):
        res.states += 1
        res.traces += 1
        res.transitions += N
        res.nontrivial += 1
        if m:
            res.violation(tag + m)
    # generation
    gi = [0, 1, 3, 4, 5, 6] if tier == "quick" else list(range(8))
    gj = [(s, None, "") for s in subsets(gi)] + [(cm, x, "") for x in subsets(core)]
    # processes of its own that the program has not waited for
    kids = ["".join(x) for k in (1, 2) + ((3,) if tier != "quick" else ()) for x in itertools.product("013kri", repeat=k)]
    gj += [(FULL, None, k) for k in kids] + [(m, None, k) for k in ("0", "1", "k", "0000", "1111") for m in (0, 1, 5)]

    def gen(j):
        n, (mask, exc, kid) = j
        r, g = generate(200000 + n, mask, listing(exc) if exc is not None else None, kid)
        left = ", with unwaited children '%s'" % kid if kid else ""
        on = mask & ~(exc or 0)
        want = sorted(addr[i] for i in range(N) if on >> i & 1)
        m = judge(n, mask, on, r, "")
        if m:
            return "generating with exclude %s, executing %x%s: %s" % (exc, mask, left, m)
        if sorted(g if g is not None else ["no file"]) != want:
            return "generating with exclude %s, executing %x%s lists %s instead of %s" % (exc, mask, left, g, want)
        return None
    for m in common.pmap(gen, list(enumerate(gj))):
        res.states += 1
        res.traces += 1
        res.transitions += 1
        res.nontrivial += 1
        if m:
            res.violation(tag + m)
    # a generated list, included and excluded; odd but lawful lists; refusals
    odd = []
    allf = listing(FULL)
    odd.append(("shuffled and repeated", "".join(sorted(allf.splitlines(True))[::-1]) * 3, FULL))
    odd.append(("addresses only", "".join(l.split(":")[0] + "\n" for l in allf.splitlines()), FULL))
    base = int(addr[0].split(":")[0], 16)
    many = "".join("0x%x: other at q.c:1\n" % (base + 64 * 1024 + 3 * k) for k in range(3000))
    near = "".join("%s: x at y:1\n" % hex(int(addr[i].split(":")[0], 16) + dlt) for i in range(N) for dlt in (-2, -1, 1, 2, 1 << 32))
    odd.append(("3000 foreign addresses", many, 0))
    odd.append(("neighbouring addresses", near, 0))
    for i in range(N):
        odd.append(("3000 foreign addresses around site %d" % i, many[:60000] + addr[i] + "\n" + near + many[60000:].partition("\n")[2] if False else many + near + addr[i] + "\n" + many, 1 << i))
    odd.append(("no newline at the end", allf.rstrip("\n"), FULL))
    # lines of any length (C++ names are long): site 1 then site 2, each with a name of k letters
    for k in [0, 1, 20, 60, 100, 200, 240, 500, 1000, 2000] + list(range(2015, 2060, 4)) + [3000, 4080, 8190, 70000]:
        text = "".join("%s: %s at p.c:1\n" % (addr[i].split(":")[0], "z" * k) for i in (1, 2))
        odd.append(("names of %d letters" % k, text, 6))
        # what follows in a name is never taken for an address
        text = "%s: %s at p.c:1\n" % (addr[1].split(":")[0], ("z" * (k % 7) + (addr[3].split(":")[0] + " ") * (k // 10 + 1)))
        odd.append(("names of %d addresses" % (k // 10 + 1), text, 2))
    def one(j):
        k, (what, text, s), mode = j
        r = go(300000 + 2 * k + mode, FULL, text if mode == 0 else None, text if mode else None)
        return judge(0, FULL, s if mode == 0 else FULL & ~s, r, ""), what, mode
    for m, what, mode in common.pmap(one, [(k, x, mode) for k, x in enumerate(odd) for mode in (0, 1)]):
            res.states += 1
            res.traces += 1
            res.nontrivial += 1
            if m:
                res.violation("%s%s file with %s: %s" % (tag, "exclude" if mode else "include", what, m))
    r = go(400000, FULL, allf, None, w + "/gg")
    res.states += 1
    if r[0] == 0 or any(x[1][:3] in ("add", "mul") for x in r[3]):
        res.violation(tag + "VFC_DDEBUG_INCLUDE and VFC_DDEBUG_GEN together are accepted")
    r = go(400001, FULL, None, "nonsense\n")
    if r[0] == 0:
        res.violation(tag + "a filter file with a line that is no address is accepted")
    # chained backends
    for s in ([FULL, 0, 5, 0x15] if tier == "quick" else subsets(core)):
        r = go(400002, FULL, listing(s), None, None, st["B"] + ";" + st["A"] + " T=4")
        m = judge(0, FULL, s, r, "")
        nb = len([x for x in r[3] if x[0].startswith("B.") and x[1].split("_")[0] in ("add", "sub", "mul", "div", "fma")])
        exp = COUNT * sum(SITES[i][3] for i in range(N) if s >> i & 1)
        res.states += 1
        if m or nb != exp:
            res.violation("%sinclude %x under two backends: %s (%d events of the first, expected %d)" % (tag, s, m, nb, exp))
    res.count("filter combinations", len(jobs))
    res.count("generation runs", len(gj))
    res.sample({"sites": [addr[i] for i in range(N)], "configuration": " ".join(conf)})
