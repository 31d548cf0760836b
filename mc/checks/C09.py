"""C09: every backend list of the grid, run on a compiled program under recording backends."""
import itertools, os
import common
from checks._wrap import *

OPS8 = ["add_float", "sub_float", "mul_float", "div_float", "add_double", "sub_double", "mul_double", "div_double"]
OPS13 = OPS8 + ["cmp_float", "cmp_double", "cast", "fma_float", "fma_double"]
BIT = {"add_float": 0, "sub_float": 1, "mul_float": 2, "div_float": 3, "cmp_float": 4, "add_double": 5,
       "sub_double": 6, "mul_double": 7, "div_double": 8, "cmp_double": 9, "cast": 10, "fma_float": 11, "fma_double": 12}
A, B_, C_ = "3fc00000", "c0100000", "40800000"
X, Y, Z = "400c000000000000", "3fc0000000000000", "c01c000000000000"
OPERANDS = {"cmp_float": ["4", A, B_], "cmp_double": ["2", X, Y], "cast": [X], "fma_float": [A, B_, C_],
            "fma_double": [X, Y, Z]}
for _o in OPS8:
    OPERANDS[_o] = [A, B_] if "float" in _o else [X, Y]
import struct


def fbits(v):
    return "%x" % struct.unpack("<I", struct.pack("<f", v))[0]


def dbits(v):
    return "%x" % struct.unpack("<Q", struct.pack("<d", v))[0]


ALIAS = {}      # other paths of the stubs


def expected(parsed, stubs, full):
    """parsed: list of argument vectors; returns (ok, events, outputs) or (False, None, None)."""
    ops = OPS13 if full else OPS8
    ev, inst, counts = [], [], {}
    rev = {v: k for k, v in stubs.items()}
    if not parsed or len(parsed) > 16:
        return False, None, None
    for av in parsed:
        if len(av) > 256:
            return False, None, None
        n = rev.get(av[0]) or ALIAS.get(av[0])
        if n is None:
            return False, None, None
        k = counts.get(n, 0)
        counts[n] = k + 1
        name = "%s.%d" % (n, k)
        tag = mask = 0
        for a in av[1:]:
            if a.startswith("T="):
                tag = int(a[2:])
            if a.startswith("M="):
                mask = int(a[2:], 16)
        inst.append([name, tag, mask, 0])
        ev += [[name, "pre_init"], [name, "cli", str(len(av)), "null"] + av, [name, "init"]]
    for o in ops:
        if all(m[2] >> BIT[o] & 1 for m in inst):
            return False, None, None
    ev.append(["main", "start"])
    out = []
    for o in OPS13 if full else OPS8:
        r = None
        for m in inst:
            if m[2] >> BIT[o] & 1:
                continue
            ev.append([m[0], o] + OPERANDS[o])
            if o.startswith("cmp"):
                r = str(m[1] & 1) if m[1] else {"cmp_float": "0", "cmp_double": "1"}[o]
            else:
                v = None
                if m[1]:
                    v = m[1] * 1024 + m[3]
                    m[3] += 1
                else:
                    a, b, c, x, y, z = 1.5, -2.25, 4.0, 3.5, 0.125, -7.0
                    v = {"add_float": a + b, "sub_float": a - b, "mul_float": a * b, "div_float": a / b,
                         "add_double": x + y, "sub_double": x - y, "mul_double": x * y, "div_double": x / y,
                         "cast": x, "fma_float": a * b + c, "fma_double": x * y + z}[o]
                r = fbits(v) if ("float" in o or o == "cast") else dbits(v)
        out.append("%s %s" % (o, r))
    ev.append(["main", "end"])
    fin = sorted(m[0] for m in inst if not m[2] >> 16 & 1)
    return True, ev, (out, fin)


def parse(s):
    """The documented syntax; None when a token is blank (refusing or skipping it are both fine)."""
    toks = [t for t in s.split(";") if t != ""]
    out, blank = [], False
    for t in toks:
        av = [x for x in t.split(" ") if x]
        if not av:
            blank = True
        else:
            out.append(av)
    return out, blank


def multi(prefix, d, st, res):
    w = os.path.join(d, "multi")
    os.mkdir(w)
    with open(w + "/lib.c", "w") as f:
        f.write("double libadd(double a, double b) { return a + b; }\n")
    with open(w + "/m.c", "w") as f:
        f.write("#include <stdio.h>\ndouble libadd(double, double);\nint main(void) { volatile double x = 3.5, y = 0.125;"
                " printf(\"%a %a\\n\", libadd(x, y), x - y); return 0; }\n")
    for opt in ([], ["--ddebug"], ["--inst-func"]):
        t = "program linked with an instrumented shared library %s" % opt
        if not (compile_or_violation(prefix, opt + ["-O1", "-shared", "-fPIC", "lib.c", "-o", "libl.so"], w, res, t) and
                compile_or_violation(prefix, opt + ["-O1", "m.c", "-o", "m", "-L.", "-ll", "-Wl,-rpath," + w], w, res, t)):
            return
        for n in (1, 2, 3):
            for tag in (0, 1):
                lst = [[st["ABC"[i]]] + (["T=%d" % (i + 3)] if tag else []) for i in range(n)]
                rc, o, er, ev = run_prog(w + "/m", ";".join(" ".join(x) for x in lst), w + "/log")
                names = ["%s.0" % "ABC"[i] for i in range(n)]
                want = []
                for nm, av in zip(names, lst):
                    want += [[nm, "pre_init"], [nm, "cli", str(len(av)), "null"] + av, [nm, "init"]]
                for op in ("add_double", "sub_double"):
                    want += [[nm, op, X, Y] for nm in names]
                got = [e for e in ev if e[1] not in ("enter", "exit", "finalize")]
                fin = [e[0] for e in ev if e[1] == "finalize"]
                k = (n + 2) * 1024
                vals = [float.fromhex(v) for v in o.split()] if rc == 0 else None
                exp = [float(k), float(k + 1)] if tag else [3.625, 3.375]
                res.states += 1
                res.traces += 1
                res.nontrivial += 1
                res.transitions += len(ev)
                if rc != 0 or got != want or sorted(fin) != names or vals != exp:
                    res.violation("%s, backends %s: status %s, output %s (expected %s), finalized %s, events %s\n%s" % (
                        t, lst, rc, o, exp, fin, got, er[-500:]))


def family(prefix, d, st, res):
    """a program run by an instrumented program gets the same backends"""
    w = os.path.join(d, "family")
    os.mkdir(w)
    with open(w + "/f.c", "w") as f:
        f.write("""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
int main(int c, char **v) {
  volatile double x = 3.5, y = 0.125;
  int n = atoi(v[1]);
  const char *e = getenv("VFC_BACKENDS");
  printf("%d %a %s\\n", n, n & 1 ? x + y : x - y, e ? e : "(unset)");
  fflush(stdout);
  if (!n) return 0;
  char a[8];
  sprintf(a, "%d", n - 1);
  if (v[2][0] == 's') { char b[4096]; sprintf(b, "%s %s %s", v[0], a, v[2]); return system(b) != 0; }
  if (v[2][0] == 'e') { execl(v[0], v[0], a, v[2], NULL); return 9; }
  pid_t p = fork();
  if (!p) { execl(v[0], v[0], a, v[2], NULL); _exit(9); }
  int r;
  waitpid(p, &r, 0);
  return r != 0;
}
""")
    if not compile_or_violation(prefix, ["-O1", "f.c", "-o", "f"], w, res, "a program running itself"):
        return
    a, b = st["A"], st["B"]
    lists = [a, a + " x", a + " T=3 --v=2", a + ";" + b, a + " T=3;" + b + " T=4 y", a + "  z ; " + b, ";" + a + ";;" + b + ";"]
    i = 0
    for s in lists:
        for how in "sef":
            for fromfile in (0, 1):
                i += 1
                env = {}
                if fromfile:
                    with open(w + "/l%d" % i, "w") as f:
                        f.write(s + "\n")
                    env = {"VFC_BACKENDS_FROM_FILE": w + "/l%d" % i}
                rc, o, er, ev = run_prog(w + "/f", None if fromfile else s, w + "/log%d" % i, ["2", how], env)
                parsed = parse(s)[0]
                last = parsed[-1]
                tag = [int(x[2:]) for x in last if x.startswith("T=")]
                val = lambda n: float(tag[0] * 1024) if tag else (3.625 if n & 1 else 3.375)
                lines = [l.split(" ", 2) for l in o.splitlines()]
                want = [(str(n), val(n), "(unset)" if fromfile else s) for n in (2, 1, 0)]
                got = [(l[0], float.fromhex(l[1]), l[2]) for l in lines if len(l) == 3]
                inits = [e for e in ev if e[1] == "cli"]
                exp = [["%s.0" % ("A" if av[0] == a else "B"), "cli", str(len(av)), "null"] + av for av in parsed] * 3
                res.states += 1
                res.traces += 1
                res.transitions += len(ev)
                res.nontrivial += 1
                if rc or got != want or inits != exp:
                    res.violation("backends %r%s, program running itself twice (%s): status %s, output %r, backends started %s" % (
                        s, " (from file)" if fromfile else "", {"s": "system", "e": "exec", "f": "fork and exec"}[how], rc, o, [e[4:] for e in inits]))


REAL = ["ieee", "mca", "mca_int", "bitmask", "cancellation", "vprec"]


def real(prefix, d, exe, res, deep):
    """every list of up to 2 (3) of the real backends, with or without an argument, runs and ends cleanly"""
    rows = [r for n in ((1, 2, 3) if deep else (1, 2)) for r in itertools.product(REAL, repeat=n)]
    rows += [tuple(REAL), tuple(REAL[::-1]), ("vprec",) * 16, ("mca",) * 16]
    opt = {"ieee": "--count-op", "mca": "--seed=3", "mca_int": "--seed=3", "bitmask": "--seed=3", "cancellation": "--seed=3", "vprec": "--precision-binary64=9"}

    def one(j):
        i, (r, arg) = j
        s = ";".join("libinterflop_%s.so%s" % (b, " " + opt[b] if arg else "") for b in r)
        rc, o, er, ev = run_prog(exe, s, os.path.join(d, "rlog%d" % i), ["r", "0"], {"LD_LIBRARY_PATH": prefix + "/lib", "MALLOC_PERTURB_": "165", "STUB_LOG": os.path.join(d, "rlog%d" % i)})
        n = len(o.splitlines())
        return s, rc, n, er
    for s, rc, n, er in common.pmap(one, list(enumerate([(r, a) for r in rows for a in (0, 1)]))):
        res.states += 1
        res.traces += 1
        res.nontrivial += 1
        if rc or n != 8:
            res.violation("VFC_BACKENDS=%r: status %s, %d results instead of 8: %s" % (s, rc, n, er[-300:]))


def run(prefix, tier, res):
    deep = tier == "thorough"
    with common.Scratch() as d:
        st = stub(prefix, d)
        src = os.path.join(common.HERE, "prog", "allops.c")
        exe = {}
        for full in (False, True):
            o = os.path.join(d, "full" if full else "plain")
            args = ["-O1", "-ffp-contract=off", "-o", o] + (["-DALL", "--inst-fcmp", "--inst-fma", "--inst-cast"] if full else [])
            w = os.path.join(d, "src%d" % full)
            os.mkdir(w)
            common.shutil.copyfile(src, os.path.join(w, "allops.c"))
            if not compile_or_violation(prefix, args + ["allops.c"], w, res, "instrumenting every operation kind"):
                return
            exe[full] = o
        a, b, c = st["A"], st["B"], st["C"]
        # objects that cannot be used as a backend
        bad = {"missing": os.path.join(d, "missing.so"), "text": os.path.join(d, "text.so")}
        with open(bad["text"], "w") as f:
            f.write("not a library\n")
        need = ["interflop_set_handler", "interflop_pre_init", "interflop_cli", "interflop_init"]
        for lack in need:
            p = os.path.join(d, "no_%s.so" % lack)
            body = "".join("void %s(void) {}\n" % n for n in need if n != lack)
            common.sh(["gcc", "-shared", "-fPIC", "-x", "c", "-", "-o", p], input=body)
            bad[lack] = p

        cases = []  # (what, full, VFC_BACKENDS or None, env, parsed or 'fail', prog args, exit code)

        def case(what, full, s, parsed=None, env=None, args=(), code=0):
            if parsed is None:
                parsed, blank = parse(s)
                if blank:
                    parsed = (parsed, "blank")
            cases.append((what, full, s, env, parsed, tuple(args), code))

        # 1. all strings over an alphabet of paths, arguments and separators
        alpha = [a, b, ";", " ", "x1", "--v=2"]
        depth = 6 if deep else 5
        for n in range(0, depth + 1):
            for t in itertools.product(range(len(alpha)), repeat=n):
                s = "".join(alpha[i] for i in t)
                # words glued together are other (unloadable) words: keep the strings whose words are separated
                if any(alpha[i] not in "; " and alpha[j] not in "; " for i, j in zip(t, t[1:])):
                    continue
                case("syntax", False, s)
        # 2. chaining: every operation, every subset of backends implementing it, tagged results
        for n in (1, 2, 3):
            for full in (False, True):
                ops = OPS13
                for o in ops:
                    for miss in itertools.product((0, 1), repeat=n):
                        s = ";".join("%s T=%d M=%x" % (st["ABC"[i]], 5 + 2 * i + (i == 1), (1 << BIT[o]) * miss[i])
                                     for i in range(n))
                        case("chaining %s" % o, full, s)
                for m in itertools.product((0, 0x1fff, 0x1f, 0x3e0, 0x1c00, 0x10210, 0x10000, 0xaaaa, 0x5555, 0x1ffff), repeat=n):
                    if n == 3 and not deep and m[0] not in (0, 0x1fff, 0xaaaa):
                        continue
                    s = " ; ".join("%s T=%d M=%x" % (st["ABC"[i]], 9 - 2 * i, m[i]) for i in range(n))
                    case("chaining masks", full, s)
        for perm in itertools.permutations("ABC"):
            for k in (1, 2, 3):
                case("order", True, ";".join("%s T=%d" % (st[p], 3 + ord(p) - 65) for p in perm[:k]))
                case("order, native", True, ";".join(st[p] for p in perm[:k]))
        for combo in itertools.product("AB", repeat=3):
            case("repeated", True, ";".join("%s T=%d a%d" % (st[p], 3 + i, i) for i, p in enumerate(combo)))
        # 3. sizes: number of backends, number and length of arguments
        for n in range(1, 20):
            case("%d backends" % n, True, ";".join("%s T=%d" % (st["ABC"[i % 3]], i + 1) for i in range(n)))
        for n in list(range(1, 40)) + list(range(250, 261)) + [300]:
            case("%d arguments" % n, False, a + "".join(" a%d" % i for i in range(n - 1)) + ";" + b)
        for n in (100, 255, 256, 257, 1000, 4096, 20000):
            case("long argument", False, a + " " + "z" * n + " T=3;" + b + " y")
        # every other character, in the path of a backend and in an argument
        for n in list(range(33, 127)) + [0xe9, 0x2192]:
            ch = chr(n)
            if ch == ";":
                continue
            if ch != "/":
                q = os.path.join(d, "p%sq" % ch, "C.so")
                os.mkdir(os.path.dirname(q))
                os.symlink(c, q)
                ALIAS[q] = "C"
                case("character in a path", False, q + " T=3;" + b)
                case("character in a path", False, a + ";" + q)
            case("character in an argument", False, "%s k%sv %sT=3 --x%s=%s;%s" % (a, ch, ch, ch, ch, b))
        # 4. unusable backends at every position
        for k, p in sorted(bad.items()):
            for n in (1, 2, 3):
                for pos in range(n):
                    l = [st["ABC"[i]] for i in range(n)]
                    l[pos] = p
                    case("unusable backend (%s)" % k, False, ";".join(l), "fail")
        # 5. where the list comes from
        f = os.path.join(d, "list")

        def listfile(i, text):
            p = f + str(i)
            with open(p, "w") as fh:
                fh.write(text)
            return p
        i = 0
        for s in (a, a + ";" + b, a + " x T=3;" + b + " T=4", " " + a + "  x ", b + " " + "w" * 3000):
            for tail in ("", "\n", "\n" + c + "\n", "\n\n"):
                i += 1
                p, blank = parse(s)
                case("from file", False, None, p, {"VFC_BACKENDS_FROM_FILE": listfile(i, s + tail)})
                case("both", False, c, parse(c)[0], {"VFC_BACKENDS_FROM_FILE": listfile(i, s + tail)})
        case("both, file missing", False, c, parse(c)[0], {"VFC_BACKENDS_FROM_FILE": d + "/nofile"})
        case("file missing", False, None, "fail", {"VFC_BACKENDS_FROM_FILE": d + "/nofile"})
        case("file empty", False, None, "fail", {"VFC_BACKENDS_FROM_FILE": listfile("e", "")})
        case("nothing set", False, None, "fail", {})
        case("empty", False, "", "fail", {})
        # 6. ways of ending: exit codes and finalizers
        for how in ("r", "e"):
            for code in (0, 1, 2, 77, 255):
                case("exit", True, a + ";" + b, None, None, (how, str(code)), code)
                case("exit", False, a + " M=10000;" + b, None, None, (how, str(code)), code)

        # 7. a program linked with an instrumented shared library: one set of backends
        multi(prefix, d, st, res)
        # 8. programs run by the program
        family(prefix, d, st, res)
        # 9. the backends of the project together, several times
        real(prefix, d, exe[False], res, deep)

        def one(ic):
            i, (what, full, s, env, parsed, args, code) = ic
            e = {"VFC_BACKENDS_SILENT_LOAD": "True"} if i % 2 else {}
            e.update(env or {})
            rc, o, er, ev = run_prog(exe[full], s, os.path.join(d, "log%d" % i), args, e)
            try:
                os.unlink(os.path.join(d, "log%d" % i))
            except OSError:
                pass
            return check(what, full, s, env, parsed, args, code, rc, o, er, ev)

        def check(what, full, s, env, parsed, args, code, rc, o, er, ev):
            desc = "%s: VFC_BACKENDS=%s env=%s program=%s %s" % (
                what, repr(s)[:400].replace(d, "."), env, "all operations" if full else "arithmetic", args)
            started = any(x[0] == "main" for x in ev)

            def failed():
                if rc == 0 or rc == "timeout":
                    return "should stop with an error, but exit status is %s" % rc
                if isinstance(rc, int) and rc < 0:
                    return "died of signal %d instead of reporting an error" % -rc
                if started or any(x[1] in OPS13 for x in ev if len(x) > 1):
                    return "the program started although the backend list is unusable"
                if not er.strip():
                    return "stopped without an error message"
                return None

            def good(p):
                ok, want, rest = expected(p, st, full)
                if not ok:
                    return failed()
                if rc != code:
                    return "exit status %s instead of %d\n%s" % (rc, code, er[-600:])
                body = [x for x in ev if x[1] != "finalize"]
                if body != want:
                    for k in range(max(len(body), len(want))):
                        g = body[k] if k < len(body) else None
                        w = want[k] if k < len(want) else None
                        if g != w:
                            return "event %d is %s, expected %s" % (k, str(g)[:300], str(w)[:300])
                if sorted(x[0] for x in ev if x[1] == "finalize") != rest[1] or ev[:len(body)] != body:
                    return "finalizers: %s, expected one of each of %s after the program" % (
                        [x[0] for x in ev if x[1] == "finalize"], rest[1])
                if o.split("\n")[:-1] != rest[0]:
                    return "results %s, expected %s" % (o.split("\n"), rest[0])
                return None
            if parsed == "fail":
                m = failed()
            elif isinstance(parsed, tuple):
                m = failed()
                if m:
                    m = good(parsed[0])
            else:
                m = good(parsed)
            return (desc + ": " + m) if m else None, started, len(ev)

        for m, started, n in common.pmap(one, list(enumerate(cases)), 12):
            res.states += 1
            res.traces += 1
            res.transitions += n
            if started:
                res.nontrivial += 1
            if m:
                res.violation(m.replace(d, "."))
        for k in (0, len(cases) // 2, len(cases) - 1):
            res.sample(("%s: %s" % (cases[k][0], cases[k][2]))[:200].replace(d, "."))
        res.count("lists", len(cases))
    res.bounds = ("all strings of up to %d symbols over {2 backends, ';', ' ', 2 arguments}; every operation x every "
                  "subset of up to 3 backends lacking it; 1-19 backends; up to 300 arguments; every way the list can "
                  "be unusable; both sources of the list; lists inherited by child programs; all lists of up to %d real backends" % (depth, 3 if deep else 2))
