"""Function selection: all include/exclude contents over a line alphabet, on a universe of
modules, against the documented matching rules."""
import itertools, os, re, shlex
import common
from common import sh
from checks._wrap import stub, vfc, run_prog

MODS = ["main.c", "util.c", "dir/util.c", "dir/sub/main.c", "m+1.c", "dir/a(b).c", "util2.c", "x.y.c", "p#q.c"]
PASSMODS = MODS + ["cap.C"]      # compiled only (a C++ one)
FUNS = ["f1", "f2", "f10", "g", "g1", "a$b"]
MODPAT = ["main", "main.c", "util", "dir/util", "dir/*", "*", "uti*", "sub/main", "m+1", "dir/a(b)", "til", "util.cpp", "x.y.c", "x.y", "@abs/dir/util.c", "@abs/util", "dir", "*.c", "p#q", "*#*", "cap", "cap.c", "cap.C"]
FUNPAT = ["f1", "*", "f*", "g", "*1", "a$b", "f", "f1|g"]


def match(pat, text):
    return re.fullmatch(".*".join(re.escape(x) for x in pat.split("*")), text, re.S) is not None


def modmatch(pat, path):
    if not pat.startswith("/"):
        pat = "*/" + pat
    if "." not in os.path.basename(pat):
        pat += ".*"
    return match(pat, path)


def parse(text, path):
    """the functions patterns of a file that apply to a module"""
    out = []
    for l in text.split("\n"):
        if l.startswith("#") or not l.strip():
            continue
        mod, _, fun = l.partition(" ")
        if modmatch(mod.strip(), path):
            out.append(fun.strip())
    return out


def selected(fun, path, inc, exc):
    if inc is not None and any(match(p, fun) for p in parse(inc, path)):
        return True
    if exc is not None:
        return not any(match(p, fun) for p in parse(exc, path))
    return inc is None


def bodies(text):
    """{function: number of floating-point arithmetic instructions left in it}"""
    out = {}
    for m in re.finditer(r'^define [^@]*@("[^"]*"|[^(\s]+)\(.*?^}', text, re.M | re.S):
        out[m.group(1).strip('"')] = len(re.findall(r"= (?:\w+ )*f(?:add|sub|mul|div) ", m.group(0)))
    return out


def sources(d, tag=""):
    for k, m in enumerate(MODS if tag else PASSMODS):
        os.makedirs(os.path.dirname(os.path.join(d, m)), exist_ok=True)
        with open(os.path.join(d, m), "w") as f:
            for i, fn in enumerate(FUNS):
                f.write("%sdouble %s(double x, float y) { float z = y * y; return x + %d.0 * z; }\n" % ("static __attribute__((noinline,used)) " if tag else 'extern "C" ' if m.endswith(".C") else "", fn, i + 2))
            if tag:
                f.write("#include <stdio.h>\nvoid run%d(void) {\n" % k)
                for i, fn in enumerate(FUNS):
                    f.write("  printf(\"%%a\\n\", %s(%d.5, %d.25f));\n" % (fn, k + 1, i + 1))
                f.write("}\n")
    if tag:
        with open(d + "/top.c", "w") as f:
            for k in range(len(MODS)):
                f.write("void run%d(void);\n" % k)
            f.write("int main(void) { " + "".join("run%d(); " % k for k in range(len(MODS))) + "return 0; }\n")


def variants(d, tier):
    q = tier == "quick"
    lines = [(m, f) for m in MODPAT for f in FUNPAT]
    txt = lambda ls: "\n".join("%s %s" % l for l in ls) + "\n"
    small = [("main", "f1"), ("util", "*"), ("dir/*", "g*"), ("*", "f*"), ("*", "*"), ("dir/util", "f10"), ("x.y", "*"), ("*", "g1"), ("sub/main", "a$b"), ("@abs/util", "f1")]
    if not q:
        small += [("m+1", "*"), ("*", "*1"), ("uti*", "f2"), ("dir", "*"), ("main.c", "g")]
    out = []
    for l in lines:                      # one line, either file
        out.append((txt([l]), None))
        out.append((None, txt([l])))
    for a in small:                      # one line in each
        for b in small:
            out.append((txt([a]), txt([b])))
    for a, b in itertools.combinations(small, 2):  # two lines
        out.append((txt([a, b]), None))
        out.append((None, txt([b, a])))
    if not q:
        for a, b in itertools.combinations(small, 2):
            for c in small:
                out.append((txt([a, b]), txt([c])))
                out.append((txt([c]), txt([a, b])))
    odd = ["# main f1\nutil g\n", "\n\nmain f1\n\n   \nutil f2", "main  f1\n", "main f1   \n", "main f1\r\nutil g\r\n", "util f1\nmain f1\n# nothing\n", "#\n", "", "\n", "util *\nutil f1\n"]
    for o in odd:
        out.append((o, None))
        out.append((None, o))
        out.append((o, "* f*\n"))
        out.append(("* f1\n", o))
    return [(i.replace("@abs", d) if i is not None else None, e.replace("@abs", d) if e is not None else None) for i, e in out]


def show(t):
    return None if t is None else t


def pass_part(prefix, tier, res, d, extra=(), mark="vfcwrapper"):
    vs = variants(d, tier)
    cmds = {}
    orig = {}
    for kind in ("i", "e", "ie"):
        w = d
        fl = (["--include-file", d + "/inc"] if "i" in kind else []) + (["--exclude-file", d + "/exc"] if "e" in kind else [])
        for n in ("inc", "exc"):
            with open(d + "/" + n, "w") as f:
                f.write("nothing nothing\n")
        rc, o, e = vfc(prefix, ["-c", "-O0", "-ffp-contract=off", "--save-temps", "--show-cmd"] + list(extra) + fl + PASSMODS, w)
        if rc:
            res.violation("compiling %s with %s fails: %s" % (PASSMODS, fl, (o + e)[-800:]))
            return 0
        cl = [l for l in o.splitlines() if "opt" in l.split()[0] and mark in l and (d + "/inc" in l or d + "/exc" in l)]
        if len(cl) != len(PASSMODS):
            raise common.HarnessError("cannot find the pass invocations among the driver's commands: %s" % o[-1500:])
        cmds[kind] = []
        for m, l in zip(PASSMODS, cl):
            a = shlex.split(l)
            src = [x for x in a if x.endswith(".ll") and os.path.dirname(x) == d and "vfcwrapper" not in x][0]
            out = a[a.index("-o") + 1]
            cmds[kind].append((a, src, out))
            with open(src) as f:
                t = f.read()
            if 'source_filename = "%s"' % m not in t:
                raise common.HarnessError("unexpected order of compilation")
            orig[m] = bodies(t)
            if set(orig[m]) != set(FUNS) or 0 in orig[m].values():
                raise common.HarnessError("cannot read the functions of %s: %s" % (src, orig[m]))

    def one(j):
        n, (inc, exc) = j
        r = common.Result()
        w = os.path.join(d, "v%d" % n)
        os.mkdir(w)
        for name, t in (("inc", inc), ("exc", exc)):
            if t is not None:
                with open(w + "/" + name, "w", newline="") as f:
                    f.write(t)
        kind = ("i" if inc is not None else "") + ("e" if exc is not None else "")
        for k, m in enumerate(PASSMODS):
            a, src, out = cmds[kind][k]
            o2 = w + "/out.ll"
            a = [o2 if x == out else x.replace(d + "/inc", w + "/inc").replace(d + "/exc", w + "/exc") for x in a]
            rc, o, e = sh(a, cwd=d)
            r.states += 1
            if rc:
                r.violation("include %r, exclude %r: compiling %s fails (%s): %s" % (inc, exc, m, rc, e[-300:]))
                continue
            with open(o2) as f:
                left = bodies(f.read())
            for fn in FUNS:
                want = selected(fn, os.path.join(d, m), inc, exc)
                r.transitions += 1
                r.nontrivial += want
                if left.get(fn) != (0 if want else orig[m][fn]):
                    r.violation("include file %r, exclude file %r: function %s of %s is %sinstrumented (%s of its %d operations left native)"
                                % (inc, exc, fn, m, "not fully " if want else "", left.get(fn), orig[m][fn]))
        common.shutil.rmtree(w, ignore_errors=True)
        return r
    for r in common.pmap(one, list(enumerate(vs))):
        merge(res, r)
    return len(vs)


def merge(res, r):
    for v in r.viols:
        res.violation(v)
    res.states += r.states
    res.transitions += r.transitions
    res.nontrivial += r.nontrivial
    res.traces += r.traces


def run_part(prefix, tier, res, d, st):
    """through the driver, up to the events of the running program"""
    sources(d, "static")
    rows = [([], None, None), (["--function", "f1"], None, None), (["--function=g"], None, None), (["--function", "nosuch"], None, None), (["--function", "a$b"], None, None), (["--function", "f1|g"], None, None), (["--function", "f."], None, None),
            ([], "main f1\nutil f1\nutil f2\n", None), ([], None, "* f1\nutil2 *\n"), ([], "main g*\ndir/* *\n", None), ([], "* f1\n", "* *\n"),
            ([], "* g*\n", "* g1\n"), ([], None, "* *\n"), (["--inst-fcmp"], "* f*\n", "dir/* *\n"), (["-O2"], "dir/util *\n", None)]
    if tier != "quick":
        rows += [(fl, "x.y.c f*\n", e) for fl in ([], ["-O1"], ["-O3"], ["--ddebug"], ["--inst-fma", "--inst-cast"]) for e in (None, "x.y.c *\nmain *\n")]
    bad = [(["--function", "f1", "--include-file", "inc"], "* *\n", None), (["--function", "f1", "--exclude-file", "exc"], None, "* *\n"),
           (["--include-file", "absent"], None, None), (["--exclude-file", "absent"], None, None),
           (["--include-file", "inc"], "main\n", None), (["--exclude-file", "exc"], None, "main f1\nmain_f1\n")]

    def prep(n, inc, exc):
        w = os.path.join(d, "r%d" % n)
        os.mkdir(w)
        for m in MODS + ["top.c"]:
            os.makedirs(os.path.dirname(os.path.join(w, m)), exist_ok=True)
            common.shutil.copyfile(os.path.join(d, m), os.path.join(w, m))
        for name, t in (("inc", inc), ("exc", exc)):
            if t is not None:
                with open(w + "/" + name, "w") as f:
                    f.write(t)
        return w

    def one(j):
        n, (fl, inc, exc) = j
        r = common.Result()
        w = prep(n, inc, exc)
        fl2 = fl + (["--include-file", "inc"] if inc is not None else []) + (["--exclude-file", "exc"] if exc is not None else [])
        args = fl2 + ["-ffp-contract=off"] + MODS + ["top.c", "-o", "prog"]
        rc, o, e = vfc(prefix, args, w)
        if rc:
            r.violation("verificarlo-c %s fails: %s" % (args, (o + e)[-500:]))
            return r
        rc, o, e, ev = run_prog(w + "/prog", st["A"], w + "/log")
        got = [x[1:] for x in ev if x[1][:3] in ("add", "mul")]
        want = []
        one = [x for k in fl for x in [k] if False]
        fun = fl[1] if fl[:1] == ["--function"] else fl[0].split("=")[1] if fl and fl[0].startswith("--function=") else None
        for k, m in enumerate(MODS):
            for i, fn in enumerate(FUNS):
                on = fn == fun if fun else selected(fn, os.path.join(w, m), inc, exc)
                r.transitions += 1
                r.nontrivial += on
                if on:
                    want.append((k, i))
        # every selected call does y*y in float, then c*z, then x+.. in double
        seq = []
        import struct
        hf = lambda v: "%x" % struct.unpack("<I", struct.pack("<f", v))[0]
        hd = lambda v: "%x" % struct.unpack("<Q", struct.pack("<d", v))[0]
        for k, i in want:
            y = i + 1.25
            z = struct.unpack("<f", struct.pack("<f", y * y))[0]
            c = i + 2.0
            seq.append(("mul_float", {hf(y)}))
            seq.append(("mul_double", {hd(c), hd(z)}))
            seq.append(("add_double", {hd(k + 1.5), hd(c * z)}))
        g = [(x[0], {"%x" % int(v, 16) for v in x[1:]}) for x in got]
        r.states += 1
        r.traces += 1
        if rc or g != seq:
            k = next((k for k in range(min(len(g), len(seq))) if g[k] != seq[k]), min(len(g), len(seq)))
            r.violation("%s with include %r exclude %r: status %s, %d operations reach the backend instead of %d, first difference at %d: %s vs %s"
                        % (" ".join(["verificarlo-c"] + args), inc, exc, rc, len(g), len(seq), k, g[k:k + 1], seq[k:k + 1]))
        return r

    def refuse(j):
        n, (fl, inc, exc) = j
        r = common.Result()
        w = prep(1000 + n, inc, exc)
        rc, o, e = vfc(prefix, fl + ["main.c", "-c"], w)
        r.states += 1
        if rc == 0:
            r.violation("verificarlo-c %s -c with include %r exclude %r is accepted" % (" ".join(fl), inc, exc))
        return r
    for r in common.pmap(one, list(enumerate(rows))) + common.pmap(refuse, list(enumerate(bad))):
        merge(res, r)


def run(prefix, tier, res):
    with common.Scratch() as d:
        st = stub(prefix, d, "A")
        os.mkdir(d + "/s")
        os.mkdir(d + "/r")
        sources(d + "/s")
        n = pass_part(prefix, tier, res, os.path.realpath(d + "/s"))
        run_part(prefix, tier, res, os.path.realpath(d + "/r"), st)
    res.count("selection files", n)
    res.bounds = "%d modules x %d functions; every single line over %d module and %d function patterns in either file, pairs of lines, one line in each file, comments/blank/CRLF lines; driver runs observed through a recording backend" % (len(PASSMODS), len(FUNS), len(MODPAT), len(FUNPAT))
    res.sample({"include": "dir/* g*", "exclude": "* f*", "instrumented": "g,g1 of dir/util.c, dir/sub/main.c, dir/a(b).c; g,g1,a$b elsewhere"})
