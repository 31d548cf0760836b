"""C22: every option of every backend, over a grid of values in and out of its domain, on a compiled program."""
import itertools, os
import common
from common import sh
from checks._wrap import *

# values no integer option may take: nothing, words, trailing characters, other notations, out of any int
NONINT = ["", "abc", "10x", "x10", "10.5", "1e1", "0x10", "10,", "--", "nan", "9223372036854775808", "18446744073709551626"]
HUGE = ["2147483648", "4294967296", "4294967306", "4294967320", "4294967349", "9223372036854775807"]
HUGENEG = ["-2147483649", "-4294967286", "-9223372036854775808"]


def case(ws):
    return [(w, w) for w in ws] + [(w.upper(), w) for w in ws] + [(w.capitalize(), w) for w in ws]


def words(ws, anycase=True, extra=()):
    """(accepted spellings, refused ones) of an option with a fixed list of values"""
    good = case(ws) if anycase else [(w, w) for w in ws]
    bad = ["", "0", "1", "foo", ws[0] + "x", ws[0][:-1] if ws[0][:-1] not in ws else "x", "x" + ws[-1], ws[0] + "," + ws[-1]] + list(extra)
    return good, bad


def ints(lo, hi, bad=(), also=()):
    good = [(str(v), str(v)) for v in range(lo, hi + 1)] + [(str(v), str(v)) for v in also]
    return good, NONINT + list(bad)


# backend -> option -> dict(short, ctx: settings that make the option visible, good: [(spelling, canonical)], bad: [...])
def spec(deep):
    o = {}
    seed = ["--seed=12345"]
    seeds = ints(0, 4, (), ("12345", "2147483647", "2147483648", "4294967297", "9223372036854775807"))
    mmode, mbad = words(["ieee", "mca", "pb", "rr"])
    emode, ebad = words(["rel", "abs", "all"])
    spars = ([(v, v) for v in ("0.01", "0.1", "0.25", "0.5", "0.75", "1")] + [("1.0", "1"), ("5e-1", "0.5"), ("0.500", "0.5")],
             ["", "0", "-0", "0.0", "-0.5", "-1", "1.5", "2", "1e10", "inf", "-inf", "nan", "abc", "0.5x", "0.5.5", "0,5"])
    prec = lambda m: ints(1, m, ["0", "-1", "-10"] + HUGENEG)
    o["mca"] = {
        "precision-binary32": dict(ctx=seed, good=prec(24)[0], bad=prec(24)[1], high=["60", "100", "1000", "2147483647"] + HUGE, ieee="f", modes=[[], ["--mode=rr"], ["--mode=pb"]]),
        "precision-binary64": dict(ctx=seed, good=prec(53)[0], bad=prec(53)[1], high=["130", "1000", "2147483647"] + HUGE, ieee="d", modes=[[], ["--mode=rr"], ["--mode=pb"]]),
        "mode": dict(short="m", ctx=seed, good=mmode, bad=mbad + ["full", "ib", "ob"]),
        "error-mode": dict(short="e", ctx=seed + ["--max-abs-error-exponent=-3", "--precision-binary32=12", "--precision-binary64=12"], good=emode, bad=ebad),
        "max-abs-error-exponent": dict(ctx=seed + ["--error-mode=abs"], good=ints(-20, 20)[0], bad=NONINT + HUGE + HUGENEG),
        "seed": dict(short="s", ctx=[], good=seeds[0], bad=seeds[1]),
        "daz": dict(short="d", flag=True, ctx=seed + ["--mode=ieee"]),
        "ftz": dict(short="f", flag=True, ctx=seed + ["--mode=ieee"]),
        "sparsity": dict(short="n", ctx=seed + ["--precision-binary32=8", "--precision-binary64=8"], good=spars[0], bad=spars[1]),
    }
    o["mca_int"] = {
        "precision-binary32": dict(ctx=seed, good=[("24", "24")], bad=NONINT + HUGE + ["0", "1", "23", "25", "53", "-24", "4294967320"]),
        "precision-binary64": dict(ctx=seed, good=[("53", "53")], bad=NONINT + HUGE + ["0", "1", "52", "54", "24", "-53", "4294967349"]),
        "mode": dict(short="m", ctx=seed, good=mmode, bad=mbad),
        "seed": dict(short="s", ctx=[], good=seeds[0], bad=seeds[1]),
        "daz": dict(short="d", flag=True, ctx=seed + ["--mode=ieee"]),
        "ftz": dict(short="f", flag=True, ctx=seed + ["--mode=ieee"]),
        "sparsity": dict(short="n", ctx=seed, good=spars[0], bad=spars[1]),
    }
    bmode, bbad = words(["ieee", "full", "ib", "ob"])
    oper, obad = words(["zero", "one", "rand"])
    o["bitmask"] = {
        "precision-binary32": dict(ctx=seed, good=prec(24)[0], bad=prec(24)[1], high=["25", "100", "2147483647"] + HUGE, ieee="f", modes=[["--operator=" + w] for w in ("zero", "one", "rand")] + [["--mode=full"]]),
        "precision-binary64": dict(ctx=seed, good=prec(53)[0], bad=prec(53)[1], high=["54", "100", "2147483647"] + HUGE, ieee="d", modes=[["--operator=" + w] for w in ("zero", "one", "rand")] + [["--mode=full"]]),
        "mode": dict(short="m", ctx=seed + ["--precision-binary32=10", "--precision-binary64=20"], good=bmode, bad=bbad + ["mca", "rr"]),
        "operator": dict(short="o", ctx=seed + ["--precision-binary32=10", "--precision-binary64=20"], good=oper, bad=obad),
        "seed": dict(short="s", ctx=["--operator=rand", "--precision-binary32=10", "--precision-binary64=20"], good=seeds[0], bad=seeds[1]),
        "daz": dict(short="d", flag=True, ctx=["--mode=ieee"]),
        "ftz": dict(short="f", flag=True, ctx=["--mode=ieee"]),
    }
    # a tolerance beyond the number of bits that can cancel means: never
    o["cancellation"] = {
        "tolerance": dict(short="t", ctx=seed, good=ints(0, 52)[0], bad=NONINT + ["-1", "-10"] + HUGENEG, high=["200", "2147483647"] + HUGE, ieee="fd"),
        "warning": dict(short="w", ctx=seed + ["--tolerance=2"], good=[(w, "WARNING") for w in ("WARNING", "1", "true")], bad=[], same=True),
        "seed": dict(short="s", ctx=["--tolerance=1"], good=seeds[0], bad=seeds[1]),
    }
    imode, ibad = words(["arguments", "operations", "all", "none"])
    pre = ["binary16", "binary32", "bfloat16", "tensorfloat", "fp24", "PXR24"]
    o["vprec"] = {
        "precision-binary32": dict(ctx=[], good=ints(1, 23)[0], bad=NONINT + HUGE + HUGENEG + ["0", "-1", "24", "25", "52", "53", "100"]),
        "precision-binary64": dict(ctx=[], good=ints(1, 52)[0], bad=NONINT + HUGE + HUGENEG + ["0", "-1", "53", "54", "100"]),
        "range-binary32": dict(ctx=[], good=ints(2, 8)[0], bad=NONINT + HUGE + HUGENEG + ["0", "-1", "9", "10", "11", "4294967301"]),
        "range-binary64": dict(ctx=[], good=ints(2, 11)[0], bad=NONINT + HUGE + HUGENEG + ["0", "-1", "12", "100", "4294967301"]),
        "mode": dict(short="m", ctx=["--precision-binary32=10", "--precision-binary64=20"], good=bmode, bad=bbad + ["mca"]),
        "preset": dict(ctx=[], good=[(w, w) for w in pre], bad=["", "binary", "binary128", "foo", "fp2", "fp32", "half", "binary16x"]),
        "error-mode": dict(short="e", ctx=["--max-abs-error-exponent=-3", "--precision-binary32=2", "--precision-binary64=2"], good=emode, bad=ebad),
        "max-abs-error-exponent": dict(ctx=["--error-mode=abs"], good=ints(-20, 4)[0], bad=NONINT + HUGE + HUGENEG),
        "daz": dict(short="d", flag=True, ctx=["--mode=full"]),
        "ftz": dict(short="f", flag=True, ctx=["--mode=full"]),
        "instrument": dict(ctx=["--precision-binary64=20"], good=imode, bad=ibad, same=True),
        "prec-input-file": dict(ctx=[], good=[], bad=["/nonexistent/profile", "/nonexistent"]),
    }
    o["ieee"] = {
        "debug": dict(short="d", flag=True, ctx=[], quiet=True),
        "debug-binary": dict(short="b", flag=True, ctx=[], quiet=True),
        "no-backend-name": dict(short="s", flag=True, ctx=["--debug"], quiet=True),
        "print-new-line": dict(short="n", flag=True, ctx=["--debug"], quiet=True),
        "print-subnormal-normalized": dict(flag=True, ctx=["--debug-binary"], quiet=True),
        "count-op": dict(short="o", flag=True, ctx=[], quiet=True),
    }
    return o


PRESETS = {"binary16": (5, 10), "binary32": (8, 23), "bfloat16": (8, 7), "tensorfloat": (8, 10), "fp24": (7, 16), "PXR24": (8, 15)}


def run(prefix, tier, res):
    deep = tier == "thorough"
    sp = spec(deep)
    with common.Scratch() as d:
        src = os.path.join(HERE, "prog", "settings.c")
        exe = os.path.join(d, "settings")
        plain = os.path.join(d, "plain")
        if not compile_or_violation(prefix, ["-O1", "-ffp-contract=off", "--inst-fma", "--inst-cast", src, "-o", exe, "-lm"], d, res, "settings"):
            return
        rc, o_, e_ = sh([CLANG, "-O1", "-ffp-contract=off", src, "-o", plain, "-lm"])
        if rc:
            raise common.HarnessError(e_)
        native = sh([plain])[1]
        nf = len([l for l in native.split() if len(l) == 8])

        memo = {}

        def lib(b):
            return "libinterflop_%s.so" % b

        def go(args, env=()):
            """args: list of argument vectors; returns (accepted, stdout, stderr, rc)"""
            key = (tuple(tuple(a) for a in args), tuple(env))
            if key not in memo:
                l = ";".join(" ".join(a) for a in args)
                e = {"VFC_BACKENDS": l, "LD_LIBRARY_PATH": prefix + "/lib"}
                e.update(dict(env))
                rc, o, er = sh([exe], env=e, timeout=60)
                memo[key] = (rc == 0, o, er, rc)
            return memo[key]

        def refused(args, why, env=()):
            ok, o, er, rc = go(args, env)
            l = ";".join(" ".join(a) for a in args)
            if o.strip():
                return "'%s' (%s) should be refused, but the program ran (exit %s)" % (l, why, rc)
            if rc == 0 or rc == "timeout" or (isinstance(rc, int) and rc < 0):
                return "'%s' (%s) should be refused with an error, but the exit status is %s" % (l, why, rc)
            if not er.strip():
                return "'%s' (%s) is refused without a message" % (l, why)

        def accepted(args, why):
            ok, o, er, rc = go(args)
            if not ok or not o.startswith("start\n") or len(o.split()) != len(native.split()):
                return "'%s' (%s) should be accepted, but the program ends with %s: %s" % (";".join(" ".join(a) for a in args), why, rc, er.strip()[-300:])

        jobs = []          # (function, kind)

        def job(f, kind):
            jobs.append((f, kind))

        def forms(name, s, v):
            """every way to write option name with value v (None: a flag)"""
            if s.get("flag"):
                return [["--" + name]] + ([["-" + s["short"]]] if s.get("short") else [])
            f = [["--%s=%s" % (name, v)]]
            if v != "":
                f.append(["--" + name, v])
                if s.get("short"):
                    f += [["-" + s["short"], v], ["-" + s["short"] + v]]
            return f

        for b, opts in sp.items():
            L = lib(b)
            job(lambda L=L: accepted([[L]], "no options"), "accepted")
            # unknown options, arguments that are not options, missing values
            for bad in (["--foo"], ["--foo=1"], ["-Z"], ["foo"], ["10"], ["24"], ["53"], ["--", "10"], ["--", "24"], ["--precision"] if b == "ieee" else ["--precision-binary128=10"],
                        ["--"] + ["foo"], ["---"], ["--=1"]):
                job(lambda L=L, bad=bad: refused([[L] + bad], "unknown option or argument"), "refused")
            for n, s in opts.items():
                if s.get("flag"):
                    for v in ("", "1", "true"):
                        job(lambda L=L, n=n, v=v: refused([[L, "--%s=%s" % (n, v)]], "option without value"), "refused")
                    fs = forms(n, s, None)

                    def flag(L=L, fs=fs, s=s, n=n):
                        base = go([[L] + s["ctx"]])
                        outs = [go([[L] + s["ctx"] + f]) for f in fs] + [go([[L] + f + s["ctx"]]) for f in fs] + [go([[L] + s["ctx"] + fs[0] + fs[0]])]
                        for f, x in zip(fs + fs + [fs[0]], outs):
                            if not x[0] or x[1] != outs[0][1]:
                                return "%s %s %s: not accepted as --%s is (exit %s): %s" % (L, " ".join(s["ctx"]), " ".join(f), n, x[3], x[2][-200:])
                        if not s.get("quiet") and outs[0][1] == base[1]:
                            return "%s --%s is accepted but changes nothing" % (L, n)
                        if s.get("quiet") and outs[0][1] != base[1]:
                            return "%s --%s changes the results" % (L, n)
                        if s.get("quiet") and outs[0][2] == base[2]:
                            return "%s --%s is accepted but prints nothing more" % (L, n)
                    job(flag, "accepted")
                    continue
                job(lambda L=L, n=n: refused([[L, "--" + n]], "missing value"), "refused")
                for v in s["bad"]:
                    for f in forms(n, s, v):
                        if f[-1].startswith("--") and len(f) == 2 and f[1] == "--":
                            pass
                        job(lambda L=L, f=f, s=s: refused([[L] + f], "value out of the domain"), "refused")
                    job(lambda L=L, n=n, v=v, s=s: refused([[L] + s["ctx"] + ["--%s=%s" % (n, v)]], "value out of the domain"), "refused")
                    # a later valid value, or a later backend, does not hide it
                    if s["good"]:
                        job(lambda L=L, n=n, v=v, s=s: refused([[L, "--%s=%s" % (n, v), "--%s=%s" % (n, s["good"][0][0])]], "value out of the domain, then a valid one"), "refused")
                for v in s["bad"][:3]:
                    job(lambda L=L, n=n, v=v: refused([[lib("ieee")], [L, "--%s=%s" % (n, v)]], "value out of the domain, second backend"), "refused")
                    job(lambda L=L, n=n, v=v: refused([[L, "--%s=%s" % (n, v)], [lib("ieee")]], "value out of the domain, first backend"), "refused")
                    for k in ("VFC_BACKENDS_LOGGER", "VFC_BACKENDS_SILENT_LOAD", "VFC_BACKENDS_LOGGER_LEVEL"):
                        for kv in ("True", "False", "error"):
                            job(lambda L=L, n=n, v=v, k=k, kv=kv: refused([[L, "--%s=%s" % (n, v)]], "value out of the domain, %s=%s" % (k, kv), ((k, kv),)), "refused")
                for v, c in s["good"]:
                    for f in forms(n, s, v):
                        def good(L=L, f=f, s=s, n=n, c=c):
                            a = [[L] + s["ctx"] + f]
                            m = accepted(a, "value in the domain")
                            if m:
                                return m
                            if go(a)[1] != go([[L] + s["ctx"] + ["--%s=%s" % (n, c)]])[1]:
                                return "'%s' is not taken as --%s=%s" % (" ".join(a[0]), n, c)
                        job(good, "accepted")
                # every pair of distinct values differs; the last of two values wins
                canon = sorted(set(c for _, c in s["good"]))

                def distinct(L=L, s=s, n=n, canon=canon):
                    seen = {}
                    for c in canon:
                        o = go([[L] + s["ctx"] + ["--%s=%s" % (n, c)]])[1]
                        if o in seen and not s.get("same"):
                            return "%s: --%s=%s and --%s=%s compute the same" % (" ".join([L] + s["ctx"]), n, seen[o], n, c)
                        if s.get("same") and seen and o not in seen:
                            return "%s: --%s=%s changes the operations" % (L, n, c)
                        seen[o] = c
                if canon:
                    job(distinct, "distinct")
                few = canon if len(canon) < 9 or deep else canon[:3] + canon[-3:]
                for c1, c2 in itertools.permutations(few, 2):
                    def last(L=L, s=s, n=n, c1=c1, c2=c2):
                        two = go([[L] + s["ctx"] + ["--%s=%s" % (n, c1), "--%s=%s" % (n, c2)]])
                        one = go([[L] + s["ctx"] + ["--%s=%s" % (n, c2)]])
                        if two[:2] != one[:2]:
                            return "%s --%s=%s --%s=%s is not taken as --%s=%s" % (L, n, c1, n, c2, n, c2)
                    job(last, "pairs")
                for v, extra in itertools.product(s.get("high", ()), s.get("modes", [[]])):
                    def high(L=L, s=s, n=n, v=v, extra=extra):
                        a = [[L] + s["ctx"] + extra + ["--%s=%s" % (n, v)]]
                        x = go(a)
                        if not x[0]:
                            return refused(a, "huge value")
                        got, nat = x[1].split(), native.split()
                        w = [16 if t == "d" else 8 for t in s["ieee"]]
                        # casts to float are binary32 operations
                        if [l for l in got if len(l) in w] != [l for l in nat if len(l) in w]:
                            return "'%s' is neither refused nor without effect" % " ".join(a[0])
                    job(high, "huge")
            # ordered pairs of settings of different options
            reps = []
            for n, s in opts.items():
                if n == "prec-input-file":
                    continue
                if s.get("flag"):
                    reps.append((n, ["--" + n], True))
                else:
                    cs = sorted(set(c for _, c in s["good"]))
                    pick = [cs[0], cs[len(cs) // 2], cs[-1]] if not deep else cs[:: max(1, len(cs) // 8)] + [cs[-1]]
                    for c in dict.fromkeys(pick):
                        reps.append((n, ["--%s=%s" % (n, c)], True))
                    if s["bad"]:
                        reps.append((n, ["--%s=%s" % (n, s["bad"][1])], False))
            group = lambda n: "fmt" if n == "preset" or n.startswith(("precision", "range")) else n
            for x, y in itertools.combinations(reps, 2):
                if x[0] == y[0]:
                    continue
                for fix in ([], ["--seed=7"]):
                    if fix and "seed" not in opts:
                        continue
                    if fix and "seed" in (x[0], y[0]):
                        continue
                    if not fix and "seed" in opts and "seed" not in (x[0], y[0]) and x[2] and y[2]:
                        continue

                    def pair(L=L, x=x, y=y, fix=fix):
                        a, c = [[L] + fix + x[1] + y[1]], [[L] + fix + y[1] + x[1]]
                        if not (x[2] and y[2]):
                            return refused(a, "one value out of the domain") or refused(c, "one value out of the domain")
                        m = accepted(a, "two settings") or accepted(c, "two settings")
                        if m:
                            return m
                        if "preset" in (x[0], y[0]) and group(x[0]) == group(y[0]) == "fmt":
                            return          # the last one decides: checked below
                        if go(a)[1] != go(c)[1]:
                            return "%s: %s and %s do not commute" % (" ".join([L] + fix), x[1][0], y[1][0])
                    job(pair, "pairs")
        # presets are their documented range and precision, and yield to later settings
        V = lib("vprec")
        for p, (r, m) in PRESETS.items():
            eq = ["--precision-binary32=%d" % m, "--precision-binary64=%d" % m, "--range-binary32=%d" % r, "--range-binary64=%d" % r]
            job(lambda p=p, eq=eq: None if go([[V, "--preset=" + p]])[:2] == go([[V] + eq])[:2] else "--preset=%s is not %s" % (p, " ".join(eq)), "presets")
            for k in range(4):
                for v in (2, 5):
                    n = eq[k].split("=")[0]

                    def later(p=p, eq=eq, k=k, v=v, n=n):
                        e2 = list(eq)
                        e2[k] = "%s=%d" % (n, v)
                        if go([[V, "--preset=" + p, e2[k]]])[:2] != go([[V] + e2])[:2]:
                            return "--preset=%s %s is not %s" % (p, e2[k], " ".join(e2))
                        if go([[V, e2[k], "--preset=" + p]])[:2] != go([[V] + eq])[:2]:
                            return "%s --preset=%s is not %s" % (e2[k], p, " ".join(eq))
                    job(later, "presets")
        # absolute errors below anything the formats hold change nothing
        for b, e, x in itertools.product(("mca", "vprec"), ("-5000", "-20000", "-1000000", "-2147482000", "-2147483647", "-2147483648"), ("abs", "all")):
            def tiny(b=b, e=e, x=x):
                a = [[lib(b), "--error-mode=" + x, "--max-abs-error-exponent=" + e] + (["--precision-binary32=200", "--precision-binary64=200"] if b == "mca" and x == "all" else [])]
                m = accepted(a, "value in the domain")
                if m:
                    return m
                got, nat = go(a)[1].split()[1:], native.split()[1:]
                for g, n in zip(got, nat):
                    k = (23, 255) if len(n) == 8 else (52, 2047)
                    if int(n, 16) >> k[0] & k[1] and g != n:
                        return "'%s' changes %s into %s" % (" ".join(a[0]), n, g)
            job(tiny, "tiny")
        # the ieee settings of every backend really are the native operations
        for b, m in (("ieee", []), ("mca", ["--mode=ieee"]), ("mca_int", ["--mode=ieee"]), ("bitmask", ["--mode=ieee"]), ("vprec", ["--mode=ieee"]), ("vprec", [])):
            job(lambda b=b, m=m: None if go([[lib(b)] + m])[1] == native else "%s %s: not the native results" % (lib(b), " ".join(m)), "ieee")

        for m, kind in common.pmap(lambda j: (j[0](), j[1]), jobs):
            res.transitions += 1
            res.count(kind)
            if m:
                res.violation(m)
        res.states = len(memo)
        res.traces = len(memo)
        res.nontrivial = sum(1 for v in memo.values() if v[1] != native)
        for k in list(memo)[:4]:
            res.sample(";".join(" ".join(a) for a in k[0]) + " -> " + ("accepted" if memo[k][0] else "refused (%s)" % memo[k][3]))
    res.bounds = "all %d options of the 6 backends; every value of the bounded integer domains (precisions, ranges, tolerances 0-52, exponents), every word in three letter cases, all spellings (--o=v, --o v, -o v, -ov), %s out-of-domain values per option, pairs of settings in both orders, repeated settings, missing and superfluous values" % (sum(len(o) for o in sp.values()), "8-25")
