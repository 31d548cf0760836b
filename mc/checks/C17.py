"""VPREC per-function settings: all call trees x profiles x modes against the reference semantics of _calls."""
import itertools, multiprocessing, os
import common
from checks import _calls, C16
from checks._calls import Run, forests, FULL, LETTERS
from checks._wrap import stub, run_prog

VPREC = C16.VPREC
# arguments of the callees: name, type
ARGS = {"f": ([("x", 1)], [("return_value", 1)]), "g": ([("y", 0)], [("return_value", 0)]),
        "h": ([("v", 4), ("w", 3)], [("v", 4), ("w", 3)]), "s": ([], []), "main": ([], [])}
USES = {"f": (0, 1), "g": (1, 0), "h": (1, 1), "s": (0, 1), "main": (0, 1)}
FULLARG = {0: (23, 8), 1: (52, 11), 3: (23, 8), 4: (52, 11)}
# settings of operations (p64, r64, p32, r32) and of arguments (double, float)
OPS = {"A": (10, 5, 7, 4), "B": (3, 3, 2, 3), "C": (30, 11, 23, 8), "D": (52, 2, 12, 2), "E": (1, 8, 1, 5)}
ARG = {"a": ((12, 6), (8, 5)), "b": ((2, 4), (2, 3)), "c": ((52, 3), (23, 3)), "d": ((40, 11), (16, 8))}
G = {}


def callee(key):
    return "main" if key == "main" else G["sites"][key][0]


def entry(key, ops, ain, aout):
    """ops: a key of OPS or None (full); ain/aout: key of ARG or None, one per argument (cycled)"""
    i, o = ARGS[callee(key)]

    def prec(l, s):
        return [ARG[s[n % len(s)]][0 if t in (1, 4) else 1] if s else FULLARG[t] for n, (nm, t) in enumerate(l)]
    return (OPS[ops] if ops else FULL, prec(i, ain), prec(o, aout))


# number of calls and range of the values given by the profile read (an empty one first)
PAST = [(1, -2147483648, 2147483647), (70001, 2147483647, -2147483648), (0, 0, 1)]


def profile_text(entries, order=1, past=PAST[0]):
    L = []
    for k, (ops, ain, aout) in list(entries.items())[::order]:
        c = callee(k)
        i, o = ARGS[c]
        L.append("\t".join(map(str, [G["ids"][k], 0, 0, USES[c][0], USES[c][1]] + list(ops) + [len(i), len(o), past[0]])))
        for w, l, p in (("input:", i, ain), ("output:", o, aout)):
            for (nm, t), (a, b) in zip(l, p):
                L.append("%s\t%s\t%d\t%d\t%d\t%d\t%d" % (w, nm, t, a, b, past[1], past[2]))
    return "".join(l + "\n" for l in L)


def one(job):
    n, (scripts, entries, imode, vmode, cli, extra, order) = job
    w = G["w"]
    p, q = "%s/in.%d" % (w, n), "%s/out.%d" % (w, n)
    conf = "%s --mode=%s" % (VPREC, vmode)
    if imode:
        conf += " --instrument=" + imode
    if entries is not None:
        with open(p, "w") as f:
            f.write(profile_text(entries, order, PAST[n % 3]))
        conf += " --prec-input-file=" + p
    conf += " --prec-output-file=" + q
    if cli != FULL:
        conf += " --precision-binary64=%d --range-binary64=%d --precision-binary32=%d --range-binary32=%d" % cli
    if extra == "log":
        conf += " --prec-log-file=%s/log.%d" % (w, n)
    rc, o, e, ev = run_prog(w + "/calls", conf, "%s/nolog.%d" % (w, n), [s + ")" for s in scripts], {"VFC_BACKENDS_LOGGER": "False", "LD_LIBRARY_PATH": G["prefix"] + "/lib"})
    m = Run(entries, imode or "none", vmode, cli, fast=True).main(scripts)
    what = "scripts %s (--instrument=%s --mode=%s, command line %s, profile %s)" % (
        scripts if len(scripts) < 4 else "%s..%s" % (scripts[0], scripts[-1]), imode, vmode, cli, entries)
    ops = len(m.T)
    try:
        if rc:
            return ops, what + ": status %s: %s" % (rc, e[-300:])
        out = o.split()
        # the property of rounding itself leaves the half of the smallest subnormal open
        if out != m.T:
            m0, m = m, Run(entries, imode or "none", vmode, cli, fast=True, up=True).main(scripts)
            if out != m.T:
                m = m0
        if out != m.T:
            if len(scripts) > 1:      # find the script alone
                for s in scripts:
                    r, msg = one((n, ([s], entries, imode, vmode, cli, extra, order)))
                    if msg:
                        return ops, msg
            k = next((k for k in range(min(len(out), len(m.T))) if out[k] != m.T[k]), -1)
            return ops, "%s: value %d of %d is %s, the profile requires %s" % (what, k, len(m.T), out[k:k + 1], m.T[k:k + 1])
        # the written profile keeps the settings of the one read, full precision for the others
        prof, bad = C16.read_profile(q)
        if bad:
            return ops, what + ": written profile: " + bad[0]
        want = {G["ids"][k]: (entries or {}).get(k) or entry(k, None, None, None) for k in set(entries or {}) | set(m.calls) if k == "main" or callee(k) in ARGS}
        got = {i: (tuple(map(int, h[5:9])), [(int(a[2]), int(a[3])) for a in ins], [(int(a[2]), int(a[3])) for a in outs]) for i, (h, ins, outs) in prof.items()}
        if got != want:
            d = {i: (got.get(i), want.get(i)) for i in set(got) | set(want) if got.get(i) != want.get(i)}
            return ops, "%s: settings of the written profile (written, expected): %s" % (what, d)
        # counts and ranges are those of the profile read, extended by those of the run
        past = PAST[n % 3]
        for k in m.calls:
            i = G["ids"].get(k)
            if i not in prof:
                continue
            listed = k in (entries or {})
            h, ins, outs = prof[i]
            if int(h[11]) != m.calls[k] + listed * past[0]:
                return ops, "%s: %s is counted %s times, called %d times after %d" % (what, i, h[11], m.calls[k], listed * past[0])
            for io, l in (("i", ins), ("o", outs)):
                for pos, a in enumerate(l):
                    if (k, io, pos) in m.rng:
                        lo, hi = m.rng[k, io, pos]
                        if listed:
                            lo, hi = min(lo, past[1]), max(hi, past[2])
                        if (int(a[4]), int(a[5])) != (lo, hi):
                            return ops, "%s: %s %s of %s is given the range %s, its values span %s" % (what, "argument" if io == "i" else "result", a[1], i, (a[4], a[5]), (lo, hi))
        return ops, None
    except OSError as x:
        return ops, what + ": " + str(x)
    finally:
        for f in (p, q, "%s/log.%d" % (w, n)):
            if os.path.exists(f):
                os.unlink(f)


def site_ids(prefix, w, st, sites, res):
    scripts = [s for n in (1, 2) for s in forests(n, LETTERS)] + list(forests(3, "fgh")) + ["q%s%s))" % (a, b + ")") for a in "fFgh" for b in "fFgh"]
    scripts += ["q" + a + ")" + ")" for a in LETTERS]
    ids = {}
    rc, o, e, ev = run_prog(w + "/calls", st["A"], w + "/log", ["#"] + [s + ")" for s in scripts], {"VFC_BACKENDS_LOGGER": "False"})
    m = Run().main(scripts)
    got = [x for x in ev if x[1] in ("enter", "exit")]
    if rc or len(got) != len(m.ev):
        res.violation("covering run: status %s, %d events instead of %d: %s" % (rc, len(got), len(m.ev), e[-300:]))
        return None
    for g, x in zip(got, m.ev):
        if ids.setdefault(x[1], g[3]) != g[3]:
            res.violation("call site %s has identifiers %s and %s" % (x[1], ids[x[1]], g[3]))
            return None
    return ids


def jobs(tier, keys):
    full = tier != "quick"
    IM = ["none", "arguments", "operations", "all", None]
    VM = ["full", "ib", "ob", "ieee"]
    small = [s for n in (0, 1, 2) for s in forests(n, LETTERS)]
    three = list(forests(3, "fgh")) + list(forests(3, "Fqc")) + list(forests(3, "fq")) + list(forests(3, "gc"))
    CLI = [FULL, (20, 9, 12, 6)]
    # no profile at all
    for im, vm, cli in itertools.product(IM, VM, CLI + [(5, 3, 3, 3)]):
        yield small + three, None, im, vm, cli, None, 1
    # one entry, all of its settings
    for k in keys:
        c = callee(k)
        rel = [s for s in small + three if k == "main" or k[1] in s or k[1] == "s"]
        sets = [(o, None, None) for o in OPS]
        if ARGS[c][0]:
            sets += [(None, i, None) for i in ARG] + [(None, None, o) for o in ARG] + [("A", "a", "b"), ("B", "ba", "ab"), (None, "ab", "ba")]
        for s, im, vm, cli in itertools.product(sets, IM[:4], VM, CLI):
            if not full and cli != FULL and s[0] not in ("A", None):
                continue
            yield rel, {k: entry(k, *s)}, im, vm, cli, None, 1
    # every pair of entries with different settings
    for k1, k2 in itertools.permutations(keys, 2):
        rel = [s for s in small + three if any(k == "main" or k[1] in s or k[1] == "s" for k in (k1, k2))]
        for im in (["all", "operations"] if not full else IM[:4]):
            yield rel if full else rel[::3], {k1: entry(k1, "A", "a", "b"), k2: entry(k2, "B", "b", "a")}, im, "full", (20, 9, 12, 6), "log" if im == "all" else None, 1
    # every assignment of settings to the sites of a small universe
    uni = ["main", ("main", "f"), ("main", "g"), ("f", "g"), ("g", "f"), ("f", "f"), ("main", "h")] + ([("h", "g")] if full else [])
    sc = [s for n in (1, 2, 3) for s in forests(n, "fg")] + ["h)", "hg))", "hf))", "fh))", "h)f)", "f)h)g)", "hgf)))", "gf)h))f)"]
    for t in itertools.product((None, "A", "B"), repeat=len(uni)):
        e = {k: entry(k, x, "a" if x == "A" else "b", "b" if x == "A" else "a") for k, x in zip(uni, t) if x}
        yield sc, e, "all", "full", FULL, None, -1 if t[0] else 1
    # deep recursion and long histories
    e = {k: entry(k, "AB"[n % 2], "ab"[n % 2], "ba"[n % 2]) for n, k in enumerate(keys)}
    for s in ["f" * 200 + ")" * 200, "fg" * 60 + ")" * 120, "f)g)h)" * 40, "q" * 50 + "f" + ")" * 51, "c" * 20 + "g" + ")" * 21]:
        for im in IM[:4]:
            yield [s], e, im, "full", FULL, None, 1
    # the full table
    for im, vm, order in itertools.product(IM[:4], VM, (1, -1)):
        yield small + three, e, im, vm, (20, 9, 12, 6), None, order
    if full:
        four = list(forests(4, "fgh")) + list(forests(4, "fqc"))
        for im, vm in itertools.product(IM[:4], VM):
            for i in range(0, len(four), 600):
                yield four[i:i + 600], e, im, vm, FULL, None, 1


def vet(prefix, tier, res, w):
    """malformed or empty profiles leave the process in control: refused or ignored, never a crash"""
    good = profile_text({("main", "f"): entry(("main", "f"), "A", "a", "b")})
    rows = [("", 0), ("\n", None), (good, 0), (good.rstrip("\n"), 0), (good + good, None), (good.replace("\t10\t", "\t99\t"), 1), (good.replace("\t10\t", "\t-1\t"), 1),
            (good.replace("\t10\t", "\tx\t"), 1), (good.split("\n")[0] + "\n", 1), (good.split("\n")[0][:40], None), ("a\tb\n", None), ("x" * 100000, None)]
    for n, (t, want) in enumerate(rows):
        with open(w + "/vet", "w") as f:
            f.write(t)
        rc, o, e, ev = run_prog(w + "/calls", VPREC + " --instrument=all --prec-input-file=" + w + "/vet", w + "/nolog", ["f)g))"], {"VFC_BACKENDS_LOGGER": "False", "LD_LIBRARY_PATH": prefix + "/lib"})
        res.states += 1
        if rc not in (0, 1) or (want is not None and rc != want and not (want == 1 and rc == 1)):
            res.violation("profile %r: status %s%s %s" % (t[:200], rc, "" if want is None else " instead of %d" % want, e[-200:]))


def run(prefix, tier, res):
    with common.Scratch() as d:
        d = os.path.realpath(d)
        st = stub(prefix, d, "A")
        sites = C16.build(prefix, d, ("-O0",), res)
        if not sites:
            return
        G.update(sites=sites, w=d, prefix=prefix)
        ids = site_ids(prefix, d, st, sites, res)
        if ids is None:
            return
        G["ids"] = ids
        keys = sorted((k for k in ids), key=str)
        J = list(enumerate(jobs(tier, keys)))
        with multiprocessing.Pool(common.NPROC) as pool:
            for (n, j), (ops, msg) in zip(J, pool.imap(one, J, chunksize=4)):
                res.states += len(j[0])
                res.transitions += ops
                res.traces += 1
                res.nontrivial += 1
                if msg and len(res.viols) < 5:
                    res.violation(msg)
        res.count("profiles", len(J))
        vet(prefix, tier, res, d)
    res.bounds = ("%d call sites; no entry, one entry with every setting, every pair of entries, every assignment of {unlisted, A, B} to a universe of %d sites; 4 instrumentation x 4 rounding modes; all call trees of up to %d calls, recursion to depth 200"
                  % (len(keys), 7 if tier == "quick" else 8, 3 if tier == "quick" else 4))
    res.sample({"script": "fg))", "profile": "main/f at (10,5), f/g at (3,3)", "checked": "each value of the program and the profile written back"})
