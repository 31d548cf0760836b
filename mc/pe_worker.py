"""Runs the real vfc_precexp on planned profiles and acceptance predicates.  One shard; prints a JSON report."""
import contextlib, csv, io, itertools, json, os, shutil, signal, sys, time, traceback, warnings

warnings.simplefilter("ignore")
TOOL, SHARD, NSH, TIER, BASE = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
import verificarlo.optimize.precexp as PE

REP = {"states": 0, "transitions": 0, "nontrivial": 0, "traces": 0, "viols": [], "samples": [], "counters": {}}
FLT, DBL, FLTP, DBLP = 0, 1, 3, 4
TOP = {FLT: (23, 8), DBL: (52, 11), FLTP: (23, 8), DBLP: (52, 11)}
OPS = {"Prec64": (1, 52), "Range64": (2, 11), "Prec32": (1, 23), "Range32": (2, 8)}
QUICK = TIER == "quick"


def violation(m):
    if len(REP["viols"]) < 12:
        REP["viols"].append(m[:3000])


def count(k, n=1):
    REP["counters"][k] = REP["counters"].get(k, 0) + n


class Fn:
    def __init__(self, name, parent="main", lib=0, intr=0, flt=0, dbl=1, ins=(), outs=(), calls=1, line=5, site=1, file="p.c"):
        self.id = "%s/%s/%s/%d/%d" % (file, parent, name, line, site)
        self.name, self.parent, self.lib, self.intr, self.flt, self.dbl = name, parent, lib, intr, flt, dbl
        self.ins, self.outs, self.calls = list(ins), list(outs), calls

    def text(self):
        o = "\t".join(map(str, [self.id, self.lib, self.intr, self.flt, self.dbl, 52, 11, 23, 8, len(self.ins), len(self.outs), self.calls])) + "\n"
        for io_, l in (("input:", self.ins), ("output:", self.outs)):
            for k, t in enumerate(l):
                o += "\t".join(map(str, [io_, self.arg(io_, k), t, *TOP[t], *self.rng(io_, k)])) + "\n"
        return o

    def arg(self, io_, k):
        return "%s%d" % (io_[0], k) if io_ == "input:" else ("return_value" if k == 0 else "o%d" % k)

    def rng(self, io_, k):
        return -3 - k - (io_ == "output:"), 4 + k

    def ops(self):
        """settings of operations it uses, explored when compiled by verificarlo"""
        if self.lib or self.intr:
            return []
        return [(self.id + "|" + f, *OPS[f]) for f in OPS if (self.dbl if f.endswith("64") else self.flt)]

    def args(self):
        r = []
        for n, l in (("in", self.ins), ("out", self.outs)):
            for k, t in enumerate(l):
                r += [("%s|%s%d|Prec" % (self.id, n, k), 1, TOP[t][0]), ("%s|%s%d|Range" % (self.id, n, k), 2, TOP[t][1])]
        return r


def settings(fns, mode):
    r = []
    for f in fns:
        if mode in ("arguments", "all"):
            r += f.args()
        if mode in ("operations", "all"):
            r += f.ops()
    return r


def accepts(pred, cfg):
    get = lambda k: cfg.get(k, 1000)
    for p in pred:
        if p[0] == "min" and get(p[1]) < p[2]:
            return False
        if p[0] == "sum" and sum(get(k) for k in p[2:]) < p[1]:
            return False
        if p[0] == "in" and get(p[1]) < 64 and not p[2] >> get(p[1]) & 1:
            return False
        if p[0] == "hang" and get(p[1]) < p[2]:
            return False
        if p[0] in ("full", "reffail"):
            return False
    return True


_n = [0]


def launch(fns, pred, argv, names=("run", "cmp"), extra=(), timeout=120, pre=None):
    _n[0] += 1
    d = "%s/s%d.%d" % (BASE, SHARD, _n[0])
    os.makedirs(d)
    for n in names:
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.symlink(TOOL, p)
    with open(d + "/plan", "w") as f:
        f.write("".join("\t".join(map(str, p)) + "\n" for p in list(pred) + list(extra)))
    with open(d + "/profile", "w") as f:
        f.write("".join(x.text() for x in fns))
    if pre:
        pre(d)
    pid = os.fork()
    if pid == 0:
        rc = 99
        try:
            os.setsid()
            os.chdir(d)
            fd = os.open(d + "/log.txt", os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = open(1, "w", closefd=False)
            sys.stderr = open(2, "w", closefd=False)
            os.environ.update(PE_PLAN=d + "/plan", PE_PROFILE=d + "/profile", PE_LOG=d + "/tested")
            os.environ.pop("VFC_BACKENDS", None)
            sys.argv = ["vfc_precexp"] + [a.replace("@", d) for a in argv]
            try:
                PE.main()
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
                rc = 98
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(rc & 255)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            rc = os.waitstatus_to_exitcode(st)
            break
        if time.time() - t0 > timeout:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            rc = "does not terminate"
            break
        time.sleep(0.005)
    with contextlib.suppress(ProcessLookupError):
        os.killpg(pid, signal.SIGKILL)
    return d, rc


def read(path):
    with open(path) as f:
        return list(csv.DictReader(f))


def results(d, fns, mode):
    """settings of the exported tables; the description columns must be those of the profile"""
    cfg, bad = {}, []
    byid = {f.id: f for f in fns}
    files = {"operations": ("OperationsResults.csv", None), "arguments": (None, "ArgumentsResults.csv"), "all": ("AllOpsResults.csv", "AllArgsResults.csv")}[mode]
    if files[0]:
        rows = read(d + "/vfc_exp_data/" + files[0])
        if sorted(r["ID"] for r in rows) != sorted(byid):
            bad.append("functions %s" % [r["ID"] for r in rows])
        for r in rows:
            f = byid.get(r["ID"])
            if not f:
                continue
            got = [int(r[k]) for k in ("Lib", "Int", "Float", "Double", "Ninputs", "Noutputs", "Ncalls")]
            if got != [f.lib, f.intr, f.flt, f.dbl, len(f.ins), len(f.outs), f.calls]:
                bad.append("description of %s: %s" % (f.id, got))
            for k in OPS:
                cfg[f.id + "|" + k] = int(r[k])
    if files[1]:
        rows = read(d + "/vfc_exp_data/" + files[1])
        seen = {}
        for r in rows:
            f = byid.get(r["ID"])
            n = seen.setdefault((r["ID"], r["IO"]), 0)
            seen[(r["ID"], r["IO"])] += 1
            if not f:
                bad.append("argument of %s" % r["ID"])
                continue
            l = f.ins if r["IO"] == "input:" else f.outs
            if n >= len(l) or r["ArgID"] != f.arg(r["IO"], n) or int(r["Type"]) != l[n] or (int(r["Min"]), int(r["Max"])) != f.rng(r["IO"], n):
                bad.append("argument row %s" % r)
                continue
            for k in ("Prec", "Range"):
                cfg["%s|%s%d|%s" % (f.id, "in" if r["IO"] == "input:" else "out", n, k)] = int(r[k])
        want = {}
        for f in fns:
            for io_, l in (("input:", f.ins), ("output:", f.outs)):
                if l:
                    want[(f.id, io_)] = len(l)
        if seen != want:
            bad.append("arguments of %s" % seen)
    return cfg, bad


def filecfg(path):
    cfg = {}
    L = open(path).read().splitlines()
    i = 0
    while i < len(L):
        t = L[i].split("\t")
        if len(t) != 12:
            return None
        for k, f in enumerate(("Prec64", "Range64", "Prec32", "Range32")):
            cfg[t[0] + "|" + f] = int(t[5 + k])
        ni, no = int(t[9]), int(t[10])
        for a in range(ni + no):
            i += 1
            u = L[i].split("\t")
            if len(u) != 7 or u[0] != ("input:" if a < ni else "output:"):
                return None
            for k, f in ((3, "Prec"), (4, "Range")):
                cfg["%s|%s%d|%s" % (t[0], "in" if a < ni else "out", a if a < ni else a - ni, f)] = int(u[k])
        i += 1
    return cfg


def initial(fns):
    c = {}
    for f in fns:
        for k, (lo, hi) in OPS.items():
            c[f.id + "|" + k] = hi
        for k, lo, hi in f.args():
            c[k] = hi
    return c


def decide(job):
    tag, fns, mode, pred = job["tag"], job["fns"], job["mode"], job["pred"]
    argv = job.get("argv", ["run", "cmp"]) + ([] if mode == "all" and not job.get("explicit") else ["-m", mode]) + job.get("opts", [])
    d, rc = launch(fns, pred, argv, job.get("names", ("run", "cmp")), job.get("extra", ()), pre=job.get("pre"))
    try:
        what = "%s: vfc_precexp %s, accepted when %s" % (tag, " ".join(argv), [tuple(p) for p in pred] or "always")
        out = open(d + "/log.txt").read()[-800:] if os.path.exists(d + "/log.txt") else ""
        tested = []
        if os.path.exists(d + "/tested"):
            for l in open(d + "/tested"):
                t = l.rstrip("\n").split("\t")
                if t[0] == "RUN":
                    tested.append((t[1], dict((x.rsplit("=", 1)[0], int(x.rsplit("=", 1)[1])) for x in t[2:])))
        REP["states"] += len(tested)
        REP["transitions"] += 2 * len(tested)
        if job.get("fails"):
            if rc == "does not terminate" or rc == 0 or rc == 98:
                violation("%s: ends with %s\n%s" % (what, rc, out))
            REP["nontrivial"] += 1
            return
        if rc != 0:
            violation("%s: ends with %s\n%s" % (what, rc, out))
            return
        sel = job.get("selected", fns)
        cfg, bad = results(d, sel, mode)
        if bad:
            violation("%s: the results table does not describe the profile: %s" % (what, bad[:3]))
            return
        want_inst = mode
        vm = job.get("vmode", "ob")
        for b, _ in tested:
            o = b.split()
            if "--mode=" + vm not in o or "--instrument=" + want_inst not in o or not o[0].endswith("libinterflop_vprec.so"):
                violation("%s: a candidate is run under %r" % (what, b))
                return
        full = initial(sel)
        full.update(cfg)
        fin = filecfg(d + "/vfc_config.txt")
        if fin is None or fin != full:
            violation("%s: the configuration left in vfc_config.txt is not the one reported: %s" % (
                what, "unreadable" if fin is None else [(k, fin.get(k), full.get(k)) for k in sorted(set(fin) | set(full)) if fin.get(k) != full.get(k)][:4]))
            return
        exp = settings(sel, mode)
        keys = {k for k, _, _ in exp}
        # used or not explored settings: those that are neither explored nor unused operations stay full
        ini = initial(sel)
        for f in sel:
            for k in OPS:
                key = f.id + "|" + k
                if key in keys:
                    continue
                used = f.dbl if k.endswith("64") else f.flt
                if (mode == "arguments" or f.lib or f.intr or used) and full[key] != ini[key]:
                    violation("%s: %s was not to be explored but is %s" % (what, key, full[key]))
                    return
            for k, lo, hi in f.args():
                if k not in keys and full[k] != hi:
                    violation("%s: %s was not to be explored but is %s" % (what, k, full[k]))
                    return
        if not accepts(pred, full):
            violation("%s: the reported settings are rejected: %s" % (what, {k: full[k] for k in sorted(keys)}))
            return
        rel = lambda c: tuple(c.get(k) for k in sorted(keys))
        if rel(full) not in {rel(c) for _, c in tested}:
            violation("%s: the reported settings were never tried: %s" % (what, {k: full[k] for k in sorted(keys)}))
            return
        if not job.get("nonmonotone"):
            for k, lo, hi in exp:
                if not lo <= full[k] <= hi:
                    violation("%s: %s = %s" % (what, k, full[k]))
                    return
                if full[k] > lo and accepts(pred, dict(full, **{k: full[k] - 1})):
                    violation("%s: %s is left at %d although %d is accepted too (settings: %s)" % (what, k, full[k], full[k] - 1, {x: full[x] for x in sorted(keys)}))
                    return
        else:
            for k, lo, hi in exp:
                if not lo <= full[k] <= hi:
                    violation("%s: %s = %s" % (what, k, full[k]))
                    return
        if any(full[k] not in (lo, hi) for k, lo, hi in exp):
            REP["nontrivial"] += 1
        if len(REP["samples"]) < 2:
            REP["samples"].append({"scenario": what, "candidates tried": len(tested), "settings": {k: full[k] for k in sorted(keys)}})
    finally:
        shutil.rmtree(d, ignore_errors=True)


MODES = ("operations", "arguments", "all")


def one():
    return [Fn("f", flt=1, dbl=1, ins=(DBL, FLT), outs=(DBL, FLT), calls=3)]


def ptrs():
    return [Fn("f", flt=0, dbl=1, ins=(DBLP, FLTP), outs=(FLTP, DBLP), calls=3)]


def part_a():
    """one setting with every threshold, the others free"""
    for nm, mk in (("scalars", one), ("pointers", ptrs)):
        for mode in MODES:
            if nm == "pointers" and mode == "operations":
                continue
            for k, lo, hi in settings(mk(), mode):
                for v in range(lo, hi + 1):
                    yield dict(tag="one threshold, " + nm, fns=mk(), mode=mode, pred=[("min", k, v)])


def part_b():
    """two settings bound together"""
    f = [Fn("f", flt=1, dbl=1, ins=(DBL,), outs=(FLT,), calls=3)]
    for mode in MODES:
        s = settings(f, mode)
        for (a, la, ha), (b, lb, hb) in itertools.combinations(s, 2):
            lo, hi = la + lb, ha + hb
            for K in sorted({lo + 1, (lo + hi) // 2, hi - 1, hi}) if QUICK else range(lo, hi + 1):
                yield dict(tag="two settings share a budget", fns=f, mode=mode, pred=[("sum", K, a, b)])


def part_c():
    """every assignment of low/middle/full thresholds"""
    f = [Fn("f", flt=1, dbl=1, calls=2)]
    for mode, fns in (("operations", f), ("arguments", [Fn("g", ins=(FLT,), outs=(DBL,), calls=2)]), ("all", [Fn("g", flt=1, dbl=0, ins=(FLT,), calls=2)])):
        s = settings(fns, mode)
        for c in itertools.product((0, 1, 2) if QUICK else (0, 1, 2, 3, 4), repeat=len(s)):
            pred = [("min", k, (lo, (lo + hi) // 2 + 1, hi, lo + 1, hi - 1)[x]) for (k, lo, hi), x in zip(s, c)]
            yield dict(tag="all thresholds", fns=fns, mode=mode, pred=pred)


def distinct(fns, mode):
    """a different middle threshold on each setting"""
    p = []
    for n, (k, lo, hi) in enumerate(settings(fns, mode)):
        p.append(("min", k, lo + (7 * n + 3) % (hi - lo + 1)))
    return p


def part_d():
    """profiles: orders, ties, kinds of functions"""
    kinds = [dict(), dict(ins=(DBL,)), dict(ins=(FLT, DBLP), outs=(DBL,), flt=1), dict(lib=1, ins=(DBL,), outs=(DBL,)), dict(intr=1, lib=0, ins=(FLT,), outs=(FLT,), flt=1, dbl=0),
             dict(flt=1, dbl=0, outs=(FLT,)), dict(flt=0, dbl=0, ins=(FLTP,))]
    for a, b in itertools.product(range(len(kinds)), repeat=2):
        for ca, cb in ((1, 2), (2, 1), (2, 2)):
            fns = [Fn("f", calls=ca, site=2, **kinds[a]), Fn("g", calls=cb, site=3, **kinds[b])]
            for mode in MODES:
                yield dict(tag="two functions", fns=fns, mode=mode, pred=distinct(fns, mode))
    # the same function called from three places, in every order of the profile
    for perm in itertools.permutations(range(3)):
        for calls in itertools.product((1, 2), repeat=3):
            fns = [[Fn("f", "main", ins=(DBL,), outs=(DBL,), calls=calls[0], line=7, site=2), Fn("f", "g", ins=(DBL,), outs=(DBL,), calls=calls[1], line=8, site=10),
                    Fn("g", "main", flt=1, ins=(FLT, DBL), calls=calls[2], line=9, site=9)][i] for i in perm]
            yield dict(tag="three call sites", fns=fns, mode="all", pred=distinct(fns, "all"))


def part_e():
    """function lists: the functions named, and those called by them"""
    fns = [Fn("f", "main", ins=(DBL,), calls=3, site=2), Fn("g", "f", outs=(FLT,), calls=2, site=3), Fn("h", "g", flt=1, ins=(FLT,), calls=2, site=4), Fn("main", "", calls=1, site=1)]
    for r in (1, 2, 3):
        for names in itertools.combinations(("f", "g", "h", "main", "nosuch"), r):
            sel = [f for f in fns if f.name in names or f.parent in names]
            if not sel:
                continue
            for mode in MODES:
                yield dict(tag="function list", fns=fns, selected=sel, mode=mode, opts=list(names), explicit=True, pred=distinct(sel, mode))


def part_f():
    """acceptance that is not monotone: any set of accepted values with the full one"""
    f = [Fn("f", flt=1, dbl=0, ins=(FLT,), calls=2)]
    for mode, key in (("operations", f[0].id + "|Range32"), ("arguments", f[0].id + "|in0|Range")):
        for m in range(64):
            yield dict(tag="not monotone", fns=f, mode=mode, nonmonotone=True, pred=[("in", key, (m << 2) | 1 << 8)])
    for mode, key in (("operations", f[0].id + "|Prec32"), ("arguments", f[0].id + "|in0|Prec")):
        for w in range(1, 24):
            for lo in range(1, 24 - w, 1 if not QUICK else 3):
                m = ((1 << w) - 1) << lo | 1 << 23
                yield dict(tag="not monotone", fns=f, mode=mode, nonmonotone=True, pred=[("in", key, m)])


def part_g():
    """failures and the way the scripts are run"""
    f = one()
    for mode in MODES:
        yield dict(tag="full precision rejected", fns=f, mode=mode, pred=[("full",)], fails=True)
        yield dict(tag="reference run fails", fns=f, mode=mode, pred=[("reffail",)], fails=True)

        def stale(d):
            with open(d + "/vfc_profile.txt", "w") as o:
                o.write(f[0].text())
        yield dict(tag="reference run fails, old profile present", fns=f, mode=mode, pred=[("reffail",)], fails=True, pre=stale)
        p = distinct(f, mode)
        yield dict(tag="old profile present", fns=f, mode=mode, pred=p, pre=lambda d: open(d + "/vfc_profile.txt", "w").write(Fn("old", ins=(DBL,)).text()))
        yield dict(tag="talkative run", fns=f, mode=mode, pred=p, extra=[("chatty",)])
        yield dict(tag="absolute paths", fns=f, mode=mode, pred=p, argv=["@/run", "@/cmp"])
        yield dict(tag="scripts in folders", fns=f, mode=mode, pred=p, argv=["bin/run", "./bin/cmp"], names=("bin/run", "bin/cmp"))
        yield dict(tag="scripts with spaces", fns=f, mode=mode, pred=p, argv=["a b/run it", "cmp it"], names=("a b/run it", "cmp it"))
        yield dict(tag="missing run script", fns=f, mode=mode, pred=p, argv=["nosuch", "cmp"], fails=True)
        yield dict(tag="missing comparison script", fns=f, mode=mode, pred=p, argv=["run", "nosuch"], fails=True)
        for vm in ("ieee", "ib", "ob", "full"):
            yield dict(tag="vprec mode", fns=f, mode=mode, pred=p, opts=["--vprec_mode", vm], vmode=vm)
        k, lo, hi = settings(f, mode)[0]
        yield dict(tag="run that hangs", fns=f, mode=mode, pred=[("hang", k, lo + 2)], opts=["--maxTimeout", "300"])


def main():
    jobs = list(itertools.chain(part_g(), part_a(), part_b(), part_c(), part_d(), part_e(), part_f()))
    for i, j in enumerate(jobs):
        if i % NSH != SHARD:
            continue
        if len(REP["viols"]) >= 6:
            break
        REP["traces"] += 1
        decide(j)
        count("scenarios: " + j["tag"])
    print(json.dumps(REP))


main()
