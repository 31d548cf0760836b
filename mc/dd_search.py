"""Worker of C14: the real search classes against every oracle of the bound. usage: PREFIX SHARD NSHARDS TIER"""
import io, itertools, json, os, shutil, sys, tempfile

prefix, shard, nsh, tier = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
sys.path.insert(0, prefix + "/py")
sys.dont_write_bytecode = True
OUT = sys.stdout
sys.stdout = open(os.devnull, "w")
from verificarlo.ddebug import DD, dd_config  # noqa: E402
from verificarlo.ddebug import main as ddmain  # noqa: E402

rep = {"states": 0, "transitions": 0, "traces": 0, "nontrivial": 0, "viols": [], "counters": {}, "samples": []}
LIMIT = 5000


class Runaway(Exception):
    pass


class Outside(Exception):
    pass


class Oracle:
    """thr[mask]: number of the first failing run of the set (0: never)"""

    def __init__(self, n, names, thr, nruns):
        self.n, self.thr, self.nruns = n, thr, nruns
        self.bit = {d: 1 << i for i, d in enumerate(names)}
        self.done = {}
        self.tests = 0

    def mask(self, c):
        m = 0
        for d in c:
            b = self.bit.get(d)
            if b is None or m & b:
                raise Outside("the set %r is tested" % (list(c),))
            m |= b
        return m

    def ask(self, c, runs):
        self.tests += 1
        if self.tests > LIMIT:
            raise Runaway()
        m = self.mask(c)
        k = self.done[m] = max(self.done.get(m, 0), runs)
        return bool(self.thr[m]) and self.thr[m] <= k

    def fails(self, m):
        return bool(self.thr[m]) and self.thr[m] <= self.nruns


class Search(ddmain.DDline):
    oracle = None

    def _test(self, deltas, nbRun=None):
        o = self.oracle
        return DD.DD.FAIL if o.ask(deltas, o.nruns if nbRun is None else nbRun) else DD.DD.PASS


class Base(DD.DD):
    oracle = None

    def _test(self, c):
        t = self.oracle.thr[self.oracle.mask(c)]
        self.oracle.tests += 1
        if self.oracle.tests > LIMIT:
            raise Runaway()
        return (self.PASS, self.FAIL, self.UNRESOLVED)[t]


def workdir():
    d = tempfile.mkdtemp(prefix="vfcdd.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chdir(d)
    return d


def searcher(d, n, env):
    names = ["0x%d: f%d at a.c:%d\n" % (4096 + 7 * i, i % 2, 10 - i) for i in range(n)]
    with open(d + "/run", "w") as f:
        f.write("#!/bin/sh\ncp '%s/list' \"$1/dd.line.1\"\n" % d)
    with open(d + "/cmp", "w") as f:
        f.write("#!/bin/sh\nexit 0\n")
    with open(d + "/list", "w") as f:
        f.writelines(names)
    os.chmod(d + "/run", 0o755)
    os.chmod(d + "/cmp", 0o755)
    s = Search(dd_config.ddConfig(["dd", d + "/run", d + "/cmp"], env))
    got = s.getDelta0()
    if got != names:
        rep["viols"].append("the deltas of the reference run are %r, the program has %r" % (got, names))
    return s, names


def verdict(o, algo, L):
    full = (1 << o.n) - 1
    if algo == "ddmax":
        m = o.mask(L)
        if o.fails(m):
            return "the set kept by ddmax fails"
        for i in range(o.n):
            if not m >> i & 1 and not o.fails(m | 1 << i):
                return "delta %d can be added to the set kept by ddmax" % i
        return None
    used = 0
    for c in L:
        m = o.mask(c)
        if m & used:
            return "the sets found are not disjoint"
        used |= m
        if not o.fails(m):
            return "the set %s does not fail" % bin(m)
        for i in range(o.n):
            if m >> i & 1 and o.fails(m & ~(1 << i)):
                return "the set %s fails without delta %d" % (bin(m), i)
    if o.fails(full & ~used):
        return "what is left (%s) still fails" % bin(full & ~used)
    return None


def attempt(s, names, n, thr, nruns, algo, what, legit=True):
    o = s.oracle = Oracle(n, names, thr, nruns)
    s.index = 0
    rep["states"] += 1
    rep["traces"] += 1
    try:
        L = s.run(list(names)) if algo != "base" else s.ddmin(list(names))
        msg = verdict(o, algo, L) if legit else "a result (%r) is given although %s" % (L, legit_msg(o))
    except SystemExit as e:
        msg = None if not legit and e.code not in (0, None) else "the search gives up (exit %s)" % e.code
    except Runaway:
        msg = "no result after %d tests" % LIMIT
    except Outside as e:
        msg = str(e)
    except Exception as e:      # noqa
        msg = "%s: %s" % (type(e).__name__, e)
    rep["transitions"] += o.tests
    if o.tests > 3:
        rep["nontrivial"] += 1
    if msg and len(rep["viols"]) < 10:
        rep["viols"].append("%s, %d deltas, %d runs, oracle (set: first failing run) %s: %s" % (
            what, n, nruns, {bin(m): thr[m] for m in range(1 << n) if thr[m]}, msg))


def legit_msg(o):
    return "the empty set fails" if o.fails(0) else "the full set passes"


def monotone(n, most):
    """oracles given by their minimal failing sets: antichains of at most `most` non-empty sets"""
    def rec(start, chain):
        if chain:
            yield chain
        if len(chain) == most:
            return
        for m in range(start, 1 << n):
            if all(m & c != m and m & c != c for c in chain):
                yield from rec(m + 1, chain + [m])
    for chain in rec(1, []):
        yield [1 if any(m & c == c for c in chain) else 0 for m in range(1 << n)]


def general(n, values):
    full = (1 << n) - 1
    for t in itertools.product(values, repeat=full - 1):
        for f in values:
            if f:
                yield [0] + list(t) + [f]


def env(nruns, algo="rddmin", variant="", rtab="single", dtab="single", gran=2):
    return {"INTERFLOP_DD_NRUNS": str(nruns), "INTERFLOP_DD_ALGO": algo, "INTERFLOP_DD_RDDMIN": variant,
            "INTERFLOP_DD_RDDMIN_TAB": rtab, "INTERFLOP_DD_DICHO_TAB": dtab, "INTERFLOP_DD_DICHO_GRANULARITY": str(gran)}


def name(e):
    return " ".join("%s=%s" % (k[len("INTERFLOP_"):], v) for k, v in e.items())


def work(full):
    det = [("ddmax", env(1, "ddmax")), ("r", env(1)), ("r", env(1, variant="s")), ("r", env(1, variant="d")), ("r", env(1, variant="d", gran=3))]
    if full:
        det += [("r", env(1, variant="d", gran=g)) for g in (4, 5, 9)] + [("r", env(1, variant=v)) for v in ("strict", "stoch", "dicho")]
    for n in (1, 2, 3, 4):
        yield n, 1, lambda n=n: general(n, (0, 1)), det
    yield 5, 1, lambda: monotone(5, 32), det
    for n, most in (((6, 2), (8, 1), (9, 1)) if not full else ((6, 3), (7, 2), (8, 2), (10, 1), (11, 1))):
        yield n, 1, lambda n=n, most=most: monotone(n, most), det[:5]
    sto = [("ddmax", env(3, "ddmax")), ("r", env(3))]
    sto += [("r", env(3, variant="s", rtab=r)) for r in ("exp", "all", "single")]
    sto += [("r", env(3, variant="d", rtab=r, dtab=t, gran=g)) for r in ("exp", "all", "single") for t in ("exp", "all", "half", "single", "1", "2", "3") for g in (2, 3)]
    for n in (1, 2):
        yield n, 3, lambda n=n: general(n, (0, 1, 2, 3)), sto
    yield 3, 3, lambda: general(3, (0, 1, 2, 3) if full else (0, 1, 3)), sto
    five = [("r", env(5, variant=v, rtab="exp", dtab=t)) for v, t in (("s", "half"), ("d", "half"), ("d", "exp"))]
    yield 3, 5, lambda: general(3, (0, 1, 2, 5) if full else (0, 2, 5)), five


def main():
    d = workdir()
    try:
        for n, nruns, gen, variants in work(tier != "quick"):
            for algo, e in variants:
                p = os.path.join(d, "w")
                shutil.rmtree(p, ignore_errors=True)
                os.mkdir(p)
                os.chdir(p)
                s, names = searcher(p, n, e)
                for k, thr in enumerate(gen()):
                    if k % nsh == shard:
                        attempt(s, names, n, thr, nruns, algo, name(e))
                if n <= 3 and shard == 0:
                    # nothing to search: an error, not a result
                    for t in itertools.product((0, 1), repeat=(1 << n) - 2):
                        attempt(s, names, n, [0] + list(t) + [0], nruns, algo, name(e), legit=False)
                if k and shard == 0:
                    rep["counters"]["oracles over %d deltas" % n] = k + 1
        # the base class, with unresolved outcomes
        for n in (1, 2, 3):
            for k, thr in enumerate(t for t in general(n, (0, 1, 2)) if t[-1] == 1):
                if k % nsh == shard:
                    b = Base()
                    o = b.oracle = Oracle(n, list(range(n)), thr, 1)
                    rep["states"] += 1
                    try:
                        r = b.ddmin(list(range(n)))
                        m = o.mask(r)
                        bad = thr[m] != 1 or [i for i in r if thr[m & ~(1 << i)] == 1]
                        if bad:
                            rep["viols"].append("ddmin over %d deltas with oracle %s returns %s, not a 1-minimal failing set" % (n, thr, r))
                    except Exception as x:      # noqa
                        rep["viols"].append("ddmin over %d deltas with oracle %s: %s %s" % (n, thr, type(x).__name__, x))
                    rep["transitions"] += o.tests
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    OUT.write(json.dumps(rep) + "\n")


main()
