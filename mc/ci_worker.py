"""Runs the real CI test command (verificarlo.ci.test.run) on planned program outputs and
compares the exported run file with the definitions.  One shard; prints a JSON report."""
import contextlib, io, itertools, json, math, os, shutil, sys, traceback, warnings
from fractions import Fraction as Fr

warnings.simplefilter("ignore")
FAKE, SHARD, NSH, TIER, BASE = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
import numpy as np
import pandas as pd
import scipy.stats
import verificarlo.ci.test as T

REP = {"states": 0, "transitions": 0, "nontrivial": 0, "traces": 0, "viols": [], "samples": [], "counters": {}}
IEEE = "libinterflop_ieee.so"


def violation(m):
    if len(REP["viols"]) < 12:
        REP["viols"].append(m[:3000])


def count(k, n=1):
    REP["counters"][k] = REP["counters"].get(k, 0) + n


def hexa(x):
    """as printf %a does"""
    if x != x:
        return "nan" if math.copysign(1, x) > 0 else "-nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    h = float.hex(x)
    m, e = h.split("p")
    if "." in m:
        m = m.rstrip("0").rstrip(".")
    return m + "p" + e


def csv(rows):
    """rows: (test, variable, value, threshold, mode)"""
    return "test,variable,value,accuracy_threshold,check_mode\n" + "".join(
        "%s,%s,%s,%s,%s\n" % (t, v, hexa(x), hexa(th), m) for t, v, x, th, m in rows)


_n = [0]


def run(scn):
    """scn: list of (executable, [(backend, repetitions or None, [rows or None or "" per run], reference rows)]).
    Returns (data, deterministic data) read from the exported file, or an exception text."""
    _n[0] += 1
    d = "%s/s%d.%d" % (BASE, SHARD, _n[0])
    os.makedirs(d + "/plan")
    try:
        os.chdir(d)
        os.symlink(FAKE, d + "/fake")
        bes = []
        conf = {"make_command": "true", "executables": []}
        ref = {}
        for exe, bl in scn:
            e = {"executable": "fake", "parameters": exe, "vfc_backends": []}
            for be, rep, runs, refs in bl:
                if be not in bes:
                    bes.append(be)
                b = {"name": be}
                if rep is not None:
                    b["repetitions"] = rep
                e["vfc_backends"].append(b)
                for i, r in enumerate(runs):
                    if r is not None:
                        with open("plan/%s.%d.%d.csv" % (exe, bes.index(be), i), "w") as f:
                            f.write(r if isinstance(r, str) else csv(r))
                if refs is not None:
                    ref.setdefault(exe, []).append(refs)
            conf["executables"].append(e)
        if ref and IEEE not in bes:
            bes.append(IEEE)
        for exe, l in ref.items():
            for i, r in enumerate(l):
                with open("plan/%s.%d.%d.csv" % (exe, bes.index(IEEE), i), "w") as f:
                    f.write(r if isinstance(r, str) else csv(r))
        with open("plan/backends", "w") as f:
            f.write("".join(b + "\n" for b in bes))
        with open("vfc_tests_config.json", "w") as f:
            json.dump(conf, f)
        REP["transitions"] += sum(len(r[2]) for _, bl in scn for r in bl)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                T.run(False, True, False)
        except Exception:
            return traceback.format_exc()[-1200:], None
        if os.path.exists("plan/unknown"):
            return "a run with the unexpected VFC_BACKENDS " + open("plan/unknown").read(), None
        files = [f for f in os.listdir(".") if f.endswith(".vfcrun.h5")]
        raws = [f for f in os.listdir(".") if f.endswith(".vfcraw.h5")]
        if len(files) != 1 or len(raws) != 1:
            return "no run file was written", None
        data = pd.read_hdf(files[0], key="data")
        det = pd.read_hdf(files[0], key="deterministic_data")
        raw = pd.read_hdf(raws[0], key="data")
        if len(data):
            data["raw"] = raw["values"]
        return data, det
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)


def rows_of(df):
    """{(test, variable, backend): row}; duplicates are reported by a list"""
    out = {}
    for k, r in df.iterrows():
        out.setdefault(tuple(k) if isinstance(k, tuple) else (k,), []).append(r)
    return out


def close(a, b, scale, tol=1e-11):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * scale or (a != a and b != b)


def quantile(v, q):
    s = sorted(v)
    p = Fr(q) * (len(s) - 1)
    i = int(p)
    if i + 1 >= len(s):
        return s[-1]
    return s[i] + (s[i + 1] - s[i]) * (p - i)


def sqrt_exact(f):
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    return Fr(n, d) if n * n == f.numerator and d * d == f.denominator else None


def stats(v):
    f = [Fr(x) for x in v]
    mu = sum(f) / len(f)
    var = sum((x - mu) ** 2 for x in f) / len(f)
    return mu, var


def verdict(mode, th, mu, var):
    """exact: True, False, or None when undefined (0/0)"""
    t = abs(Fr(th))
    if mode == "absolute":
        return var < t * t
    if mode == "relative":
        if mu == 0:
            return None if var == 0 else False
        return var < t * t * mu * mu
    return True


def check_stats(what, r, v, th, mode):
    mu, var = stats(v)
    sc = max(abs(x) for x in v)
    sg = math.sqrt(var)
    exp = {"mu": float(mu), "sigma": sg, "min": min(v), "max": max(v),
           "quantile25": float(quantile([Fr(x) for x in v], Fr(1, 4))), "quantile50": float(quantile([Fr(x) for x in v], Fr(1, 2))),
           "quantile75": float(quantile([Fr(x) for x in v], Fr(3, 4)))}
    for k, e in exp.items():
        if not close(r[k], e, max(sc, 1e-300) if k in ("mu", "sigma") else abs(e), 1e-11):
            violation("%s: %s is %r instead of %r" % (what, k, float(r[k]), e))
    if int(r["nsamples"]) != len(v):
        violation("%s: nsamples is %r" % (what, r["nsamples"]))
    if sorted(float(x) for x in r["raw"]) != sorted(v):
        violation("%s: the raw values exported are %r" % (what, list(r["raw"])))
    if r["check_mode"] != mode or float(r["accuracy_threshold"]) != th:
        violation("%s: recorded with check %r %r" % (what, r["check_mode"], r["accuracy_threshold"]))
    w = verdict(mode, th, mu, var)
    if w is not None and bool(r["check"]) != w:
        violation("%s: the check %s" % (what, "passes" if r["check"] else "fails"))
    # significant digits
    s2, lo = float(r["s2"]), float(r["s2_lower_bound"])
    if not close(r["s10"], s2 * math.log10(2), max(1, abs(s2))) or not close(r["s10_lower_bound"], lo * math.log10(2), max(1, abs(lo))):
        violation("%s: significant digits in base 10 (%r, %r) and 2 (%r, %r) disagree" % (what, r["s10"], r["s10_lower_bound"], s2, lo))
    if s2 > 53 + 1e-9 or s2 != s2 or lo > 53 + 1e-9 or lo != lo:
        violation("%s: significant digits %r, lower bound %r" % (what, s2, lo))
    p = scipy.stats.shapiro(np.array(v)).pvalue
    if abs(p - 0.05) > 1e-6:
        if abs(float(mu)) < 1e-12 * sc:
            if mu == 0 and all(v[i] == -v[len(v) - 1 - i] for i in range(len(v))) and s2 != 53:
                violation("%s: significant digits of a null mean: %r" % (what, s2))
        elif p >= 0.05:
            e = 53.0 if sg == 0 else min(53.0, -math.log2(sg / abs(mu)))
            if sg < 1e-9 * sc and sg:
                pass
            elif not close(s2, e, max(1, abs(e)), 1e-8):
                violation("%s: %r significant bits instead of %r" % (what, s2, e))
            # centered normality hypothesis (Sohier et al.): p=.9, confidence .95
            if sg > 1e-9 * sc:
                n = len(v)
                dcnh = 0.5 * math.log2((n - 1) / scipy.stats.chi2.ppf(1 - (1 + 0.95) / 2, n - 1)) + math.log2(scipy.stats.norm.ppf((0.9 + 1) / 2))
                std1 = sg * math.sqrt(n / (n - 1.0)) / abs(float(mu))
                std0 = sg / abs(float(mu))
                if not any(close(lo, min(53.0, -math.log2(x) - dcnh), max(1, abs(lo)), 1e-6) for x in (std0, std1)):
                    violation("%s: lower bound %r of the significant bits (formula: %r or %r)" % (what, lo, -math.log2(std0) - dcnh, -math.log2(std1) - dcnh))
        else:
            import significantdigits as sd
            a = np.array(v).reshape(len(v), 1)
            e = float(sd.significant_digits(a, np.array([np.average(np.array(v))]), error=sd.Error.Relative, method=sd.Method.General, probability=0.9, confidence=0.95)[0])
            if not close(s2, e, max(1, abs(e)), 1e-9) and not 0 < sg < 1e-9 * sc:
                violation("%s: %r significant bits instead of %r" % (what, s2, e))
            if lo != s2:
                violation("%s: the samples are not normal, the lower bound %r is not the estimation %r" % (what, lo, s2))


class Batch:
    """many probes in one test, a sample vector each"""

    def __init__(self):
        self.items = []      # (test, var, vector, threshold, mode)

    def add(self, vec, th, mode, rev=False):
        i = len(self.items)
        self.items.append(("t%d" % (i % 7), "v%d" % i, vec, th, mode))

    def decide(self, tag):
        n = len(self.items[0][2])
        be = "libinterflop_mca.so --seed=1"
        runs = []
        for k in range(n):
            it = self.items if k % 2 == 0 else self.items[::-1]
            runs.append([(t, v, x[k], th, m) for t, v, x, th, m in it])
        data, det = run([("e", [(be, n, runs, None)])])
        if det is None:
            violation("%s: the run fails: %s" % (tag, data))
            return
        got = rows_of(data)
        if len(got) != len(self.items):
            violation("%s: %d probes exported, %d recorded" % (tag, len(got), len(self.items)))
        for t, v, x, th, m in self.items:
            REP["states"] += 1
            r = got.get((t, v, be))
            if r is None or len(r) != 1:
                violation("%s: the samples %r of %s/%s are recorded %d times" % (tag, x, t, v, len(r or [])))
                continue
            if len(set(x)) > 1:
                REP["nontrivial"] += 1
            check_stats("%s: samples %r, %s check %r" % (tag, x, m, th), r[0], list(x), th, m)


def vectors():
    full = [(3, [0.0, 1.0, 1.5, -2.0, 1000.25, 0.1]), (4, [0.0, 1.0, 3.0, -2.0, 1000.25]), (5, [1.0, 2.0, -1.0, 0.1])]
    full += [(6, [1.0, 1.125, 2.0]), (8, [1.0, 3.0]), (10, [1.0, -1.5])] if TIER != "quick" else [(7, [1.0, 3.0])]
    for n, al in full:
        for v in itertools.product(al, repeat=n):
            yield v
    # magnitudes
    for s in (2.0 ** -400, 2.0 ** -100, 2.0 ** 400, 1e-10, 1e100):
        for v in itertools.product([1.0, 1.5, -1.0], repeat=3):
            yield tuple(x * s for x in v)
    # close samples around a big mean, many samples
    for k in (10, 24, 40, 50):
        for v in itertools.product([0.0, 1.0, 2.0], repeat=4):
            yield tuple(1.0 + x * 2.0 ** -k for x in v)
    for n in (20, 50, 101):
        yield tuple(1.0 + i / 64.0 for i in range(n))
        yield tuple([1.0] * (n - 1) + [2.0])


def part_a():
    todo = {}
    for v in vectors():
        mu, var = stats(v)
        sg = math.sqrt(var)
        sc = max(abs(x) for x in v)
        if 0 < sg < 1e-13 * sc or (mu != 0 and abs(mu) < 1e-13 * sc):
            continue
        l = [(0.0, "none")]
        ex = sqrt_exact(var)
        dy = ex is not None and ex.denominator & (ex.denominator - 1) == 0 and mu.denominator & (mu.denominator - 1) == 0 and ex.denominator < 1 << 40
        tol = max(1e-9, 1e-12 * sc / sg if sg else 0)
        if sg:
            l += [(sg * (1 - tol), "absolute"), (sg * (1 + tol), "absolute"), (-sg * (1 + tol), "absolute")]
            if dy:
                l.append((float(ex), "absolute"))
            if mu:
                q = sg / abs(float(mu))
                tq = max(1e-9, 1e-12 * sc / sg, 1e-12 * sc / abs(float(mu)))
                l += [(q * (1 - tq), "relative"), (q * (1 + tq), "relative")]
                qe = ex / abs(mu) if dy else None
                if qe is not None and qe.denominator & (qe.denominator - 1) == 0:
                    l.append((float(qe), "relative"))
        else:
            exact = v[0] == int(v[0] * 16) / 16
            l += [(1e-300 if exact else 1e-12 * sc, "absolute")] + ([(0.0, "absolute")] if exact else [])
            if mu:
                l += [(1e-300 if exact else 1e-12, "relative")] + ([(0.0, "relative")] if exact else [])
        todo.setdefault(len(v), []).extend((v, th, m) for th, m in l)
    # a null mean has its own runs: it is a known finding that it ends them
    for v in ((1.0, -1.0, 0.0), (-2.0, 0.0, 2.0), (0.0, 0.0, 0.0), (1.0, 3.0, -4.0, 0.0)):
        yield ("nullmean", v)
    for n, items in sorted(todo.items()):
        size = 400
        for k in range(0, len(items), size):
            yield ("samples", n, items[k:k + size])


NAMES = ["a", "b", "NA", "nan", "None", "null", "1", "01", "1.0", "-1", "1e3", "inf", "True", "false", "x y", " x", "x ",
         "N/A", "<NA>", "#N/A", "n/a", "2020-01-01", "a;b", "0x10", "\u00e9t\u00e9", "'q'", 'a"b', '"a"', "a\tb", "#c", "test", "values"]


def part_b():
    for a in NAMES:
        yield ("names", [(a, a)])
        yield ("names", [(a, "v"), ("t", a)])
    for a, b in itertools.combinations(NAMES, 2):
        yield ("names", [(a, "v"), (b, "v"), ("t", a), ("t", b)])
        if a in ("1", "NA", "a") or TIER != "quick":
            yield ("names", [(a, b), (b, a)])


def part_c():
    """the order of the probes in each run"""
    P = ["p", "q", "r"]
    perms = list(itertools.permutations(P))
    for o in itertools.product(perms, repeat=3):
        yield ("order", o)
    for o in itertools.product(perms, repeat=2):
        for k in range(0, 8):
            yield ("detorder", o, k)


def part_d():
    for pat in itertools.product(("ok", "crash", "header"), repeat=5):
        if pat.count("ok") >= 3:
            yield ("crash", pat)
    for pat in itertools.product(("ok", "crash", "header"), repeat=2):
        yield ("detcrash", pat)


def part_e():
    sp = [1.0, 2.0, math.inf, -math.inf, math.nan]
    for v in itertools.product(sp, repeat=3):
        if any(math.isinf(x) or x != x for x in v):
            yield ("nonfinite", v)
    for v in itertools.product(sp, repeat=2):
        if any(math.isinf(x) or x != x for x in v):
            yield ("detnonfinite", v)


def part_f():
    for kinds in itertools.product((None, 3, 4), repeat=2):
        for nexe in (1, 2):
            yield ("multi", kinds, nexe)


def part_g():
    """deterministic verdicts, alone and together with others (with and without checks)"""
    one = []
    for ref in (0.0, 1.0, -2.0, 0.75, 1e-300, 1e300):
        for val in (0.0, 1.0, -2.0, 0.75, 1.0 + 2.0 ** -52, 1e-300, 1e300):
            for mode in ("none", "absolute", "relative"):
                d = abs(Fr(val) - Fr(ref))
                q = d if mode == "absolute" else (d / abs(Fr(ref)) if ref else None)
                ths = [0.0, 1.0, -1.0]
                if q is not None and q < Fr(10) ** 300 and q:
                    f = float(q)
                    ths += [f * (1 - 1e-9), f * (1 + 1e-9)]
                    if Fr(f) == q and f < 1e10 and f > 1e-10:
                        ths.append(f)
                if mode == "none":
                    ths = [0.0]
                for th in ths:
                    if ref != 0 or mode != "relative":
                        one.append((val, ref, th, mode))
    yield ("det", one)
    for val in (0.0, 1.0, -2.0, 1e-300):
        yield ("detnull", val)
    small = [(val, ref, th, mode) for val, ref in ((1.0, 1.0), (1.5, 1.0)) for th, mode in
             ((0.0, "none"), (0.0, "absolute"), (0.0, "relative"), (1.0, "absolute"), (-1.0, "absolute"), (0.25, "relative"), (-0.25, "relative"), (0.25, "absolute"), (math.nan, "absolute"), (math.inf, "absolute"))]
    for a in small:
        yield ("det", [a])
    for a, b in itertools.product(small, repeat=2):
        yield ("det", [a, b])


def det_verdict(val, ref, th, mode):
    if mode == "none":
        return True
    if th != th or val != val or ref != ref or math.isinf(ref):
        return False
    if math.isinf(val):
        return False
    d = abs(Fr(val) - Fr(ref))
    if mode == "relative":
        if ref == 0:
            return None if val == 0 else False
        d /= abs(Fr(ref))
    if math.isinf(th):
        return True
    t = abs(Fr(th))
    if d != t and abs(d - t) < t / 10 ** 14:
        return None          # decided by the rounding of the difference
    return d < t


def det_rows(tag, det, be, exp):
    """exp: {(test, var): (value, ref or None when not defined, threshold, mode)}"""
    got = rows_of(det)
    if set(got) != {(t, v, be) for t, v in exp}:
        violation("%s: probes %s exported instead of %s" % (tag, sorted(got), sorted(exp)))
        return
    for (t, v), (val, ref, th, mode) in exp.items():
        r = got[(t, v, be)]
        REP["states"] += 1
        if len(r) != 1:
            violation("%s: %s/%s exported %d times" % (tag, t, v, len(r)))
            continue
        r = r[0]
        w = "%s: %s/%s = %r, reference %r, %s check %r" % (tag, t, v, val, ref, mode, th)
        if not close(r["value"], val, 0):
            violation("%s: value exported: %r" % (w, r["value"]))
        if r["check_mode"] != mode or not close(r["accuracy_threshold"], th, 0):
            violation("%s: exported with the check %r %r" % (w, r["check_mode"], r["accuracy_threshold"]))
        if ref is None:
            e = True if mode == "none" else False
        else:
            e = det_verdict(val, ref, th, mode)
            if mode != "none" and not close(r["reference_value"], ref, 0):
                violation("%s: reference exported: %r" % (w, r["reference_value"]))
        if e is not None and bool(r["check"]) != e:
            violation("%s: the check %s" % (w, "passes" if r["check"] else "fails"))
        if mode != "none":
            REP["nontrivial"] += 1


def decide(job):
    k = job[0]
    be = "libinterflop_mca.so --mode=rr"
    if k == "samples":
        b = Batch()
        for v, th, m in job[2]:
            b.add(v, th, m)
        b.decide("%d samples" % job[1])
        count("sample vectors", len(job[2]))
    elif k == "names":
        keys = job[1]
        vals = {kk: [1.0 + i, 2.0 + i, 4.0 + i] for i, kk in enumerate(keys)}
        runs = [[(t, v, vals[(t, v)][n], 0.5, "absolute") for t, v in keys] for n in range(3)]
        data, det = run([("e", [(be, 3, runs, None), ("libinterflop_vprec.so", None, [runs[0]], runs[1])])])
        tag = "probes named %r" % (keys,)
        if det is None:
            violation("%s: the run fails: %s" % (tag, data))
            return
        got = rows_of(data)
        if set(got) != {(t, v, be) for t, v in keys}:
            violation("%s: exported as %r" % (tag, sorted(got, key=repr)))
            return
        for kk in keys:
            REP["states"] += 1
            check_stats("%s: %s/%s" % (tag, kk[0], kk[1]), got[kk + (be,)][0], vals[kk], 0.5, "absolute")
        det_rows(tag, det, "libinterflop_vprec.so", {kk: (vals[kk][0], vals[kk][1], 0.5, "absolute") for kk in keys})
        REP["nontrivial"] += 1
    elif k == "order":
        vals = {"p": [1.0, 1.5, 3.0], "q": [10.0, 20.0, 35.0], "r": [-7.0, -7.0, -8.0]}
        chk = {"p": (0.5, "absolute"), "q": (2.0, "relative"), "r": (0.0, "none")}
        runs = [[("t", p, vals[p][n]) + chk[p] for p in o] for n, o in enumerate(job[1])]
        data, det = run([("e", [(be, 3, runs, None)])])
        tag = "probes written in the orders %r" % (job[1],)
        if det is None:
            violation("%s: the run fails: %s" % (tag, data))
            return
        got = rows_of(data)
        if set(got) != {("t", p, be) for p in vals}:
            violation("%s: exported as %r" % (tag, sorted(got)))
            return
        for p in vals:
            REP["states"] += 1
            check_stats(tag + " " + p, got[("t", p, be)][0], vals[p], *chk[p])
        REP["nontrivial"] += 1
    elif k == "detorder":
        vals = {"p": 1.0, "q": 10.0, "r": -7.0}
        refs = {"p": 1.25, "q": 10.5, "r": 700.0}
        chk = {"p": (0.5, "absolute"), "q": (0.01, "relative"), "r": (0.0, "none")}
        o1, o2 = job[1]
        miss = {p for i, p in enumerate("pqr") if job[2] >> i & 1}
        rv = "libinterflop_vprec.so --precision-binary64=3"
        data, det = run([("e", [(rv, None, [[("t", p, vals[p]) + chk[p] for p in o1]], [("t", p, refs[p]) + chk[p] for p in o2 if p not in miss])])])
        tag = "probes written in the order %s by the run and %s by the reference" % ("".join(o1), "".join(p for p in o2 if p not in miss))
        if det is None:
            violation("%s: the run fails: %s" % (tag, data))
            return
        det_rows(tag, det, rv, {("t", p): (vals[p], None if p in miss else refs[p]) + chk[p] for p in vals})
    elif k == "crash":
        v = [1.0, 1.5, 4.0, 2.0, 3.0]
        runs = [[("t", "p", v[i], 0.5, "absolute"), ("t", "q", v[i] + 1, 0.5, "relative")] if s == "ok" else None if s == "crash" else [] for i, s in enumerate(job[1])]
        data, det = run([("e", [(be, 5, runs, None)]), ("g", [(be, 3, [[("u", "p", 1.0 + i, 0.0, "none")] for i in range(3)], None)])])
        tag = "runs %s" % (job[1],)
        if det is None:
            violation("%s: the run fails: %s" % (tag, data))
            return
        got = rows_of(data)
        if set(got) != {("t", "p", be), ("t", "q", be), ("u", "p", be)}:
            violation("%s: exported as %r" % (tag, sorted(got)))
            return
        ok = [v[i] for i, s in enumerate(job[1]) if s == "ok"]
        check_stats(tag, got[("t", "p", be)][0], ok, 0.5, "absolute")
        check_stats(tag, got[("t", "q", be)][0], [x + 1 for x in ok], 0.5, "relative")
        check_stats(tag, got[("u", "p", be)][0], [1.0, 2.0, 3.0], 0.0, "none")
        REP["states"] += 3
        REP["nontrivial"] += 1
    elif k == "detcrash":
        rows = {"ok": [("t", "p", 1.0, 0.5, "absolute"), ("t", "q", 1.0, 0.0, "none")], "crash": None, "header": []}
        rv = "libinterflop_vprec.so"
        other = [[("u", "p", 1.0 + i, 0.0, "none")] for i in range(3)]
        ref = rows[job[1][1]]
        data, det = run([("e", [(rv, None, [rows[job[1][0]]], "" if ref is None else ref)]), ("g", [(be, 3, other, None)])])
        tag = "deterministic run %s, reference %s" % job[1]
        if det is None:
            violation("%s: the run fails: %s" % (tag, data))
            return
        got = rows_of(data)
        if set(got) != {("u", "p", be)}:
            violation("%s: exported as %r" % (tag, sorted(got)))
        elif job[1][0] == "ok":
            det_rows(tag, det, rv, {("t", "p"): (1.0, 1.0 if job[1][1] == "ok" else None, 0.5, "absolute"), ("t", "q"): (1.0, 1.0, 0.0, "none")})
        elif len(det):
            violation("%s: exported %r" % (tag, det))
        REP["nontrivial"] += 1
        REP["states"] += 1
    elif k == "nonfinite":
        v = list(job[1])
        for mode in ("none", "absolute", "relative"):
            runs = [[("t", "p", v[i], 0.5, mode), ("t", "q", 1.0 + i, 1.0, "absolute")] for i in range(3)]
            data, det = run([("e", [(be, 3, runs, None)])])
            tag = "samples %r, %s check" % (v, mode)
            if det is None:
                violation("%s: the run fails: %s" % (tag, data))
                return
            got = rows_of(data)
            if set(got) != {("t", "p", be), ("t", "q", be)}:
                violation("%s: exported as %r" % (tag, sorted(got)))
                return
            check_stats(tag + ", other probe", got[("t", "q", be)][0], [1.0, 2.0, 3.0], 1.0, "absolute")
            r = got[("t", "p", be)][0]
            if bool(r["check"]) != (mode == "none"):
                violation("%s: the check %s" % (tag, "passes" if r["check"] else "fails"))
            REP["states"] += 1
            REP["nontrivial"] += 1
    elif k == "detnonfinite":
        rv = "libinterflop_vprec.so"
        val, ref = job[1]
        for mode, th in (("none", 0.0), ("absolute", 0.5), ("relative", 0.5)):
            data, det = run([("e", [(rv, None, [[("t", "p", val, th, mode), ("t", "q", 1.0, 0.5, "absolute")]], [("t", "p", ref, th, mode), ("t", "q", 1.0, 0.5, "absolute")])])])
            tag = "value %r, reference %r, %s check" % (val, ref, mode)
            if det is None:
                violation("%s: the run fails: %s" % (tag, data))
                return
            det_rows(tag, det, rv, {("t", "p"): (val, ref, th, mode), ("t", "q"): (1.0, 1.0, 0.5, "absolute")})
    elif k == "multi":
        kinds, nexe = job[1], job[2]
        scn, expn, expd = [], {}, {}
        for e in range(nexe):
            bl = []
            for b, kd in enumerate(kinds):
                name = "libinterflop_%s.so --precision-binary64=%d" % ("vprec" if kd is None else "mca", b + 20)
                rows = lambda n: [("t%d" % e, "p", 1.0 + 10 * e + 3 * b + n, 0.75, "absolute"), ("t%d" % e, "q", 5.0 - n * n, 0.0, "none")]
                if kd is None:
                    ref = [("t%d" % e, "p", 2.0 + 10 * e + 3 * b, 0.75, "absolute"), ("t%d" % e, "q", 0.0, 0.0, "none")]
                    bl.append((name, None, [rows(0)], ref))
                    expd[("t%d" % e, "p", name)] = (rows(0)[0][2], ref[0][2], 0.75, "absolute")
                    expd[("t%d" % e, "q", name)] = (rows(0)[1][2], 0.0, 0.0, "none")
                else:
                    bl.append((name, kd, [rows(n) for n in range(kd)], None))
                    expn[("t%d" % e, "p", name)] = ([rows(n)[0][2] for n in range(kd)], 0.75, "absolute")
                    expn[("t%d" % e, "q", name)] = ([rows(n)[1][2] for n in range(kd)], 0.0, "none")
            scn.append(("e%d" % e, bl))
        data, det = run(scn)
        tag = "backends %r, %d executables" % (kinds, nexe)
        if det is None:
            violation("%s: the run fails: %s" % (tag, data))
            return
        got = rows_of(data)
        if set(got) != set(expn):
            violation("%s: exported as %r instead of %r" % (tag, sorted(got), sorted(expn)))
            return
        for kk, (v, th, m) in expn.items():
            REP["states"] += 1
            check_stats("%s: %r" % (tag, kk), got[kk][0], v, th, m)
        for name in {kk[2] for kk in expd}:
            sub = det[det.index.get_level_values(2) == name]
            det_rows(tag, sub, name, {kk[:2]: x for kk, x in expd.items() if kk[2] == name})
        if len(det) != len(expd):
            violation("%s: %d deterministic probes exported" % (tag, len(det)))
        REP["nontrivial"] += 1
    elif k == "nullmean":
        v = job[1]
        be = "libinterflop_mca.so --seed=1"
        data, det = run([("e", [(be, len(v), [[("t", "v", x, 0.5, "relative"), ("t", "w", x + 1, 2.0, "none")] for x in v], None)])])
        tag = "samples %r with a null mean, relative check" % (v,)
        if det is None:
            if "ZeroDivisionError" in data:
                violation("relative check of a probe whose mean is null: ZeroDivisionError ends the run (samples %r)" % (v,))
            else:
                violation("%s: the run fails: %s" % (tag, data))
            return
        got = rows_of(data)
        REP["states"] += 1
        check_stats(tag, got[("t", "v", be)][0], list(v), 0.5, "relative")
    elif k == "detnull":
        rv = "libinterflop_vprec.so --mode=full"
        val = job[1]
        data, det = run([("e", [(rv, None, [[("t", "v", val, 0.5, "relative")]], [("t", "v", 0.0, 0.5, "relative")])])])
        tag = "deterministic probe %r with a null reference, relative check" % val
        if det is None:
            if "ZeroDivisionError" in data:
                violation("relative check of a probe whose reference is null: ZeroDivisionError ends the run (value %r)" % val)
            else:
                violation("%s: the run fails: %s" % (tag, data))
            return
        det_rows(tag, det, rv, {("t", "v"): (val, 0.0, 0.5, "relative")})
    elif k == "det":
        rv = "libinterflop_vprec.so --mode=full"
        rows, refs, exp = [], [], {}
        for i, (val, ref, th, mode) in enumerate(job[1]):
            rows.append(("t", "v%d" % i, val, th, mode))
            refs.append(("t", "v%d" % i, ref, th, mode))
            exp[("t", "v%d" % i)] = (val, ref, th, mode)
        data, det = run([("e", [(rv, None, [rows], refs)])])
        tag = "deterministic probes %s" % ([x[2:] for x in job[1]] if len(job[1]) < 4 else "(%d)" % len(job[1]),)
        if det is None:
            violation("%s: the run fails: %s" % (tag, data))
            return
        det_rows(tag, det, rv, exp)


def main():
    jobs = list(itertools.chain(part_a(), part_b(), part_c(), part_d(), part_e(), part_f(), part_g()))
    for i, j in enumerate(jobs):
        if i % NSH != SHARD:
            continue
        if len(REP["viols"]) >= 12:
            break
        REP["traces"] += 1
        decide(j)
        count("scenarios: " + j[0])
    print(json.dumps(REP))


main()
