"""Explores vfc_vtk: all sample vectors over an alphabet, all file structures of a grid, all options and sets of
outputs of a grid; each result is compared with the definitions in exact arithmetic.  Prints a JSON report."""
import contextlib, fractions, io, itertools, json, math, os, shutil, sys, traceback, warnings
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

warnings.simplefilter("ignore")
SHARD, NSH, TIER, BASE = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
import numpy as np
import runpy
np.seterr(all="ignore")
F = fractions.Fraction
REP = {"states": 0, "transitions": 0, "nontrivial": 0, "traces": 0, "viols": [], "samples": [], "counters": {}}
D = os.path.join(BASE, "v%d" % SHARD)
os.makedirs(D)


class Bad(Exception):
    pass


def count(k, n=1):
    REP["counters"][k] = REP["counters"].get(k, 0) + n


def tool(args):
    out = io.StringIO()
    old, sys.argv = sys.argv, ["vfc_vtk"] + args
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                runpy.run_module("verificarlo.vtk", run_name="__main__")
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                out.write(traceback.format_exc())
                rc = 1
    finally:
        sys.argv = old
    return rc, out.getvalue()


# ---------------------------------------------------------------- the definitions

def isqrt_bounds(q):
    """floats around the square root of a fraction"""
    if q == 0:
        return 0.0
    k = max(0, 200 - (q.numerator.bit_length() - q.denominator.bit_length()) // 2)
    n = math.isqrt((q.numerator << (2 * k)) // q.denominator)
    return F(n, 1 << k)


def stats(xs):
    """mean, standard deviation (fractions, None if not finite) and the rounding allowance"""
    if any(not math.isfinite(x) for x in xs):
        return None, None, 0
    q = [F(x) for x in xs]
    m = sum(q) / len(q)
    s = isqrt_bounds(sum((x - m) ** 2 for x in q) / len(q))
    return m, F(s), F(max(abs(x) for x in xs)) * F(16, 2 ** 53) + F(1, 2 ** 1070)


def log10(q):
    if q <= 0:
        return -math.inf
    a, b = q.numerator, q.denominator
    return (math.log2(a >> max(0, a.bit_length() - 200)) + max(0, a.bit_length() - 200) - math.log2(b >> max(0, b.bit_length() - 200)) - max(0, b.bit_length() - 200)) / math.log2(10)


def digits(s, m):
    if s <= 0:
        return 17.0
    if m <= 0:
        return 0.0
    return min(17.0, max(0.0, -(log10(s) - log10(m))))


def check_digits(got, xs):
    m, s, e = stats(xs)
    if m is None:
        return got == 0
    if s == 0 and m == 0:
        return got in (0.0, 17.0)
    lo, hi = digits(s + e, max(abs(m) - e, F(0))), digits(max(s - e, F(0)), abs(m) + e)
    if s == 0 and len(set(xs)) == 1 and len(xs) <= 2:
        lo = 17.0
    return lo - 1e-9 <= got <= hi + 1e-9


def check_std(got, xs):
    m, s, e = stats(xs)
    if m is None:
        return math.isnan(got)
    return abs(F(got) - s) <= e if math.isfinite(got) else False


def check_mean(got, xs):
    m, s, e = stats(xs)
    if m is None:
        x = np.mean(np.array(xs))
        return got == x or (math.isnan(got) and math.isnan(x))
    return abs(F(got) - m) <= e if math.isfinite(got) else False


# ---------------------------------------------------------------- files
# A file is a list of pieces; a piece is a list of (section, arrays or None if absent); an array is (name, type, components, values)

def num(x, t):
    return repr(float(x)) if t.startswith("Float") else str(int(x))


def text(pieces, head=""):
    out = ['<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="0.1" byte_order="LittleEndian"><UnstructuredGrid>']
    for p in pieces:
        out.append('<Piece NumberOfPoints="2" NumberOfCells="1">')
        for sec, arrs in p:
            if arrs is None:
                continue
            out.append("<%s>" % sec)
            for name, t, comp, vals in arrs:
                n = "" if name is None else " Name=" + quoteattr(name)
                c = "" if comp == 1 else ' NumberOfComponents="%d"' % comp
                out.append('<DataArray type="%s"%s%s format="ascii">\n%s\n</DataArray>' % (t, n, c, " ".join(num(v, t) for v in vals)))
            out.append("</%s>" % sec)
        out.append("</Piece>")
    out.append("</UnstructuredGrid></VTKFile>\n")
    return "\n".join(out)


def put(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(s)


def tree(d):
    res = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            res[os.path.relpath(os.path.join(r, x), d)] = None
        for x in fs:
            with open(os.path.join(r, x), "rb") as f:
                res[os.path.relpath(os.path.join(r, x), d)] = f.read()
    return res


def read(p):
    """pieces as above, read independently of the tool"""
    try:
        g = ET.parse(p).getroot()[0]
    except Exception as e:
        raise Bad("%s cannot be read: %s" % (p, e))
    return [[(s.tag, [(c.get("Name"), c.get("type"), int(c.get("NumberOfComponents", "1")), [float(x) for x in (c.text or "").split()], c.get("format")) for c in s]) for s in piece] for piece in g]


def same(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def compare(path, ref, runs, std, mean):
    """ref and runs: descriptions of the reference and of the outputs; path: the file produced"""
    got = read(path)
    if len(got) != len(ref):
        raise Bad("%d pieces instead of %d" % (len(got), len(ref)))
    check = check_std if std else check_digits
    for pi, piece in enumerate(ref):
        gs = {}
        for tag, arrs in got[pi]:
            if tag in gs:
                raise Bad("section %s twice" % tag)
            gs[tag] = list(arrs)
        want = {}     # section -> [(kind, name, type, comp, columns or values)]
        for si, (sec, arrs) in enumerate(piece):
            if arrs is None:
                continue
            want.setdefault(sec, [])
            for ai, (name, t, comp, vals) in enumerate(arrs):
                cols = [[r[pi][si][1][ai][3][k] for r in runs] for k in range(len(vals))]
                if not t.startswith("Float"):
                    want[sec].append(("same", name, t, comp, vals))
                    continue
                want[sec].append(("mean", name, t, comp, cols) if mean else ("same", name, t, comp, vals))
                want.setdefault("PointData" if sec == "Points" else sec, []).append(("acc", (name or "") + "_vfc_accuracy", t, comp, cols))
        if set(gs) != set(want):
            raise Bad("sections %s instead of %s" % (sorted(gs), sorted(want)))
        for sec, ws in want.items():
            left = list(gs[sec])
            # the arrays of the reference keep their order; accuracies may be anywhere in the section
            for kind, name, t, comp, vals in ws:
                for g in left:
                    if g[0] == name and g[1] == t and g[2] == comp and g[4] == "ascii" and len(g[3]) == len(vals):
                        if kind == "same":
                            ok = same(g[3], [float(v) for v in vals])
                        else:
                            ok = all((check_mean if kind == "mean" else check)(x, c) for x, c in zip(g[3], vals))
                        if ok:
                            left.remove(g)
                            break
                else:
                    cand = [g[3] for g in left if g[0] == name]
                    bad = ""
                    if kind != "same" and len(cand) == 1 and len(cand[0]) == len(vals):
                        bad = "; e.g. %s" % [(x, c) for x, c in zip(cand[0], vals) if not (check_mean if kind == "mean" else check)(x, c)][:3]
                    raise Bad("no right %s array %r (%s) in %s of piece %d; there is %s%s" % (kind, name, t, sec, pi, [(g[0], g[1], g[3][:4]) for g in gs[sec]], bad))
                REP["states"] += len(vals)
            if left:
                raise Bad("superfluous arrays in %s: %s" % (sec, [g[0] for g in left]))
            names = [g[0] for g in gs[sec] if not (g[0] or "").endswith("_vfc_accuracy")]
            if names != [w[1] for w in ws if w[0] != "acc"]:
                raise Bad("the arrays of %s changed order: %s" % (sec, names))


OPTS = [[], ["--std"], ["--mean"], ["--std", "--mean"]]


def case(what, files, ref, others=()):
    """files: {vtu name: [description for each output]}; ref: {vtu name: description} or None"""
    for opts in OPTS:
        REP["transitions"] += 1
        shutil.rmtree(D)
        os.makedirs(D)
        n = len(next(iter(files.values())))
        for name, runs in files.items():
            for i, r in enumerate(runs):
                put("%s/in/out%02d/%s" % (D, i, name), text(r))
            if ref:
                put("%s/the ref/%s" % (D, name), text(ref[name]))
        for p, s in others:
            for i in range(n):
                put("%s/in/out%02d/%s" % (D, i, p), s + str(i))
            if ref:
                put("%s/the ref/%s" % (D, p), s + "ref")
        put(D + "/in/README", "not an output\n")
        before = tree(D)
        os.chdir(D)
        o = "res" if len(opts) != 1 else "vfc_postprocess"
        a = opts + (["-r", "the ref"] if ref else []) + (["-o", o] if o == "res" else []) + ["in"]
        rc, out = tool(a)
        try:
            after = tree(D)
            if {k: v for k, v in after.items() if k != o and not k.startswith(o + "/")} != before:
                raise Bad("the inputs changed")
            if rc:
                raise Bad("exit %s\n%s" % (rc, out[-1500:]))
            msgs = []
            for base in [ref] if ref else [{f: files[f][i] for f in files} for i in range(n)]:
                src = "the ref" if ref else "in/out%02d" % [{f: files[f][i] for f in files} for i in range(n)].index(base)
                try:
                    for f in files:
                        compare(os.path.join(D, o, f), base[f], files[f], "--std" in opts, "--mean" in opts)
                    for k, v in before.items():
                        if k.startswith(src + "/") and not k.endswith(".vtu") and after.get(o + k[len(src):]) != v:
                            raise Bad("%s was not copied" % k)
                    extra = {k[len(o) + 1:] for k in after if k.startswith(o + "/")} - {k[len(src) + 1:] for k in before if k.startswith(src + "/")}
                    if extra:
                        raise Bad("superfluous files %s" % sorted(extra))
                    break
                except Bad as e:
                    msgs.append(str(e))
            else:
                raise Bad(" // ".join(msgs[:2]))
            REP["nontrivial"] += 1
        except Bad as e:
            if len(REP["viols"]) < 6:
                REP["viols"].append(("vfc_vtk %s, %s: %s" % (" ".join(a), what, e))[:3000])
        os.chdir(BASE)


def refused(what, prepare, args, allow_out=False):
    REP["transitions"] += 1
    shutil.rmtree(D)
    os.makedirs(D)
    prepare()
    before = tree(D)
    os.chdir(D)
    rc, out = tool(args)
    after = tree(D)
    os.chdir(BASE)
    if rc == 0 or (before != after and not allow_out) or any(after.get(k, 0) != v for k, v in before.items()):
        REP["viols"].append("vfc_vtk %s, %s: exit %s, %s" % (" ".join(args), what, rc, sorted(set(after) ^ set(before))))
    count("refusals")


def main():
    job = itertools.count()

    def mine():
        return next(job) % NSH == SHARD
    deep = TIER != "quick"
    # --- values
    V = [0.0, -0.0, 1.0, -1.0, 1.5, -2.25, 1e-30, -1e30, 1 + 2.0 ** -52, 3.0000001, -7.25e-5, math.nan, math.inf, -math.inf, 12345.678, 2.0 ** -149]
    for n in (1, 2, 3, 4):
        vecs = list(itertools.product(V if n < 4 else V[:11:2] + V[11:14] if not deep else V, repeat=n))
        for t in ("Float32", "Float64"):
            for k in range(0, len(vecs), 4096):
                if mine():
                    part = vecs[k:k + 4096]
                    runs = [[[("PointData", [("v", t, 1, [v[i] for v in part])])]] for i in range(n)]
                    case("all vectors of %d samples" % n, {"a.vtu": runs}, None)
                    case("all vectors of %d samples" % n, {"a.vtu": runs}, {"a.vtu": [[("PointData", [("v", t, 1, [float(j) for j in range(len(part))])])]]})
                    count("sample vectors", len(part))
    # --- structures
    kinds = [None, [], [("a", "Float32", 1)], [("a", "Float64", 3)], [("a", "Float32", 1), ("b'c", "Float64", 1)], [("i", "Int32", 1), ("a", "Float32", 2)], [(None, "Float32", 1)],
             [('q"<&', "Float64", 1), ("é x", "Float32", 1)], [("a", "Float64", 1), ("u", "UInt8", 1), ("aa", "Float64", 1)]]
    if not deep:
        pass
    serial = itertools.count(1)

    def fill(k, r):
        if k is None:
            return None
        return [(nm, t, c, [(hash((nm, t, j)) % 7 + 1) * (1 + .03125 * r) * (-1 if j % 2 else 1) if t.startswith("Float") else j for j in range(2 * c)]) for nm, t, c in k]
    for pd, cd, pts, np_ in itertools.product(kinds, kinds, [None, [("Points", "Float32", 3)], [(None, "Float64", 3)], [("a", "Float32", 3)]], (1, 2)):
        if not mine():
            continue

        def desc(r):
            return [[("PointData", fill(pd, r + 10 * p)), ("CellData", fill(cd, r * 2 + 1 + 10 * p)), ("Points", fill(pts, r * 3 + 2 + 10 * p)),
                     ("Cells", [("connectivity", "Int32", 1, [0, 1]), ("types", "UInt8", 1, [3])])] for p in range(np_)]
        for n in (1, 3):
            case("sections %s / %s / %s, %d pieces, %d outputs" % (pd, cd, pts, np_, n), {"m.vtu": [desc(r) for r in range(n)]}, None if n == 1 else {"m.vtu": desc(.5)})
            count("structures")
    # --- sets of files
    simple = lambda r, s: [[("PointData", [("x", "Float64", 1, [s + r, s - r])])]]
    for names in (["a.vtu"], ["a.vtu", "b.vtu"], ["a b.vtu", "c'd.vtu", "é.vtu"]):
        for n in (1, 2, 3):
            for others in ((), (("notes.txt", "n"), ("sub/deep.vtu.txt", "d"))):
                for ref in (False, True):
                    if mine():
                        case("files %s, %d outputs" % (names, n), {f: [simple(r / 8, j + 1) for r in range(n)] for j, f in enumerate(names)},
                             {f: simple(9, j) for j, f in enumerate(names)} if ref else None, others)
    # --- refusals
    if SHARD == 0:
        good = lambda: [put("%s/in/out%d/a.vtu" % (D, i), text(simple(i, 1))) for i in (0, 1)]
        refused("the output exists", lambda: (good(), put(D + "/res/mine.txt", "mine")), ["-o", "res", "in"])
        refused("the default output exists", lambda: (good(), put(D + "/vfc_postprocess/mine.txt", "mine")), ["in"])
        refused("the output is a file", lambda: (good(), put(D + "/res", "mine")), ["-o", "res", "in"])
        refused("no output directory inside", lambda: put(D + "/in/file.vtu", "x"), ["in"])
        refused("no input", good, ["nowhere"])
        refused("no argument", good, [])
        refused("no reference", good, ["-r", "nowhere", "in"])
        refused("a run misses a file", lambda: (good(), put(D + "/in/out0/b.vtu", text(simple(0, 1))), put(D + "/in/out1/c.vtu", text(simple(0, 1)))), ["-o", "res", "in"], True)
    REP["traces"] = REP["nontrivial"]


main()
os.chdir("/")
print(json.dumps(REP))
