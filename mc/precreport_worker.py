"""Explores vfc_report: all small sets of exploration results, call sites and function lists of the grids, on a
stand-in for matplotlib whose images record what was drawn; the report is compared with the results.  Prints JSON."""
import contextlib, html.parser, io, itertools, json, os, re, runpy, shutil, sys, traceback, warnings

warnings.simplefilter("ignore")
SHARD, NSH, TIER, BASE = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
import pandas as pd
import verificarlo.optimize.report as R

pd.options.mode.chained_assignment = None
REP = {"states": 0, "transitions": 0, "nontrivial": 0, "traces": 0, "viols": [], "samples": [], "counters": {}}
W = os.path.join(BASE, "p%d" % SHARD)
os.makedirs(W)
os.chdir(W)
EXPL = ["ArgumentsResults", "OperationsResults", "AllArgsResults", "AllOpsResults"]
OPS = ["ID", "Lib", "Int", "Float", "Double", "Prec64", "Range64", "Prec32", "Range32", "Ninputs", "Noutputs", "Ncalls"]
ARGS = ["ID", "ArgID", "Lib", "Int", "IO", "Type", "Prec", "Range", "Min", "Max", "Ncalls"]
TYPES = {0: ("float", False), 1: ("double", False), 3: ("float", True), 4: ("double", True)}


class Bad(Exception):
    pass


def count(k, n=1):
    REP["counters"][k] = REP["counters"].get(k, 0) + n


# ---------------------------------------------------------------- results of explorations

def results(sites, covered=None):
    """the four files, as vfc_precexp writes them; covered: for each file, the sites it holds"""
    n = 0
    data = {}
    for e in EXPL:
        rows = []
        for k, s in enumerate(sites):
            if covered is not None and k not in covered[EXPL.index(e)]:
                continue
            nin = sum(1 for a in s["args"] if a[0] == "input:")
            if "Ops" in e or e == "OperationsResults":
                n += 1
                rows.append(dict(zip(OPS, (s["ID"], s["Lib"], s["Int"], s["Float"], s["Double"], 1 + n * 17 % 52, 2 + n * 7 % 10, 1 + n * 5 % 23, 2 + n * 3 % 7,
                                           nin, len(s["args"]) - nin, s["Ncalls"]))))
            else:
                for io_, a, t in s["args"]:
                    n += 1
                    mn, mx = [(-3 * n, 5 * n + 1), (-2 ** 31, 2 ** 31 - 1), (n, n), (0, 0)][n % 4 if n % 3 else 0]
                    rows.append(dict(zip(ARGS, (s["ID"], a, s["Lib"], s["Int"], io_, t, 1 + n * 17 % 52, 2 + n * 7 % 10, mn, mx, s["Ncalls"]))))
        data[e] = rows
    return data


def put(data):
    os.makedirs("vfc_exp_data", exist_ok=True)
    for e in EXPL:
        pd.DataFrame(data[e], columns=OPS if e in ("OperationsResults", "AllOpsResults") else ARGS).to_csv("vfc_exp_data/%s.csv" % e)


def info(i):
    p = i.split("/")
    return dict(zip(("file", "parent", "name", "line", "nb"), p[-5:]))


# ---------------------------------------------------------------- reading the report

class Page(html.parser.HTMLParser):
    KINDS = {"arguments": "AllArgsResults", "operations": "AllOpsResults", "arguments only": "ArgumentsResults", "operations only": "OperationsResults"}

    def __init__(self, text):
        super().__init__()
        self.functions, self.ids, self.script = [], [], ""
        self.depth, self.fun_depth, self.h4, self.a, self.in_script = 0, None, None, None, False
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if d.get("id"):
            self.ids.append(d["id"])
        if tag == "div":
            self.depth += 1
            if "FunctionInformations" in (d.get("class") or "").split():
                self.functions.append([d.get("id"), []])
                self.fun_depth = self.depth
        elif tag == "h4":
            self.h4 = ""
        elif tag == "a":
            self.a = ["", d]
        elif tag == "script":
            self.in_script = True

    def handle_endtag(self, tag):
        if tag == "div":
            if self.depth == self.fun_depth:
                self.fun_depth = None
            self.depth -= 1
        elif tag == "script":
            self.in_script = False
        elif tag == "h4" and self.h4 is not None:
            if self.fun_depth is None:
                raise Bad("the call site %r is outside the functions" % self.h4)
            self.functions[-1][1].append([self.h4, {}])
            self.h4 = None
        elif tag == "a" and self.a:
            kind = self.KINDS.get(" ".join(self.a[0].split()).lower())
            if kind:
                links = self.functions[-1][1][-1][1]
                if kind in links:
                    raise Bad("two links %s for %r" % (kind, self.functions[-1][1][-1][0]))
                m = re.search(r"img/([^'\"]*)", self.a[1].get("onclick") or self.a[1].get("href") or "")
                links[kind] = m.group(1) if m else None
            self.a = None

    def handle_data(self, t):
        if self.h4 is not None:
            self.h4 += t
        if self.a:
            self.a[0] += t
        if self.in_script:
            self.script += t


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def number(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


def ticks(fig, names):
    """position -> label"""
    out, pos, lab = {}, None, None
    for ax in fig["axes"]:
        for name, a, k in ax:
            if name in names:
                for v in list(a) + list(k.values()):
                    if isinstance(v, list) and v and all(isinstance(z, str) for z in v):
                        lab = v
                    elif isinstance(v, list) and all(isinstance(z, (int, float)) for z in v):
                        pos = v
    if lab is None:
        return out
    pos = pos if pos is not None else list(range(len(lab)))
    if len(pos) != len(lab):
        raise Bad("%d labels for %d positions" % (len(lab), len(pos)))
    return dict(zip(pos, lab))


def texts(fig, axis):
    """numbers written at each position along an axis"""
    out = {}
    for ax in fig["axes"]:
        for name, a, k in ax:
            if name in ("text", "annotate"):
                x, y, s = (a + [None] * 3)[:3] if name == "text" else (a[1][0], a[1][1], a[0])
                v = number(s)
                if v is not None:
                    out.setdefault((x, y)[axis], []).append(v)
    return out


def image(name):
    p = os.path.join("vfc_exp_data/img", name)
    if not os.path.isfile(p):
        raise Bad("the image %s does not exist" % name)
    with open(p) as f:
        return json.load(f)


def check_args(fig, rows, what):
    lab = ticks(fig, ("xticks", "set_xticks", "set_xticklabels"))
    tx = texts(fig, 0)
    bars, lines = {}, {}
    for ax in fig["axes"]:
        for name, a, k in ax:
            if name == "bar":
                for x, h in zip(flat([a[0]]), flat([a[1] if len(a) > 1 else k.get("height")])):
                    bars.setdefault(x, []).append(float(h))
            elif name == "vlines":
                for x, lo, hi in zip(flat([a[0]]), flat([a[1]]), flat([a[2]])):
                    lines.setdefault(x, []).append((float(lo), float(hi)))
    left = sorted(set(lab) | set(tx) | set(bars) | set(lines))
    for r in rows:
        t, ptr = TYPES[r["Type"]]
        for x in left:
            l = str(lab.get(x, "")).lower()
            words = l.split()
            if r["ArgID"].lower() in words and r["IO"].rstrip(":") in l and t in words and ({"float": "double", "double": "float"}[t] not in words) and \
               ptr == any(w in l for w in ("ptr", "pointer", "array")) and \
               sorted(tx.get(x, [])) == sorted(float(r[c]) for c in ("Min", "Max", "Range", "Prec")) and \
               sorted(bars.get(x, [])) == sorted(float(r[c]) for c in ("Range", "Prec")) and lines.get(x) == [(float(r["Min"]), float(r["Max"]))]:
                left.remove(x)
                break
        else:
            raise Bad("%s: the chart does not show the argument %s; it shows labels %s, numbers %s, bars %s, intervals %s" % (what, r, lab, tx, bars, lines))
    if left:
        raise Bad("%s: the chart shows more than the arguments %s: %s" % (what, rows, [lab.get(x) for x in left]))
    REP["transitions"] += len(rows)


def check_ops(fig, r, what):
    lab = ticks(fig, ("yticks", "set_yticks", "set_yticklabels"))
    tx = texts(fig, 1)
    seg = {}
    for ax in fig["axes"]:
        for name, a, k in ax:
            if name == "hlines":
                for y, lo, hi in zip(flat([a[0]]), flat([a[1]]), flat([a[2]])):
                    seg.setdefault(y, []).append(float(hi) - float(lo))
            elif name == "barh":
                for y, wd in zip(flat([a[0]]), flat([a[1]])):
                    seg.setdefault(y, []).append(float(wd))
    got = {}
    for y in set(lab) | set(tx) | set(seg):
        got[str(lab.get(y)).lower()] = (sorted(tx.get(y, [])), sorted(seg.get(y, [])))
    want = {}
    for flag, t, p, g in (("Float", "float", "Prec32", "Range32"), ("Double", "double", "Prec64", "Range64")):
        if r[flag]:
            v = sorted([float(r[p]), float(r[g])])
            want[t] = (v, v)
    if got != want:
        raise Bad("%s: the chart shows %s, the exploration found %s" % (what, got, want))
    REP["transitions"] += 1


def run_report(names):
    argv, sys.argv = sys.argv, ["vfc_report"] + list(names)
    out = io.StringIO()
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                R.main()
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                out.write(traceback.format_exc()[-1200:])
                rc = "exception"
    finally:
        sys.argv = argv
    return rc, out.getvalue()


REPORT = "vfc_exp_data/vfc_precexp_report.html"


def judge(data, names):
    rc, out = run_report(names)
    if rc:
        raise Bad("vfc_report fails (%s): %s" % (rc, out))
    if not os.path.exists(REPORT):
        raise Bad("vfc_report writes no report: " + out)
    with open(REPORT) as f:
        page = Page(f.read())
    sel = lambda i: not names or info(i)["name"] in names or info(i)["parent"] in names
    sites = [r for r in data["AllOpsResults"] if sel(r["ID"])]
    total = {}
    for r in sites:
        total[info(r["ID"])["name"]] = total.get(info(r["ID"])["name"], 0) + r["Ncalls"]
    # names of functions may be shown in capitals when this is not ambiguous
    fold = (lambda s: s.upper()) if len({k.upper() for k in total}) == len(total) else (lambda s: s)
    chart = [(fold(a), int(b)) for a, b in re.findall(r"\[\s*['\"]([^'\"]*)['\"]\s*,\s*(\d+)\s*\]", page.script)]
    if sorted(chart) != sorted((fold(k), v) for k, v in total.items()):
        raise Bad("functions and numbers of calls shown: %s, recorded: %s" % (chart, total))
    if [v for _, v in chart] != sorted((v for _, v in chart), reverse=True):
        raise Bad("the functions are not sorted by number of calls: %s" % chart)
    if sorted(fold(f) for f, _ in page.functions) != sorted(fold(k) for k in total):
        raise Bad("functions detailed: %s, recorded: %s" % ([f for f, _ in page.functions], sorted(total)))
    labels = [a for a, _ in re.findall(r"\[\s*['\"]([^'\"]*)['\"]\s*,\s*(\d+)\s*\]", page.script)]
    if sorted(labels) != sorted(f for f, _ in page.functions):
        raise Bad("a click on %s asks for another element than %s" % (labels, [f for f, _ in page.functions]))
    if len(set(page.ids)) != len(page.ids):
        raise Bad("identifiers used twice in the page: %s" % sorted({i for i in page.ids if page.ids.count(i) > 1}))
    for f, shown in page.functions:
        rest = [r for r in sites if fold(info(r["ID"])["name"]) == fold(f)]
        if len(shown) != len(rest):
            raise Bad("%d call sites of %s instead of %d: %s" % (len(shown), f, len(rest), [t for t, _ in shown]))
        # sites that the titles cannot tell apart are matched by their charts
        errors = None
        for perm in itertools.permutations(rest):
            errors = None
            try:
                for (title, links), r in zip(shown, perm):
                    site(title, links, r, data)
            except Bad as e:
                errors = str(e)
                if perm == tuple(rest):
                    first = errors
            if errors is None:
                break
        if errors is not None:
            raise Bad(first)
    REP["states"] += 1
    REP["nontrivial"] += 1 if sites else 0


def site(title, links, r, data):
    i = info(r["ID"])
    t = title
    for w in (i["file"], i["name"]):
        m = re.search(r"(?<![\w.])%s(?![\w.])" % re.escape(w), t, re.I)
        if not m:
            raise Bad("the call site %s is presented as %r" % (r["ID"], title))
        t = t[:m.start()] + t[m.end():]
    if sorted(int(x) for x in re.findall(r"\d+", t)) != sorted([int(i["line"]), r["Ncalls"]]):
        raise Bad("the call site %s executed %d times is presented as %r" % (r["ID"], r["Ncalls"], title))
    want = {}
    for e in ("AllArgsResults", "ArgumentsResults"):
        want[e] = [x for x in data[e] if x["ID"] == r["ID"]]
    for e in ("AllOpsResults", "OperationsResults"):
        want[e] = [x for x in data[e] if x["ID"] == r["ID"] and not x["Lib"] and not x["Int"]]
    for e in EXPL:
        if e not in links:
            raise Bad("%s: no entry for %s" % (r["ID"], e))
        if bool(links[e]) != bool(want[e]):
            raise Bad("%s, %s: %s" % (r["ID"], e, "a chart is offered without result" if links[e] else "no chart is offered"))
        if not links[e]:
            continue
        fig = image(links[e])
        st = " ".join(str(x[1][0]) for x in fig["figure"] if x[0] == "suptitle")
        if i["file"] not in st or not re.search(r"\b%s\b" % i["line"], st) or i["name"].lower() not in st.lower():
            raise Bad("%s, %s: the chart is titled %r" % (r["ID"], e, st))
        if "Args" in e or e == "ArgumentsResults":
            check_args(fig, want[e], "%s, %s" % (r["ID"], e))
        else:
            check_ops(fig, want[e][0], "%s, %s" % (r["ID"], e))


def fresh():
    shutil.rmtree("vfc_exp_data", ignore_errors=True)


def case(what, data, names=(), keep=False):
    if not keep:
        fresh()
    put(data)
    REP["traces"] += 1
    try:
        judge(data, names)
    except Bad as e:
        if len(REP["viols"]) < 8:
            REP["viols"].append(("vfc_report %s on %s: %s" % (" ".join(names), what, e))[:3000])


CNT = [0]


def mine():
    CNT[0] += 1
    return CNT[0] % NSH == SHARD


def S(i, lib=0, int_=0, fl=1, db=1, n=1, args=()):
    return dict(ID=i, Lib=lib, Int=int_, Float=fl, Double=db, Ncalls=n, args=list(args))


def main():
    deep = TIER != "quick"
    # --- one call site: kinds, types, all argument lists
    arg = [(o, t) for o in ("input:", "output:") for t in TYPES]
    lists = [()] + [(a,) for a in arg] + list(itertools.product(arg, repeat=2)) + (list(itertools.product(arg, repeat=3)) if deep else [tuple(arg), tuple(arg[::-1])])
    for (lib, int_), fl, db, l in itertools.product(((0, 0), (1, 0), (0, 1)), (0, 1), (0, 1), lists):
        if mine():
            a = [(o, "x%d" % j if j else "return_value", t) for j, (o, t) in enumerate(sorted(l, key=lambda z: z[0]))]
            case("one call site", results([S("/d/a.c/main/f/12/3", lib, int_, fl, db, 7, a)]))
            count("single call sites")
    # --- sets and orders of call sites of similar identities, and function lists
    two = [("input:", "x", 1), ("output:", "return_value", 0)]
    pool = [S("/d/a.c/main/f/12/1", n=3, args=two), S("/d/a.c/main/f/30/2", n=5, args=[("input:", "p", 3)]), S("/e/a.c/g/f/12/1", n=3, args=two, fl=0),
            S("/d/a_c/main/f/12/1", n=3, args=two), S("/d/b.c/f/g/4/0", n=9, args=two, db=0), S("/d/b.c/f/G/4/1", n=9), S("b.c//main/1/0", n=1, fl=0),
            S("/d/a.c/f/llvm.fabs.f64/12/7", int_=1, n=12, args=two), S("/d/a.c/f/llvm_fabs_f64/12/7", lib=1, n=2, args=two), S("/d/a.c/main/f_12/1/1", n=20000, args=two[:1])]
    lists = [()] + [(n,) for n in ("f", "g", "main", "nothing", "llvm.fabs.f64", "G")] + [("f", "g"), ("g", "G"), ("f", "f_12"), ("main", "nothing"), ("llvm_fabs_f64", "g")]
    for k in (0, 1, 2, 3) + ((4,) if deep else ()):
        for c in itertools.permutations(range(len(pool)), k) if k < 3 or deep else [p for p in itertools.permutations(range(len(pool)), k) if list(p) == sorted(p) or p[0] > p[-1]]:
            if not mine():
                continue
            d = results([pool[j] for j in c])
            for nm in lists if k < 3 or deep else lists[:1] + lists[1 + sum(c) % (len(lists) - 1):][:1]:
                case("call sites %s" % [pool[j]["ID"] for j in c], d, nm)
                count("sets of call sites")
    # --- explorations run on different sets of functions
    ids = (0, 4, 7)
    subs = [tuple(x for x in range(3) if m >> x & 1) for m in range(8)]
    for a, b, c, e in itertools.product(subs, subs, subs, subs if deep else subs[-1:] + subs[1:4]):
        if mine():
            case("explorations of %s" % [(x,) for x in (a, b, c, e)], results([pool[j] for j in ids], (a, b, c, e)))
            count("explorations of different sets")
    # --- a report over an earlier one
    ds = [results([pool[j] for j in c]) for c in ((0,), (1, 0), (0, 1), (4, 5), (7, 2, 3), ())]
    for x, y in itertools.product(range(len(ds)), repeat=2):
        for nm in ((), ("f",)):
            if mine():
                fresh()
                put(ds[x])
                run_report(())
                case("new results over a report of earlier ones", ds[y], nm, keep=True)
                count("reports over earlier ones")
    # --- missing results: no report that would look complete
    for m in range(15):
        if mine():
            fresh()
            put(ds[1])
            for b, e in enumerate(EXPL):
                if not m >> b & 1:
                    os.unlink("vfc_exp_data/%s.csv" % e)
            rc, out = run_report(())
            REP["states"] += 1
            if os.path.exists(REPORT) or rc == "exception" or not out.strip():
                REP["viols"].append("vfc_report without %s: %s %s, report %s" % ([e for b, e in enumerate(EXPL) if not m >> b & 1], rc, out[-600:], os.path.exists(REPORT)))
            count("missing results")


main()
os.chdir("/")
print(json.dumps(REP))
