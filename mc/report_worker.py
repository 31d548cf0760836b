"""Explores the CI report (vfc_ci serve) on a headless Bokeh document: every selection, every ordered pair
of selections and every state of each view, on small sets of run files; after each step every plot, tooltip and
table is compared with the run files.  One shard; prints a JSON report."""
import contextlib, io, itertools, json, math, os, pickle, re, runpy, shutil, subprocess, sys, time, traceback, warnings

warnings.simplefilter("ignore")
pickle.HIGHEST_PROTOCOL = 4
FAKE, SHARD, NSH, TIER, BASE = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
import logging
logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import verificarlo.ci.test as T
from bokeh.document import Document
from bokeh.io.doc import patch_curdoc
from bokeh.models import GlyphRenderer, HoverTool

warnings.simplefilter("ignore")
REPORT = os.path.join(os.path.dirname(T.__file__), "vfc_ci_report")
sys.path.insert(0, REPORT)
REP = {"states": 0, "transitions": 0, "nontrivial": 0, "traces": 0, "viols": [], "samples": [], "counters": {}}
IDX = ["test", "variable", "vfc_backend"]


class Bad(Exception):
    pass


def violation(m):
    if len(REP["viols"]) < 8:
        REP["viols"].append(m[:3000])


def count(k, n=1):
    REP["counters"][k] = REP["counters"].get(k, 0) + n


# ---------------------------------------------------------------- run files

def stat_row(i, k=0):
    """distinct recognisable values; i numbers the (run, probe)"""
    return dict(mu=i + .5, sigma=(i % 23) / 8 + .125, s10=(i * 7 % 16) + .25, s2=(i * 5 % 53) + .5,
                s10_lower_bound=(i * 7 % 16) - .5, s2_lower_bound=(i * 5 % 53) - .25,
                accuracy_threshold=[0.0, .125, -2.0 ** -20][i % 3], check_mode=["none", "absolute", "relative"][i % 3],
                pvalue=(i % 10) / 16, min=float(i), quantile25=i + .25, quantile50=i + .375, quantile75=i + .75,
                max=i + 1.0, check=(i * i + k) % 4 != 2 if i % 3 else True, nsamples=3 + i % 5)


def det_row(i, k=0):
    return dict(value=i * 1.5, accuracy_threshold=[0.0, .25, -2.0 ** -30][i % 3], check_mode=["none", "absolute", "relative"][i % 3],
                reference_value=i * 1.5 + .0625 * (i % 4), check=(i * i + k) % 4 != 1 if i % 3 else True)


def frame(rows, ts):
    if not rows:
        return pd.DataFrame()
    f = pd.DataFrame([dict(zip(IDX, k), **v, timestamp=ts) for k, v in rows.items()])
    return f.set_index(IDX).sort_index()


def write(d, runs):
    """runs: (timestamp, url, branch, hash, data rows, deterministic rows)"""
    os.makedirs(d)
    for n, (ts, url, branch, h, data, det) in enumerate(runs):
        md = pd.DataFrame([{"timestamp": ts, "is_git_commit": bool(h), "remote_url": url, "branch": branch, "hash": h,
                            "author": "Au %s <%s@x>" % (h, h) if h else "", "message": "message of %s" % h if h else ""}]).set_index("timestamp")
        p = os.path.join(d, (h or str(ts)) + ".vfcrun.h5")
        md.to_hdf(p, key="metadata")
        frame(data, ts).to_hdf(p, key="data")
        frame(det, ts).to_hdf(p, key="deterministic_data")


class Rec:
    """What the run files of a directory hold (read without the code under test)"""

    def __init__(self, d, max_files=100, ignore=0):
        self.runs = []
        for f in os.listdir(d):
            if not f.endswith(".vfcrun.h5"):
                continue
            p = os.path.join(d, f)
            md = pd.read_hdf(p, "metadata")
            r = dict(md.iloc[0])
            r["timestamp"] = int(md.index[0])
            for key, col in (("data", "data"), ("deterministic_data", "det")):
                df = pd.read_hdf(p, key)
                r[col] = {tuple(k): dict(row) for k, row in df.iterrows()} if len(df) else {}
            self.runs.append(r)
        self.runs.sort(key=lambda r: r["timestamp"])
        if ignore:
            self.runs = self.runs[:-ignore]
        self.runs = self.runs[-max_files:]


# ---------------------------------------------------------------- session

def freeze(doc):
    """only a matter of speed: the models of the document are collected once"""
    f = getattr(doc.models, "freeze", None)
    return f() if f else contextlib.nullcontext()


class Session:
    def __init__(self, d, rec, args=None):
        self.rec = rec
        self.doc = Document()
        argv, cwd = sys.argv, os.getcwd()
        sys.argv = ["main.py"] + (["directory", d] if args is None else args)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), patch_curdoc(self.doc), freeze(self.doc):
                self.glob = runpy.run_path(os.path.join(REPORT, "main.py"))
        except Exception:
            raise Bad("the report could not be built: " + traceback.format_exc()[-1500:])
        finally:
            sys.argv = argv
        self.names()

    def w(self, name):
        m = self.doc.get_model_by_name(name)
        if m is None:
            raise Bad("the report has no %s, which its page displays" % name)
        return m

    def names(self):
        """run and repository names, as given to the page"""
        tv = self.doc.template_variables
        md = {int(k): v for k, v in json.loads(tv["metadata"]).items()}
        want = [r["timestamp"] for r in self.rec.runs]
        if sorted(md) != want:
            raise Bad("the report holds the runs %s instead of %s" % (sorted(md), want))
        self.name = {t: md[t]["name"] for t in md}
        if len(set(self.name.values())) != len(self.name):
            raise Bad("two runs have the same name: %s" % self.name)
        for r in self.rec.runs:
            m = md[r["timestamp"]]
            for f in ("remote_url", "branch", "hash", "author", "message"):
                if m[f] != r[f]:
                    raise Bad("%s of run %s is shown as %r, recorded %r" % (f, r["timestamp"], m[f], r[f]))
            if bool(m["is_git_commit"]) != bool(r["is_git_commit"]) or m["date"] != time.ctime(r["timestamp"]):
                raise Bad("metadata of run %s: %s" % (r["timestamp"], m))
            if r["hash"] and r["hash"] not in m["name"]:
                raise Bad("name %r of the run of commit %s" % (m["name"], r["hash"]))
        self.repo = {t: md[t]["repo_name"] for t in md}
        pairs = {(r["remote_url"], r["branch"]): set() for r in self.rec.runs}
        for r in self.rec.runs:
            pairs[r["remote_url"], r["branch"]].add(self.repo[r["timestamp"]])
        if any(len(s) != 1 for s in pairs.values()) or len({next(iter(s)) for s in pairs.values()}) != len(pairs):
            raise Bad("repositories and branches %s" % {k: sorted(v) for k, v in pairs.items()})
        for (u, b), s in pairs.items():
            n = next(iter(s))
            if (u and (b not in n or u.split("/")[-1] not in n)):
                raise Bad("branch %s of %s is called %r" % (b, u, n))
        opts = self.w("select_repo").options
        if sorted(opts) != sorted(set(self.repo.values())):
            raise Bad("repositories offered: %s, recorded: %s" % (opts, sorted(set(self.repo.values()))))
        urls = json.loads(tv["repo_names_dict"])
        for (u, b), s in pairs.items():
            if urls.get(next(iter(s))) != u:
                raise Bad("link of %s: %r, recorded %r" % (next(iter(s)), urls.get(next(iter(s))), u))
        if int(tv["initial_timestamp"]) not in md or self.name[int(tv["initial_timestamp"])] != self.w("select_run").value:
            raise Bad("initial run %r shown with the metadata of %s" % (self.w("select_run").value, tv["initial_timestamp"]))

    # ------------------------------------------------------------ actions
    def set(self, name, attr, value):
        setattr(self.w(name), attr, value)

    def jsfilter(self, textbox, text):
        """what the page does when the user types in the filter of the tests"""
        w = self.w(textbox)
        for cb in w.js_property_callbacks.get("change:value", []):
            opts = cb.args["options"]
            sel = cb.args["selector"]
            sel.options = [e for e in opts if text in e]

    def click(self, plot, i):
        """tap on the i-th run of a plot; returns the run shown there"""
        r = main_renderer(self.w(plot))
        x = column(r, "x")
        if i >= len(x):
            return None
        r.data_source.selected.indices = [i]
        r.data_source.selected.indices = []
        return x[i]

    # ------------------------------------------------------------ oracle
    def repo_runs(self):
        repo = self.w("select_repo").value
        return [r for r in self.rec.runs if self.repo[r["timestamp"]] == repo]

    def check(self):
        runs = self.repo_runs()
        self.check_compare(runs)
        self.check_det(runs)
        self.check_inspect(runs)
        self.check_tables(runs)

    def keys(self, runs, col, prefix):
        """consistency of the test/variable/backend selections; returns the selected key"""
        ks = {k for r in runs for k in r[col]}
        t, v, b = [self.w(prefix % x) for x in ("test", "var", "backend")]
        if not ks:
            if (t.value, v.value, b.value) != ("None",) * 3:
                raise Bad("%s: %r selected in a repository without such data" % (prefix, (t.value, v.value, b.value)))
            return None
        key = (t.value, v.value, b.value)
        if key not in ks:
            raise Bad("%s: %r is selected, recorded are %s" % (prefix, key, sorted(ks)[:20]))
        tests = {k[0] for k in ks}
        if not set(t.options) <= tests or not self.filtered.get(prefix) and set(t.options) != tests:
            raise Bad("%s: tests offered %s, recorded %s" % (prefix, t.options, sorted(tests)))
        if sorted(v.options) != sorted({k[1] for k in ks if k[0] == key[0]}):
            raise Bad("%s: variables offered %s for %s" % (prefix, v.options, key))
        if sorted(b.options) != sorted({k[2] for k in ks if k[:2] == key[:2]}):
            raise Bad("%s: backends offered %s for %s" % (prefix, b.options, key))
        return key

    filtered = {}

    def rows(self, runs, col, key, nsel):
        rows = []
        for r in runs:
            if key in r[col]:
                e = dict(r[col][key])
                e.update({k: r[k] for k in ("hash", "author", "message", "is_git_commit")})
                e["x"] = self.name[r["timestamp"]]
                e["date"] = time.ctime(r["timestamp"])
                rows.append(e)
        n = nsel.value
        m = re.search(r"\d+", n)
        return rows[-int(m.group()):] if m else rows

    def check_compare(self, runs):
        key = self.keys(runs, "data", "select_%s")
        rows = self.rows(runs, "data", key, self.w("select_n_runs"))
        out = bool(self.w("outliers_filtering_compare").active)
        for st in ("sigma", "s10", "s2"):
            rr = keep(rows, st) if out else rows
            self.dotplot(st + "_plot", rr, st, st + "_lower_bound" if st != "sigma" else None)
        self.boxplot("boxplot", rows, "", True)

    def check_det(self, runs):
        key = self.keys(runs, "det", "select_deterministic_%s")
        rows = self.rows(runs, "det", key, self.w("select_n_deterministic_runs"))
        if self.w("outliers_filtering_deterministic").active:
            rows = keep(rows, "value")
        self.dotplot("comparison_plot", rows, "value", None)
        # the reference is shown where the check failed
        rs = [r for r in self.w("comparison_plot").renderers if isinstance(r, GlyphRenderer) and r.glyph.y not in ("value",)]
        for r in rs:
            ref = column(r, "y")
            want = [math.nan if e["check"] else e["reference_value"] for e in rows]
            if not same(ref, want):
                raise Bad("IEEE references shown: %s, recorded %s" % (list(ref), want))
            if not same(column(r, "x"), [e["x"] for e in rows]):
                raise Bad("IEEE references are shown at %s" % list(column(r, "x")))
        if not rs:
            raise Bad("the IEEE references are not shown")

    TIPS = {"Git commit": "is_git_commit", "Date": "date", "Hash": "hash", "Author": "author", "Message": "message",
            "Min": "min", "Max": "max", "1st quartile": "quantile25", "Median": "quantile50", "3rd quartile": "quantile75",
            "μ": "mu", "p-value": "pvalue", "Number of samples": "nsamples", "σ": "sigma", "Check's accuracy target": "accuracy_threshold",
            "Backend value": "value", "Reference value": "reference_value", "Accuracy target": "accuracy_threshold", "Name": "x",
            "Number of samples (tests)": "nsamples"}

    def tips(self, plot, r, rows, more):
        hs = [t for t in self.w(plot).toolbar.tools if isinstance(t, HoverTool)]
        if len(hs) != 1 or hs[0].renderers == "auto" or r not in hs[0].renderers:
            raise Bad("%s has %d tooltips on its points" % (plot, len(hs)))
        for label, spec in hs[0].tooltips:
            m = re.match(r"@\{?(\w+)\}?", spec)
            field = more.get(label, self.TIPS.get(label))
            if m is None or field is None:
                continue
            if m.group(1) not in r.data_source.data:
                if not rows:
                    continue
                raise Bad("%s: tooltip %r shows no data (%s)" % (plot, label, spec))
            got = r.data_source.data[m.group(1)]
            if not same(got, [e[field] for e in rows]):
                raise Bad("%s: tooltip %r shows %s, recorded %s" % (plot, label, list(got), [e[field] for e in rows]))
            count("tooltip columns compared")

    def common(self, plot, rows):
        p = self.w(plot)
        for r in p.renderers:
            if not isinstance(r, GlyphRenderer):
                continue
            ls = {len(c) for c in r.data_source.data.values()}
            if len(ls) > 1:
                raise Bad("%s: columns of different lengths %s" % (plot, {k: len(c) for k, c in r.data_source.data.items()}))
            xs = "x" if hasattr(r.glyph, "x") else "x0"
            if not same(column(r, xs), [e["x"] for e in rows]):
                raise Bad("%s shows the runs/groups %s instead of %s" % (plot, list(column(r, xs)), [e["x"] for e in rows]))
        if list(p.x_range.factors) != [e["x"] for e in rows]:
            raise Bad("%s: axis %s for %s" % (plot, list(p.x_range.factors), [e["x"] for e in rows]))
        REP["transitions"] += 1
        if rows:
            REP["nontrivial"] += 1

    def dotplot(self, plot, rows, stat, lower):
        self.common(plot, rows)
        p = self.w(plot)
        r = main_renderer(p)
        want = [e[stat] for e in rows]
        seen = False
        for g in p.renderers:
            if not isinstance(g, GlyphRenderer):
                continue
            if type(g.glyph).__name__ == "Segment":
                a, b = column(g, "y0"), column(g, "y1")
                if lower is None or not (same(a, want) and same(b, [e[lower] for e in rows])):
                    raise Bad("%s: bounds %s-%s, recorded %s" % (plot, list(a), list(b), [(e[stat], e.get(lower)) for e in rows]))
                seen = True
            elif g.glyph.y == r.glyph.y and not same(column(g, "y"), want):
                raise Bad("%s: %s shown, recorded %s" % (plot, list(column(g, "y")), want))
        if lower and not seen:
            raise Bad("%s: no lower bounds" % plot)
        if not same(column(r, "y"), want):
            raise Bad("%s: %s shown, recorded %s" % (plot, list(column(r, "y")), want))
        if rows and "check" in rows[0]:
            self.colors(plot, r, rows)
        self.tips(plot, r, rows, {"s": stat, "s lower bound": lower})

    def colors(self, plot, r, rows):
        c = column(r, "fill_color")
        if isinstance(c, str):
            raise Bad("%s: no distinction of failed checks" % plot)
        red = [int(x[1:3], 16) > int(x[5:7], 16) for x in c]
        if red != [not e["check"] for e in rows]:
            raise Bad("%s: shown as failed %s, recorded as passing %s" % (plot, red, [bool(e["check"]) for e in rows]))

    def boxplot(self, plot, rows, prefix, colors):
        """rows have min, quantile25.. max, mu"""
        self.common(plot, rows)
        p = self.w(plot)
        segs, bars, dots = [], [], []
        for g in p.renderers:
            if not isinstance(g, GlyphRenderer):
                continue
            k = type(g.glyph).__name__
            if k == "Segment":
                segs.append([tuple(sorted(map(float, ab))) for ab in zip(column(g, "y0"), column(g, "y1"))])
            elif k == "VBar":
                bars.append([tuple(map(float, ab)) for ab in zip(column(g, "bottom"), column(g, "top"))])
            else:
                dots.append([float(y) for y in column(g, "y")])
        S = [[(e["min"], e["quantile25"]) for e in rows], [(e["quantile75"], e["max"]) for e in rows]]
        if not all(any(close2(s, w) for s in segs) for w in S) or not all(any(close2(s, w) for w in S) for s in segs):
            raise Bad("%s: stems %s, recorded %s" % (plot, segs, S))
        full = [(e["quantile25"], e["quantile75"]) for e in rows]
        half = [[(e["quantile25"], e["quantile50"]) for e in rows], [(e["quantile50"], e["quantile75"]) for e in rows]]
        if not all(any(close2(b, w) for w in [full] + half) for b in bars) or not any(close2(b, w) for b in bars for w in half) \
           or not (any(close2(b, full) for b in bars) or all(any(close2(b, w) for b in bars) for w in half)):
            raise Bad("%s: boxes %s, recorded quartiles %s" % (plot, bars, [(e["quantile25"], e["quantile50"], e["quantile75"]) for e in rows]))
        if not dots or not all(close1(d, [e["mu"] for e in rows]) for d in dots):
            raise Bad("%s: averages %s, recorded %s" % (plot, dots, [e["mu"] for e in rows]))
        r = main_renderer(p)
        if colors and rows:
            self.colors(plot, r, rows)
        self.tips(plot, r, rows, {})

    def run_of(self, name, runs, what):
        rs = [r for r in runs if self.name[r["timestamp"]] == name]
        if len(rs) != 1:
            raise Bad("%s: the run %r is selected, the repository has %s" % (what, name, [self.name[r["timestamp"]] for r in runs]))
        return rs[0]

    def runs_offered(self, w, runs):
        if sorted(w.options) != sorted(self.name[r["timestamp"]] for r in runs):
            raise Bad("%s offers %s, the repository has %s" % (w.name, w.options, [self.name[r["timestamp"]] for r in runs]))

    FACT = {"Variables": 1, "Backends": 2, "Tests": 0}

    def check_inspect(self, runs):
        w = self.w("select_run")
        self.runs_offered(w, runs)
        data = self.run_of(w.value, runs, "inspected run")["data"]
        gr, fr, fv = self.w("groupby_radio"), self.w("filterby_radio"), self.w("select_filter")
        if sorted(gr.labels) != sorted(self.FACT) or sorted(fr.labels) != sorted(x for x in self.FACT if x != gr.labels[gr.active]):
            raise Bad("grouped by %s of %s, filtered by %s" % (gr.active, gr.labels, fr.labels))
        g, f = self.FACT[gr.labels[gr.active]], self.FACT[fr.labels[fr.active]]
        offered = sorted({k[f] for k in data}) or ["None"]
        if sorted(fv.options) != offered or fv.value not in offered:
            raise Bad("filter %r of %s, recorded %s" % (fv.value, fv.options, offered))
        groups = {}
        for k in sorted(data):
            if k[f] == fv.value:
                groups.setdefault(k[g], []).append(data[k])
        short = lambda x: x[:17] + "[...]" + x[-17:] if len(x) > 39 else x
        out = bool(self.w("outliers_filtering_inspect").active)
        rows = [{"x": short(n), "nsamples": len(l), "mu": sum(e["mu"] * e["nsamples"] for e in l) / sum(e["nsamples"] for e in l)} for n, l in sorted(groups.items())]
        rr = keep(rows, "mu") if out else rows
        self.dotplot("mu_inspect", rr, "mu", None)
        for st in ("sigma", "s10", "s2"):
            rows = []
            for n, l in sorted(groups.items()):
                v = sorted(e[st] for e in l)
                q = lambda p: v[int(p * (len(v) - 1))] + (v[min(int(p * (len(v) - 1)) + 1, len(v) - 1)] - v[int(p * (len(v) - 1))]) * (p * (len(v) - 1) - int(p * (len(v) - 1)))
                rows.append({"x": short(n), "nsamples": len(l), "min": v[0], "max": v[-1], "quantile25": q(.25), "quantile50": q(.5), "quantile75": q(.75), "mu": sum(v) / len(v)})
            if out:
                rows = keep(keep(rows, "max"), "min")
            self.boxplot(st + "_inspect", rows, st, False)

    def check_tables(self, runs):
        for sel, tab, col, f in (("select_check_run_non_deterministic", "non_deterministic_checks_table", "data", ("mu", "sigma")),
                                 ("select_check_run_deterministic", "deterministic_checks_table", "det", ("value", "reference_value"))):
            w = self.w(sel)
            self.runs_offered(w, runs)
            data = self.run_of(w.value, runs, sel)[col]
            want = sorted((k + (float(e["accuracy_threshold"]), e["check_mode"].capitalize(), float(e[f[0]]), float(e[f[1]]), bool(e["check"])) for k, e in data.items() if e["accuracy_threshold"] != 0), key=repr)
            t = self.w(tab)
            cols = [c.field for c in t.columns]
            need = IDX + ["accuracy_threshold", "check_mode", f[0], f[1], "check"]
            if sorted(cols) != sorted(need):
                raise Bad("%s has the columns %s" % (tab, cols))
            src = t.source.data
            if not want and not len(src.get("check", ())):
                continue
            got = sorted(((str(a), str(b), str(c), float(d), str(m), float(x), float(y), bool(k)) for a, b, c, d, m, x, y, k in zip(*[src[c] for c in need])), key=repr)
            if repr(got) != repr(want):
                raise Bad("%s of %s shows %s, recorded %s" % (tab, w.value, got, want))
            REP["transitions"] += 1
            count("checks tables compared")

    # ------------------------------------------------------------ state, enabled actions
    def state(self, group):
        s = [self.w("select_repo").value]
        for n in GROUPS[group]:
            w = self.w(n)
            s.append(repr(getattr(w, "value", None)) + repr(getattr(w, "active", None)) + repr(getattr(w, "options", None)))
        return tuple(s)

    def actions(self, group):
        acts = [("set", "select_repo", "value", v) for v in self.w("select_repo").options]
        for n in GROUPS[group]:
            w = self.w(n)
            if hasattr(w, "options"):
                acts += [("set", n, "value", v) for v in w.options]
            elif n.startswith("outliers"):
                acts += [("set", n, "active", v) for v in ((), (0,))]
            else:
                acts += [("set", n, "active", i) for i in range(len(w.labels))]
        if group == "compare":
            acts += [("filter", "test_filter", t) for t in TEXTS]
        if group == "det":
            acts += [("filter", "deterministic_test_filter", t) for t in TEXTS]
        if group == "inspect":
            acts += [("click", p, i) for p in ("boxplot", "sigma_plot", "s10_plot", "s2_plot") for i in range(3)]
        if group == "checks":
            acts += [("click", "comparison_plot", i) for i in range(3)]
        return acts

    def do(self, a):
        if a[0] == "set":
            w = self.w(a[1])
            if hasattr(w, "options") and a[3] not in w.options:
                return False
            if a[1] == "select_repo" and w.value != a[3]:
                self.filtered = {}
            if a[1].endswith("filterby_radio") and a[3] >= len(w.labels):
                return False
            setattr(w, a[2], list(a[3]) if isinstance(a[3], tuple) else a[3])
        elif a[0] == "filter":
            p = "select_%s" if a[1] == "test_filter" else "select_deterministic_%s"
            self.filtered = dict(self.filtered)
            self.filtered[p] = a[2] != ""
            self.jsfilter(a[1], a[2])
        else:
            run = self.click(a[1], a[2])
            if run is None:
                return False
            for n in ("select_check_run_deterministic",) if a[1] == "comparison_plot" else ("select_run",):
                if self.w(n).value != run:
                    raise Bad("after a click on run %r of %s, %s shows %r" % (run, a[1], n, self.w(n).value))
        return True


GROUPS = {"compare": ["select_test", "select_var", "select_backend", "select_n_runs", "outliers_filtering_compare"],
          "det": ["select_deterministic_test", "select_deterministic_var", "select_deterministic_backend", "select_n_deterministic_runs", "outliers_filtering_deterministic"],
          "inspect": ["select_run", "groupby_radio", "filterby_radio", "select_filter", "outliers_filtering_inspect"],
          "checks": ["select_check_run_non_deterministic", "select_check_run_deterministic"], "repos": []}
ALL = [n for g in GROUPS.values() for n in g]
TEXTS = ["", "a", "zzz"]


def main_renderer(p):
    for r in p.renderers:
        if r.name in ("circle", "full_box"):
            return r
    raise Bad("%s has no points" % p.name)


def column(r, prop):
    """the values a glyph property takes over the data source"""
    v = getattr(r.glyph, prop)
    if hasattr(v, "field"):
        v = v.field
    if isinstance(v, dict) and "field" in v:
        v = v["field"]
    d = r.data_source.data
    if isinstance(v, str) and not v.startswith("#") and v not in d:
        if not any(len(c) for c in d.values()):
            return []
        raise Bad("a plot uses the column %r, which is not there" % v)
    return d[v] if isinstance(v, str) and v in d else v


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x == y or (isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)) and (x != x and y != y or abs(x - y) <= 1e-12 * max(abs(x), abs(y)))) for x, y in zip(a, b))


def close1(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-12 * max(abs(x), abs(y), 1e-300) for x, y in zip(a, b))


def close2(a, b):
    return len(a) == len(b) and all(close1(x, y) for x, y in zip(a, b))


def keep(rows, f):
    """rows that are not outliers (within three standard deviations of the mean)"""
    v = [float(e[f]) for e in rows]
    if len(v) <= 2:
        return rows
    m = sum(v) / len(v)
    s = math.sqrt(sum((x - m) ** 2 for x in v) / len(v))
    if max(v) == min(v):
        return rows
    for x in v:
        if abs(abs(x - m) - 3 * s) < 1e-6 * s:
            raise RuntimeError("a value at the limit of outliers in the grid")
    out = [e for e, x in zip(rows, v) if abs(x - m) < 3 * s]
    if len(out) != len(rows):
        count("outliers removed", len(rows) - len(out))
    return out


# ---------------------------------------------------------------- exploration

def explore(scn, d, groups=tuple(GROUPS), pairs=(), skip=()):
    """all (state, action) of each group, then all ordered pairs of the actions of the groups in pairs"""
    rec = Rec(d)
    acts_of = lambda s, g: [a for a in s.actions(g) if a[1] not in skip]
    hist = []

    def step(s, a):
        hist.append(a)
        try:
            if not s.do(a):
                hist.pop()
                return False
            s.check()
        except Bad:
            raise
        except Exception:
            raise Bad("a callback failed: " + traceback.format_exc()[-1200:])
        REP["traces"] += 1
        return True

    try:
        for g in groups:
            s = Session(d, rec)
            s.check()
            hist[:] = ["start"]
            todo, edges = {}, {}
            for _ in range(20000):
                st = s.state(g)
                if st not in todo:
                    todo[st] = acts_of(s, g)
                    edges[st] = {}
                    REP["states"] += 1
                if todo[st]:
                    a = todo[st].pop()
                else:
                    # the way to the nearest state with something left
                    seen, q, a = {st: None}, [st], None
                    for x in q:
                        if todo[x]:
                            while seen[x][0] != st:
                                x = seen[x][0]
                            a = seen[x][1]
                            break
                        for act, y in edges[x].items():
                            if y not in seen:
                                seen[y] = (x, act)
                                q.append(y)
                    if a is None:
                        if any(todo.values()):
                            count("states left behind", sum(1 for x in todo.values() if x))
                        break
                if step(s, a):
                    edges[st][a] = s.state(g)
            else:
                raise RuntimeError("too many states: %s %s %d %s %s" % (scn, g, len(todo), hist[-6:], [(x, t) for x, t in todo.items() if t][:3]))
        if pairs:
            s = Session(d, rec)
            hist[:] = ["start"]
            acts = []
            for g in pairs:
                for a in acts_of(s, g):
                    if a not in acts:
                        acts.append(a)
            # a closed walk over the complete graph of the actions (every ordered pair once)
            left = {i: list(range(len(acts))) for i in range(len(acts))}
            stack, walk = [0], []
            while stack:
                v = stack[-1]
                if left[v]:
                    stack.append(left[v].pop())
                else:
                    walk.append(stack.pop())
            for i in reversed(walk):
                step(s, acts[i])
            count("ordered pairs of actions", len(acts) ** 2)
        count("scenarios")
        if len(REP["samples"]) < 2:
            REP["samples"].append({"scenario": scn, "runs": len(rec.runs), "last actions": [list(map(str, a)) for a in hist[-4:]]})
    except Bad as e:
        violation("report on %s after the selections %s: %s" % (scn, hist[-6:], e))


def load(scn, d, args, rec):
    try:
        s = Session(d, rec, args)
        s.check()
        REP["traces"] += 1
        REP["states"] += 1
        return s
    except Bad as e:
        violation("report on %s (arguments %s): %s" % (scn, args, e))
    except Exception:
        violation("report on %s (arguments %s): %s" % (scn, args, traceback.format_exc()[-1200:]))


T0 = 1600000000
GH = "https://github.com/own/rep"


def probes(tests, vars, backends, skip=lambda k, r: False):
    return [(t, v, b) for t in tests for v in vars for b in backends]


def scenarios():
    """name -> list of runs"""
    out = {}
    K = itertools.count(1)

    def rows(keys, r, fn, k=0):
        return {key: fn(next(K), k) for key in keys}
    A = probes(["alpha", "beta"], ["va", "vb"], ["libinterflop_mca.so", "libinterflop_bitmask.so --precision-binary64=5"])
    A2 = [k for k in A if k != ("beta", "vb", "libinterflop_mca.so")] + [("gamma", "vc", "libinterflop_mca.so")]
    D = probes(["alpha", "delta"], ["va"], ["libinterflop_vprec.so", "libinterflop_ieee.so"])
    D2 = [("delta", "vz", "libinterflop_vprec.so"), ("alpha", "va", "libinterflop_vprec.so")]
    out["two repositories"] = [
        (T0 + 100 * i, GH if i % 2 else "", "master" if i % 2 else "", "abcdef%d" % i if i % 2 else "",
         rows(A2 if i % 2 else A if i != 4 else A[:3], i, stat_row, i), rows(D2 if i % 2 else D, i, det_row, i)) for i in range(7)]
    out["one repository, probes come and go"] = [
        (T0 + 100 * i, GH, "main", "1234ab%d" % i, rows([k for j, k in enumerate(A) if (j + i) % 3], i, stat_row, i),
         rows([k for j, k in enumerate(D) if (j + i) % 2], i, det_row, i)) for i in range(6)]
    out["non-deterministic only"] = [(T0 + i, "", "", "", rows(A[:3], i, stat_row, i), {}) for i in range(3)]
    out["deterministic only"] = [(T0 + i, "", "", "", {}, rows(D, i, det_row, i)) for i in range(3)]
    out["a run without non-deterministic data"] = [(T0 + i, GH, "m", "00000%dx" % i, rows(A[:2], i, stat_row, i) if i != 1 else {}, rows(D[:2], i, det_row, i) if i != 2 else {}) for i in range(4)]
    out["each repository has one kind"] = [(T0 + i, GH if i % 2 else "", "m" if i % 2 else "", "0a00%d" % i if i % 2 else "", rows(A[:2], i, stat_row) if i % 2 else {}, {} if i % 2 else rows(D[:3], i, det_row)) for i in range(4)]
    out["one run"] = [(T0, "", "", "", rows(A[:1], 0, stat_row), rows(D[:1], 0, det_row))]
    big = [("t", "v%02d" % j, "b") for j in range(13)] + [("u", "v%02d" % j, "b") for j in range(13)]

    def outl(i):
        x = stat_row(next(K))
        x.update(sigma=.25, s10=100.0 if i == 5 else i * 5 % 13 / 4, s2=500.0 if i == 5 else 400.0 if i == 9 else 1 + i / 64, mu=i * 3 % 13 / 2 if i != 7 else 1e3)
        return x
    out["outliers"] = [(T0 + 100 * i, "", "", "", {k: dict(outl(i if k[0] == "t" else j % 13), check=(i + j) % 5 != 0) for j, k in enumerate(big[12:14])},
                        {("t", "d", "b"): dict(det_row(next(K)), value=-200.0 if i == 3 else float(i)), ("t", "c", "b"): dict(det_row(next(K)), value=3.0)}) for i in range(13)]
    out["outliers in a run"] = [(T0 + 100 * i, "", "", "", {k: dict(outl(j % 13 + i)) for j, k in enumerate(big if not i else big[:12])}, {}) for i in range(2)]
    names = ["1", "nan", "a" * 60, "b" * 17 + "x" * 10 + "c" * 17, "with, comma", "µ\"quoted\"'", "None"]
    out["names"] = [(T0 + i, GH, "feature/x", "fedcb%d" % i, rows([(t, v, "be; be2") for t in names[:4] for v in names[3:]], i, stat_row), rows([(t, "v", "b") for t in names], i, det_row)) for i in range(2)]
    urls = [("https://github.com/own/rep", "a"), ("https://github.com/own/rep", "b"), ("https://gitlab.com/own/rep", "a"), ("git@github.com:own/rep", "a"),
            ("local", "a"), ("/srv/git/rep", "a"), ("", ""), ("https://github.com/own2/rep", "b"), ("https://host/deep/er/own/rep.git", "main")]
    for n in (2, 3):
        for c in itertools.permutations(urls, n) if n == 2 else [urls[i:i + 3] for i in range(len(urls) - 2)]:
            out["repositories %s" % (c,)] = [(T0 + 10 * i, *c[i % n], "9%d%d" % (i, n) if c[i % n][0] else "", rows([("t%d" % (i % 2), "v", "b")], i, stat_row), rows([("t", "v%d" % (i % n), "b")], i, det_row)) for i in range(n + 2)]
    return out


def ages():
    """names tell the age of the runs; distinct even when commits and plain runs alternate"""
    now = int(time.time())
    m, h, dd = 60, 3600, 86400
    exp = [(20, "Less than a minute ago"), (90, "1 minute ago"), (30 * m + 30, "30 minutes ago"), (59 * m + 25, "59 minutes ago"), (h + 30, "1 hour ago"),
           (5 * h + 60, "5 hours ago"), (24 * h - 60, "23 hours ago"), (dd + 60, "1 day ago"), (6 * dd + 60, "6 days ago"), (7 * dd + 60, "1 week ago"), (15 * dd, "2 weeks ago"),
           (29 * dd, "4 weeks ago"), (30 * dd + 60, "1 month ago"), (100 * dd, "3 months ago"), (400 * dd, "13 months ago")]
    return now, exp


def main():
    jobs = []
    scns = scenarios()
    for k, runs in scns.items():
        if k.startswith("repositories"):
            jobs.append(("explore", k, runs, ("repos",), ("repos",) if len(runs) == 4 else ("repos", "checks")))
            continue
        for g in GROUPS:
            if g != "repos" and (not k.startswith("outliers") or g in {"outliers": ("compare", "det"), "outliers in a run": ("inspect",)}[k]):
                jobs.append(("explore", k, runs, (g,), ()))
        if not k.startswith("outliers"):
            jobs.append(("explore", k, runs, (), tuple(GROUPS)))
    jobs.sort(key=lambda j: -len(j[2]) - 20 * len(j[4]))
    for n in range(1, 6):
        for ign in range(0, n):
            for mx in (None, 1, 2, 3, 4, 5, 7):
                jobs.append(("select", n, ign, mx))
    jobs.append(("ages", 0))
    for p in itertools.product(range(4), repeat=2):
        jobs.append(("alternate", p))
    for o in itertools.product((0, 1), (0, 1, 2, 3), (0, 1, 2), (0, 1), (0, 1), (0, 1)):
        jobs.append(("serve", o))
    jobs.append(("real", 0))
    if os.environ.get("C27_ONLY"):
        jobs = [j for j in jobs if j[0] in os.environ["C27_ONLY"].split(",")]
    for n, j in enumerate(jobs):
        if n % NSH != SHARD:
            continue
        d = "%s/r%d" % (BASE, n)
        t = time.time()
        try:
            globals()["job_" + j[0]](d, *j[1:])
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
        if os.environ.get("C27_T"):
            print(j[:2], round(time.time() - t, 1), file=sys.stderr)


def job_explore(d, k, runs, groups, pairs):
    write(d, runs)
    explore(k, d, groups, pairs, () if TIER != "quick" or k in ("outliers", "outliers in a run", "one run") or pairs else [n for n in ALL if n.startswith("outliers")])


def small(n, t0=T0, step=100, gits=()):
    return [(t0 + step * i, GH if i in gits else "", "b" if i in gits else "", "00%d" % i if i in gits else "", {("t", "v", "b"): stat_row(i + 1)}, {("t", "v", "b"): det_row(i + 1)}) for i in range(n)]


def job_select(d, n, ign, mx):
    write(d, small(n))
    # files are found in any order, other files are left alone
    open(d + "/notes.txt", "w").close()
    args = ["directory", d] + (["max_files", str(mx)] if mx else []) + (["ignore_recent", str(ign)] if ign else [])
    load("%d runs" % n, d, args, Rec(d, mx or 100, ign))
    count("selections of files")


def job_ages(d, _):
    now, exp = ages()
    write(d, [(now - a, "", "", "", {("t", "v", "b"): stat_row(i + 1)}, {}) for i, (a, _) in enumerate(exp)])
    s = load("runs of all ages", d, None, Rec(d))
    if s:
        for a, e in exp:
            if s.name[now - a] != e:
                violation("a run %d s old is called %r instead of %r" % (a, s.name[now - a], e))
    count("ages", len(exp))


def job_alternate(d, p):
    """runs of about the same age, with and without commits, in every order"""
    for n, gits in enumerate(itertools.product((0, 1), repeat=3)):
        b = [p[0] % 2, p[1] % 2, p[0] // 2, p[1] // 2][:1 + (p[0] + p[1]) % 4] + list(gits)
        dd = d + str(n)
        write(dd, small(len(b), gits=[i for i, x in enumerate(b) if x]))
        load("runs with commits: %s" % b, dd, None, Rec(dd))
        shutil.rmtree(dd)


def job_serve(d, o):
    """the command passes its options to the report"""
    import verificarlo.ci.__main__ as M
    dirs = ["plain", "with space", "max_files", "o'dd$HOME;x\"y"]
    logos = [None, "https://example.org//a b.png?x=1&y=$HOME", "directory"]
    mxs, igs, shows = [None, 2], [None, 1], [0, 1]
    rel, di, lo, mi, ii, sh = o
    os.makedirs(d + "/bin")
    with open(d + "/bin/bokeh", "w") as f:
        f.write("#!/bin/sh\nprintf '%%s\\0' \"$@\" > '%s/argv'\n" % d)
    os.chmod(d + "/bin/bokeh", 0o755)
    data = os.path.join(d, dirs[di])
    write(data, small(4))
    argv = ["vfc_ci", "serve", "-d", data if not rel else dirs[di], "-p", "8123"]
    if logos[lo]:
        argv += ["-l", logos[lo]]
    if mxs[mi]:
        argv += ["-f", str(mxs[mi])]
    if igs[ii]:
        argv += ["-i", str(igs[ii])]
    if sh:
        argv += ["-s"]
    code = "import sys; import verificarlo.ci.__main__ as M; M.main()"
    r = subprocess.run([sys.executable, "-s", "-c", code] + argv[1:], cwd=d, env=dict(os.environ, PATH=d + "/bin:" + os.environ["PATH"]), capture_output=True, text=True, timeout=120)
    if r.returncode or not os.path.exists(d + "/argv"):
        violation("%s: exit %s without a server: %s" % (argv, r.returncode, r.stderr[-800:]))
        return
    a = open(d + "/argv").read().split("\0")[:-1]
    if "--args" not in a or a[0] != "serve" or ("--show" in a) != bool(sh):
        violation("%s starts bokeh %s" % (argv, a))
        return
    b = a[:a.index("--args")]
    app = [x for x in b if os.path.isdir(x) and os.path.exists(os.path.join(x, "main.py"))]
    if not app or os.path.realpath(app[0]) != os.path.realpath(REPORT) or not ("--port=8123" in b or "--port" in b and b[b.index("--port") + 1] == "8123"):
        violation("%s starts bokeh %s" % (argv, a))
        return
    os.chdir(d)
    s = load("vfc_ci serve %s" % argv[2:], data, a[a.index("--args") + 1:], Rec(data, mxs[mi] or 100, igs[ii] or 0))
    if s:
        tv = s.doc.template_variables
        if bool(tv["has_logo"]) != bool(logos[lo]) or logos[lo] and tv["logo_url"] != logos[lo]:
            violation("%s: logo %s %s" % (argv, tv["has_logo"], tv.get("logo_url")))
    count("serve commands")


def job_real(d, _):
    """run files written by the real test command at three commits, then the real server"""
    from urllib.request import urlopen
    os.makedirs(d + "/w/plan")
    os.makedirs(d + "/runs")
    os.chdir(d + "/w")
    g = ["git", "-c", "user.name=Na Me", "-c", "user.email=na@me"]
    q = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
    subprocess.run(["git", "init", "-q", "-b", "trunk", "."], **q)
    subprocess.run(["git", "remote", "add", "origin", GH], **q)
    os.symlink(FAKE, "fake")
    hexa = lambda x: float.hex(float(x))
    bes = ["libinterflop_mca.so", "libinterflop_vprec.so", "libinterflop_ieee.so"]
    with open("plan/backends", "w") as f:
        f.write("".join(b + "\n" for b in bes))
    with open("vfc_tests_config.json", "w") as f:
        json.dump({"make_command": "true", "executables": [{"executable": "fake", "parameters": "e", "vfc_backends": [{"name": bes[0], "repetitions": 4}, {"name": bes[1]}]}]}, f)
    try:
        for c in range(3):
            subprocess.run(g + ["commit", "-q", "--allow-empty", "-m", "commit %d\n\nbody" % c, "--date=@%d +0000" % (T0 + 1000 * c)], **q)
            for f in os.listdir("plan"):
                if f != "backends":
                    os.unlink("plan/" + f)
            for b in range(3):
                for i in range(4):
                    with open("plan/e.%d.%d.csv" % (b, i), "w") as f:
                        f.write("test,variable,value,accuracy_threshold,check_mode\n")
                        for t in "xy":
                            for v in range(2):
                                f.write("%s,v%d,%s,%s,%s\n" % (t, v, hexa(1 + b + i * (.125 + v) + c), hexa([0, .5][v]), ["none", "absolute"][v]))
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                T.run(True, False, False)
        for f in os.listdir("."):
            if f.endswith(".vfcrun.h5"):
                os.rename(f, d + "/runs/" + f)
    except Exception:
        violation("vfc_ci test in a git repository: " + traceback.format_exc()[-1200:])
        return
    rec = Rec(d + "/runs")
    got = [(r["timestamp"], r["remote_url"], r["branch"], r["author"], r["message"], bool(r["is_git_commit"]), len(r["data"]), len(r["det"])) for r in rec.runs]
    want = [(T0 + 1000 * c, GH, "trunk", "Na Me <na@me>", "commit %d" % c, True, 4, 4) for c in range(3)]
    if got != want:
        violation("runs recorded at three commits: %s, expected %s" % (got, want))
    explore("runs of the real test command", d + "/runs", pairs=("det", "checks"))
    page(d, rec)


def page(d, rec):
    """the page delivered by the real server of the real command"""
    import re, socket
    from urllib.error import URLError
    from urllib.request import urlopen
    with socket.socket() as k:
        k.bind(("127.0.0.1", 0))
        port = k.getsockname()[1]
    code = "import sys; import verificarlo.ci.__main__ as M; M.main()"
    p = subprocess.Popen([sys.executable, "-s", "-c", code, "serve", "-d", d + "/runs", "-p", str(port), "-l", "https://example.org//logo.png"],
                         cwd=d, env=dict(os.environ, PATH=os.path.dirname(sys.executable) + ":" + os.environ["PATH"], HOME=d), stdout=subprocess.DEVNULL, stderr=open(d + "/log", "w"), start_new_session=True)
    try:
        html, end = None, time.time() + 180
        while html is None:
            if p.poll() is not None:
                violation("vfc_ci serve ended (%s): %s" % (p.returncode, open(d + "/log").read()[-1500:]))
                return
            if time.time() > end:
                raise RuntimeError("no answer of the server: " + open(d + "/log").read()[-1500:])
            try:
                html = urlopen("http://127.0.0.1:%d/vfc_ci_report" % port, timeout=100).read().decode()
            except (URLError, ConnectionError) as e:
                if getattr(e, "code", 0) >= 400:
                    violation("vfc_ci serve answers %s: %s" % (e.code, open(d + "/log").read()[-1500:]))
                    return
                time.sleep(.3)
    finally:
        os.killpg(p.pid, 9)
        p.wait()
    try:
        md = json.loads(re.search(r"metadata = (\{.*\})", html).group(1))
        repos = json.loads(re.search(r"repoNamesDict = (\{.*\})", html).group(1))
    except (AttributeError, ValueError):
        violation("the page holds no metadata of the runs")
        return
    if sorted(map(int, md)) != [r["timestamp"] for r in rec.runs] or list(repos.values()) != [GH] or "https://example.org//logo.png" not in html:
        violation("the page shows the runs %s of %s" % (sorted(md), repos))
    roots = len(set(re.findall(r'data-root-id="([^"]+)"', html)))
    if roots < 29:
        violation("the page embeds %d elements" % roots)
    count("pages served")


if __name__ == "__main__":
    try:
        main()
    except RuntimeError:
        traceback.print_exc()
        sys.exit(3)
    print(json.dumps(REP))
