"""Function instrumentation: all call trees of a script-driven program under recording backends and
in vprec profiles; signatures and whole programs compared with the uninstrumented ones."""
import os, struct
import common
from common import sh
from checks import _calls
from checks._calls import LETTERS, Run, forests
from checks._wrap import CLANG, stub, vfc, compile_or_violation, run_prog

VPREC = "libinterflop_vprec.so"


def hexval(t, v):
    if t in (0, 3):
        return "%x" % struct.unpack("<I", struct.pack("<f", v))[0]
    return "%x" % struct.unpack("<Q", struct.pack("<d", v))[0]


def parse_id(i):
    """file/parent/callee/line/counter"""
    a = i.rsplit("/", 4)
    return a if len(a) == 5 else None


def fn_of(key, sites):
    return ("", "main", None) if key == "main" else (key[0],) + sites[key]


def build(prefix, w, conf, res):
    src, sites = _calls.source()
    with open(w + "/calls.c", "w") as f:
        f.write(src)
    # file names as the debug information gives them
    ok = compile_or_violation(prefix, list(conf) + ["--inst-func", "-ffp-contract=off", "-I" + prefix + "/include", "calls.c", "-o", "calls"], w, res,
                              "program with functions calling each other")
    return sites if ok else None


def trees(res, prefix, w, st, sites, conf, tier, ids):
    """every script: the events are those of the model"""
    depth = 3 if tier == "quick" else 4
    scripts = [s for n in range(0, depth + 1) for s in forests(n, LETTERS)]
    if tier == "quick" and conf[0] == "-O0":
        scripts += list(forests(4, "fhq"))[::1] + list(forests(4, "gc"))
    if tier != "quick":
        scripts += list(forests(5, "fhq")) + list(forests(5, "gcF"))
    batches = [scripts[i:i + 400] for i in range(0, len(scripts), 400)]
    exact = conf[0] == "-O0"

    def one(j):
        n, b = j
        r = common.Result()
        lib = [st["A"], st["A"] + ";" + st["B"]][n % 2]
        rc, o, e, ev = run_prog(w + "/calls", lib, "%s/log.%d" % (w, n), ["#"] + [s + ")" for s in b], {"VFC_BACKENDS_LOGGER": "False"})
        m = Run().main(b)
        out = o.split()
        if rc:
            r.violation("%s: running %d scripts fails with status %s: %s" % (conf, len(b), rc, e[-300:]))
            return r, {}
        if out != m.T:
            k = next((k for k in range(min(len(out), len(m.T))) if out[k] != m.T[k]), -1)
            r.violation("%s: the results differ from those of the functions themselves (value %d of %d: %s instead of %s), scripts %s.." % (conf, k, len(m.T), out[k:k + 1], m.T[k:k + 1], b[:3]))
        seen = {}
        for nm in ("A.0", "B.0") if ";" in lib else ("A.0",):
            got = [x for x in ev if x[0] == nm and x[1] in ("enter", "exit")]
            r.traces += len(b)
            r.transitions += len(got)
            base = None
            msg = None
            for k in range(max(len(got), len(m.ev))):
                if k >= len(got) or k >= len(m.ev):
                    msg = "%d enter/exit events instead of %d" % (len(got), len(m.ev))
                    break
                g, x = got[k], m.ev[k]
                key = x[1]
                parent, name, line = fn_of(key, sites)
                p = parse_id(g[3])
                if base is None:
                    base = int(g[2]) + 1
                if g[1] != x[0] or p is None or not p[0].endswith("calls.c") or p[1] != parent or p[2] != name or (line and p[3] != str(line)):
                    msg = "event %d is %s of %s instead of %s of %s/%s/%s" % (k, g[1], g[3], x[0], parent, name, line)
                    break
                if base - int(g[2]) != x[2]:
                    msg = "event %d (%s of %s) has %d functions on the stack instead of %d" % (k, g[1], g[3], base - int(g[2]), x[2])
                    break
                if g[4] != "0" or g[5] != "0":
                    msg = "%s is reported as a library or intrinsic function" % g[3]
                    break
                args = []
                for a in g[9:]:
                    args.append(a.split(":"))
                want = x[3]
                if len(args) != len(want) or int(g[8]) != len(want):
                    msg = "%s of %s has %s arguments instead of %d" % (g[1], g[3], g[8], len(want))
                    break
                for a, (t, nme, v) in zip(args, want):
                    hv = [hexval(t, y) for y in v]
                    gv = a[3].split(",")
                    size = int(a[2])
                    # the number of elements may be unknown (0) for arrays
                    okn = size == len(v) or (size == 0 and t in (3, 4) and not exact)
                    if int(a[0]) != t or not okn or gv[:max(1, size)] != hv[:max(1, size)] or (exact and a[1] != nme):
                        msg = "%s of %s: argument %s (type:name:size:values) instead of %s:%s:%d:%s" % (g[1], g[3], ":".join(a), t, nme, len(v), ",".join(hv))
                        break
                if msg:
                    break
                if g[1] == "enter":
                    stk = seen.setdefault("stack", [])
                    stk.append(g[3])
                else:
                    i = seen["stack"].pop()
                    if i != g[3]:
                        msg = "the exit of %s closes the call of %s" % (g[3], i)
                        break
                seen.setdefault(key, set()).add(g[3])
            if msg:
                r.violation("%s, backend %s, scripts %s..%s: %s" % (" ".join(conf), nm, b[0], b[-1], msg))
                return r, {}
        seen.pop("stack", None)
        return r, seen

    for n, (r, seen) in enumerate(common.pmap(one, list(enumerate(batches)))):
        for v in r.viols:
            res.violation(v)
        res.states += len(batches[n])
        res.transitions += r.transitions
        res.traces += r.traces
        res.nontrivial += len(batches[n])
        for k, i in seen.items():
            ids.setdefault(k, set()).update(i)
    res.count("call trees", len(scripts))
    # one identifier per site, one site per identifier, whatever the run
    owner = {}
    for k, i in ids.items():
        if exact and len(i) != 1:
            res.violation("%s: call site %s has identifiers %s" % (conf, k, sorted(i)))
        for x in i:
            if x in owner and owner[x] != k:
                res.violation("%s: call sites %s and %s share the identifier %s" % (conf, owner[x], k, x))
            owner[x] = k


def read_profile(path):
    """{id: (header fields, inputs, outputs)}, plus complaints"""
    out, bad, cur = {}, [], None
    with open(path) as f:
        for l in f.read().splitlines():
            a = l.split("\t")
            if a[0] == "input:":
                cur[1].append(a[1:])
            elif a[0] == "output:":
                cur[2].append(a[1:])
            elif len(a) == 12:
                cur = (a, [], [])
                if a[0] in out:
                    bad.append("%s is listed twice" % a[0])
                out[a[0]] = cur
            else:
                bad.append("unexpected line %r" % l)
    return out, bad


def profiles(res, prefix, w, sites, conf, tier, ids):
    """every script alone: the vprec profile lists the executed sites with their counts, arguments and bounds"""
    exact = conf[0] == "-O0"
    depth = 2 if tier == "quick" else 3
    scripts = [s for n in range(0, depth + 1) for s in forests(n, LETTERS)]
    if tier == "quick":
        scripts += list(forests(3, "fhq")) + list(forests(3, "gcF"))
    scripts += ["f)" * 40, "f" * 30 + ")" * 30, "q" * 20 + "f" + ")" * 21, "h)g)" * 20 + "c" * 10 + "g)" + ")" * 10]
    rows = [(s, m) for s in scripts for m in ("none",)] + [(s, m) for s in scripts[:60] for m in ("arguments", "operations", "all")]

    def one(j):
        n, (s, mode) = j
        p = "%s/prof.%d" % (w, n)
        rc, o, e, ev = run_prog(w + "/calls", "%s --prec-output-file=%s --instrument=%s" % (VPREC, p, mode), w + "/nolog", [s + ")"], {"VFC_BACKENDS_LOGGER": "False", "LD_LIBRARY_PATH": prefix + "/lib"})
        m = Run().main([s])
        if rc:
            return "status %s: %s" % (rc, e[-300:])
        if o.split() != m.T:
            return "results changed by a profiling run (--instrument=%s): %s instead of %s" % (mode, o.split()[:8], m.T[:8])
        try:
            prof, bad = read_profile(p)
        except OSError:
            return "no profile written"
        os.unlink(p)
        if bad:
            return bad[0]
        byid = {i: k for k, v in ids.items() for i in v}
        cnt, rng, args = {}, {}, {}
        for i, (h, ins, outs) in prof.items():
            k = byid.get(i)
            if k is None:
                return "unknown call site %s in the profile" % i
            cnt[k] = cnt.get(k, 0) + int(h[11])
            if int(h[9]) != len(ins) or int(h[10]) != len(outs):
                return "%s announces %s inputs and %s outputs, %d and %d are listed" % (i, h[9], h[10], len(ins), len(outs))
            if h[1:3] != ["0", "0"] or h[5:9] != ["52", "11", "23", "8"]:
                return "%s: unexpected header %s" % (i, h)
            for io, l in (("i", ins), ("o", outs)):
                for q, a in enumerate(l):
                    args.setdefault((k, io), []).append((a[1], a[2], a[3]))
                    lo, hi = rng.get((k, io, q), (1 << 40, -(1 << 40)))
                    rng[k, io, q] = (min(lo, int(a[4])), max(hi, int(a[5])))
        want = {k: c for k, c in m.calls.items() if k == "main" or (k[1] != "q" and k[1] != "c")}
        if cnt != want:
            d = {k: (cnt.get(k), want.get(k)) for k in set(cnt) | set(want) if cnt.get(k) != want.get(k)}
            return "call counts (profile, executed) differ: %s" % d
        if exact and rng != m.rng:
            d = {k: (rng.get(k), m.rng.get(k)) for k in set(rng) | set(m.rng) if rng.get(k) != m.rng.get(k)}
            return "argument bounds (profile, executed) differ: %s" % d
        if exact:
            full = {0: ("0", "23", "8"), 1: ("1", "52", "11"), 3: ("3", "23", "8"), 4: ("4", "52", "11")}
            wa = {}
            for what, k, dep, a in m.ev:
                wa[k, "i" if what == "enter" else "o"] = [full[t] for t, nn, v in a]
            wa = {k: v for k, v in wa.items() if v}
            if args != wa:
                d = {k: (args.get(k), wa.get(k)) for k in set(args) | set(wa) if args.get(k) != wa.get(k)}
                return "arguments (type, precision, range: profile, executed) differ: %s" % d
        return None
    for (s, m), msg in zip(rows, common.pmap(one, list(enumerate(rows)))):
        res.states += 1
        res.traces += 1
        res.transitions += s.count(")") + 1
        res.nontrivial += 1
        if msg:
            res.violation("%s, script %s, --instrument=%s: %s" % (" ".join(conf), s, m, msg))
    res.count("profiles", len(rows))


# ------------------------------------------------------------------ signatures
SIG = r"""
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <complex.h>
#include <math.h>
#include <setjmp.h>
#include <stdlib.h>
#define NI __attribute__((noinline))
typedef float f4 __attribute__((vector_size(16)));
struct small { double a; int b; };
struct big { double a[5]; float b; long c; };
struct pair { float x, y; };
static volatile double one = 1.0; static volatile float onef = 1.0f;
NI double many(double a, int b, float c, long d, double e, char f, float g, double h, double i, double j, double k, int l, float m, unsigned char n, double o)
{ return a + b * c - d + e * f + g - h + i * j - k + l * m + n - o; }
NI float narrow(signed char a, unsigned short b, _Bool c, float d) { return a + b + c + d; }
NI struct small rs(struct small s, double x) { s.a += x; s.b += 3; return s; }
NI struct big rb(struct big s, float x) { for (int i = 0; i < 5; i++) s.a[i] *= x; s.b -= x; s.c++; return s; }
NI struct pair rp(struct pair p) { struct pair q = {p.y + 1.5f, p.x * 2}; return q; }
NI double va(int n, ...) { va_list ap; va_start(ap, n); double s = 0; for (int i = 0; i < n; i++) s += va_arg(ap, double); va_end(ap); return s; }
NI double vaf(double b, const char *f, ...) { va_list ap; va_start(ap, f); double s = b; for (; *f; f++) s += *f == 'd' ? va_arg(ap, double) : va_arg(ap, int); va_end(ap); return s; }
NI double complex cx(double complex z, double complex w) { return z * w + 1; }
NI float complex cxf(float complex z) { return z + 2.5f; }
NI long double ld(long double a, double b) { return a + b; }
NI f4 vec(f4 a, f4 b) { return a * b; }
NI double *rptr(double *p, int k) { p[k] += 1; return p + k; }
NI float sum(const float *p, int n) { float s = 0; for (int i = 0; i < n; i++) s += p[i]; return s; }
NI double mat(double m[3][3]) { double s = 0; for (int i = 0; i < 3; i++) s += m[i][i]; return s; }
NI void pp(double **q, char *c, void *v, struct big *b) { **q += 1; c[0]++; ((int *)v)[0] += 2; b->b += 1; }
NI int ints(int a, long b) { return a * 3 + (int)b; }
NI void none(void) { one = one * 1.0; }
static double fact(int n) { return n < 2 ? 1.0 : n * fact(n - 1); }
NI double odd(int n, double x);
NI double even(int n, double x) { return n == 0 ? x : odd(n - 1, x + 0.5); }
NI double odd(int n, double x) { return n == 0 ? -x : even(n - 1, x * 0.75); }
typedef double (*fp)(double);
NI double sq(double x) { return x * x; }
NI double cb(double x) { return x + 1; }
NI double app(fp f, double x) { return f(x) + f(x * 2); }
static int cmpd(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return (x > y) - (x < y); }
static jmp_buf jb;
NI int sj(int k) { volatile double x = 1.5; int r = setjmp(jb); if (r < k) { x = x * 2; longjmp(jb, r + 1); } return r + (int)x; }
inline __attribute__((always_inline)) static double ai(double x) { return x * 3; }
NI double deep(int n, double x) { double y = x + n; return n ? deep(n - 1, y) + 1 : y; }
NI const char *str(const char *s, double x) { return x > 0 ? s : "neg"; }
NI void out2(double *a, float *b) { *a = *a + 1; *b = *b * 2; }
NI double nulls(double *a, float *b, double c) { return (a ? *a : 0.5) + (b ? *b : 0.25f) + c; }
#define P(...) printf(__VA_ARGS__)
int main(int argc, char **argv) {
  P("%a\n", many(one, 2, 3.5f, 4, 5.25, 6, 7.5f, 8, 9, 10.125, 11, 12, 13.5f, 200, 15));
  P("%a\n", (double)narrow(-3, 60000, 1, onef));
  struct small s = {1.5, 2}; s = rs(s, one); P("%a %d\n", s.a, s.b);
  struct big b = {{1, 2, 3, 4, 5}, 6, 7}; b = rb(b, 1.5f); for (int i = 0; i < 5; i++) P("%a ", b.a[i]); P("%a %ld\n", (double)b.b, b.c);
  struct pair p = {1.25f, 2.5f}; p = rp(p); P("%a %a\n", (double)p.x, (double)p.y);
  P("%a %a\n", va(0), va(4, 1.0, 2.5, one, 4.0)); P("%a\n", vaf(one, "did", 1.5, 7, 2.25));
  double complex z = cx(1 + 2 * I, 3 - 1 * I); P("%a %a\n", creal(z), cimag(z));
  float complex zf = cxf(1.5f + 2.5f * I); P("%a %a\n", (double)crealf(zf), (double)cimagf(zf));
  P("%a\n", (double)ld(1.5L, one));
  f4 v = {1, 2, 3, 4}; v = vec(v, v); P("%a %a %a %a\n", (double)v[0], (double)v[1], (double)v[2], (double)v[3]);
  double a[4] = {1, 2, 3, 4}; double *r = rptr(a, 2); P("%d %a\n", (int)(r - a), *r);
  float fs[5] = {1, 2, 3, 4, 5}; P("%a %a\n", (double)sum(fs, 5), (double)sum(fs + 2, 3));
  double *hp = malloc(3 * sizeof *hp); hp[0] = 1; hp[1] = 2; hp[2] = 3; P("%a\n", *rptr(hp, 1)); free(hp);
  double m[3][3] = {{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}; P("%a\n", mat(m));
  double *q = a; char c[4] = "abc"; int vi[2] = {1, 2}; pp(&q, c, vi, &b); P("%a %s %d %a\n", a[0], c, vi[0], (double)b.b);
  P("%d\n", ints(4, 5)); none(); P("%a\n", one);
  P("%a %a %a\n", fact(10), even(7, 1.5), odd(6, 2.5));
  fp t[3] = {sq, cb, sqrt}; for (int i = 0; i < 3; i++) P("%a %a\n", t[i](2.25), app(t[i], 1.5));
  qsort(a, 4, sizeof a[0], cmpd); for (int i = 0; i < 4; i++) P("%a ", a[i]); P("\n");
  P("%d\n", sj(3)); P("%a %a\n", ai(one), deep(200, 0.5)); P("%s %s\n", str("pos", one), str("pos", -one));
  P("%a %a %a %a %a %a\n", sqrt(2.0 * one), sin(one), pow(one + 1, 0.5), fabs(-one), floor(2.5 * one), (double)sqrtf(2 * onef));
  P("%a %a %a\n", fmin(one, 2.0), copysign(one, -3.0), fma(one, 2.0, 3.0)); P("%a %a\n", exp2(one), (double)powf(onef + 1, 3));
  double x = one; float y = onef; out2(&x, &y); P("%a %a\n", x, (double)y);
  P("%a %a %a\n", nulls(0, 0, one), nulls(&x, 0, one), nulls(0, &y, one));
  char buf[64]; snprintf(buf, sizeof buf, "%.3f|%d", one * 2.5, 3); P("%s %a\n", buf, strtod("1.25", 0) + atof("2.5")); P("%d\n", argc);
  return argc == 3 ? 7 : 0;
}
"""
HDR = "static inline double hin(double x) { return x * 2 + 1; }\nstatic inline float hin2(float x, float *p) { *p += x; return *p; }\n"
MODA = '#include "h.h"\n#include <stdio.h>\ndouble modb(double); double x0 = 1.5;\n__attribute__((weak)) double wk(double x) { return x + 1; }\nstatic double st(double x) { return hin(x) - 1; }\nint main(void) { float f = 1; printf("%a %a %a %a %a\\n", hin(x0), modb(x0), st(x0), wk(x0), (double)hin2(2, &f)); return 0; }\n'
MODB = '#include "h.h"\n__attribute__((weak)) double wk(double x) { return x + 1; }\nstatic double st(double x) { return hin(x) * 3; }\ndouble modb(double x) { float f = 3; return st(x) + hin(x) + wk(x) + hin2(1, &f); }\n'
CPP = r"""
#include <cstdio>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <numeric>
#include <algorithm>
struct B { virtual ~B() {} virtual double area(double k) const = 0; double tw(float s) { return area(s) * 2; } };
struct S : B { double a; S(double x) : a(x) {} double area(double k) const override { return a * a * k; } };
struct C : B { float r; C(float x) : r(x) {} double area(double k) const override { return 3.0 * r * r + k; } };
template <class T> T add(T a, T b) { return a + b; }
template <class T, class... R> T add(T a, R... r) { return a + add(r...); }
struct V { double x, y; V operator+(const V &o) const { return {x + o.x, y + o.y}; } V &operator*=(double k) { x *= k; y *= k; return *this; } };
static double glob = add(1.5, 2.5) * 2;
namespace n { namespace m { double f(double x) { return x - 0.5; } float f(float x) { return x + 0.5f; } } }
double thrower(double x) { if (x > 2) throw x * 2; return x + 1; }
double catcher(double x) { double r = 0; try { r = thrower(x); } catch (double d) { r = -d; } return r; }
double refs(double &a, const float &b, double *&p) { a += b; p++; return a * *p; }
int main() {
  std::vector<std::unique_ptr<B>> v; v.emplace_back(new S(1.5)); v.emplace_back(new C(2.5f));
  double t = 0; for (auto &b : v) t += b->tw(1.25f); printf("%a\n", t);
  printf("%a %a %a\n", add(1.5, 2.5, 3.5), (double)add(1.5f, 2.25f), glob);
  V a{1, 2}, b{3, 4}; V c = a + b; c *= 1.5; printf("%a %a\n", c.x, c.y);
  printf("%a %a\n", n::m::f(1.0), (double)n::m::f(1.0f));
  printf("%a %a\n", catcher(1.0), catcher(3.0));
  double k = 2; auto l = [&k](double x) { return x * k; }; std::function<double(double)> g = l; printf("%a %a\n", l(3), g(4));
  std::vector<double> w{3, 1, 2}; std::sort(w.begin(), w.end(), [](double x, double y) { return x < y; });
  printf("%a %a\n", w[0], std::accumulate(w.begin(), w.end(), 0.0));
  double arr[3] = {1, 2, 3}, *p = arr, x = 1; float y = 2; printf("%a\n", refs(x, y, p)); printf("%a %d\n", x, (int)(p - arr));
  std::string s = std::to_string(1.5) + "!"; printf("%s\n", s.c_str());
  return 0;
}
"""


def whole(res, prefix, d, st, tier):
    opts = [["-O0"], ["-O1"], ["-O2"], ["-O3"]]
    extra = [[]] if tier == "quick" else [[], ["--inst-fcmp", "--inst-fma", "--inst-cast"], ["--ddebug"]]
    here = os.path.join(common.HERE, "prog/whole")
    progs = [("sig", "verificarlo-c", {"sig.c": SIG}, ["sig.c"]), ("two modules", "verificarlo-c", {"h.h": HDR, "a.c": MODA, "b.c": MODB}, ["a.c", "b.c"]),
             ("c++", "verificarlo-c++", {"p.cpp": CPP}, ["p.cpp"])]
    for n in ("mix.c", "loops.c", "cpp.cpp"):
        with open(os.path.join(here, n)) as f:
            progs.append((n, "verificarlo-c++" if n.endswith("pp") else "verificarlo-c", {n: f.read()}, [n]))
    backends = ["libinterflop_ieee.so", "libinterflop_ieee.so;" + VPREC, "libinterflop_ieee.so;" + VPREC + " --instrument=all", "libinterflop_ieee.so;" + st["A"]]

    def one(j):
        n, ((name, tool, files, srcs), opt, ex) = j
        r = common.Result()
        w = "%s/w%d" % (d, n)
        os.mkdir(w)
        for k, t in files.items():
            with open(w + "/" + k, "w") as f:
                f.write(t)
        comp = [CLANG + "++" if tool.endswith("++") else CLANG]
        rc, o, e = sh(comp + opt + ["-ffp-contract=off", "-w", "-DSERIAL"] + srcs + ["-o", "plain", "-lm"], cwd=w)
        if rc:
            raise common.HarnessError(e)
        if not compile_or_violation(prefix, opt + ex + ["--inst-func", "-ffp-contract=off", "-w", "-DSERIAL"] + srcs + ["-o", "inst", "-lm"], w, r, "program %s" % name, tool):
            return r
        for args in ([], ["x", "y"]):
            rc0, o0, e0 = sh([w + "/plain"] + args)
            for b in backends:
                rc1, o1, e1, ev = run_prog(w + "/inst", b, w + "/log", args, {"VFC_BACKENDS_LOGGER": "False", "LD_LIBRARY_PATH": prefix + "/lib"})
                r.states += 1
                r.traces += 1
                r.nontrivial += 1
                if (rc1, o1) != (rc0, o0):
                    l0, l1 = o0.splitlines(), o1.splitlines()
                    k = next((k for k in range(min(len(l0), len(l1))) if l0[k] != l1[k]), min(len(l0), len(l1)))
                    r.violation("program %s %s under %s: status %s instead of %s, line %d of the output is %s instead of %s; %s" % (
                        name, opt + ex + ["--inst-func"], b.replace(d, "."), rc1, rc0, k + 1, l1[k:k + 1], l0[k:k + 1], e1[-300:]))
                fe = [x for x in ev if x[1] in ("enter", "exit")]
                r.transitions += len(fe)
                # an exit event ends an open call; without non-local exits, the innermost one
                local = name in ("loops.c", "two modules")
                stk = []
                for x in fe:
                    if x[1] == "enter":
                        stk.append(x[3])
                        continue
                    if x[3] not in stk or (local and stk[-1] != x[3]):
                        r.violation("program %s %s: the exit event of %s does not match the last call" % (name, opt, x[3]))
                        break
                    while stk.pop() != x[3]:
                        pass
                if stk:
                    r.violation("program %s %s: calls %s never end" % (name, opt, stk[:5]))
        common.shutil.rmtree(w, ignore_errors=True)
        return r
    rows = [(p, o, x) for p in progs for o in opts for x in extra]
    for r in common.pmap(one, list(enumerate(rows))):
        for v in r.viols:
            res.violation(v)
        res.states += r.states
        res.traces += r.traces
        res.transitions += r.transitions
        res.nontrivial += r.nontrivial
    res.count("whole-program builds", len(rows))


def limits(res, prefix, w):
    """values and names at the limits of the profile's fields"""
    name = "a_function_with_a_rather_long_name_" * 12
    arg = "an_argument_with_a_long_name_" * 8
    with open(w + "/lim.c", "w") as f:
        f.write("__attribute__((noinline)) double %s(double %s) { return %s + 1; }\n" % (name, arg, arg))
        f.write("#include <stdlib.h>\n#include <stdio.h>\nint main(int c, char **v) { for (int i = 1; i < c; i++)\nprintf(\"%%a\\n\", %s(atof(v[i]))); return 0; }\n" % name)
    if not compile_or_violation(prefix, ["-O0", "--inst-func", "lim.c", "-o", "lim"], w, res, "long names"):
        return
    import itertools, math
    vals = ["0", "-1.5", "3e9", "-3e9", "1e300", "inf", "nan", "2147483646.5", "-2147483648.5"]
    clamp = lambda x: max(-2 ** 31, min(2 ** 31 - 1, x))
    for t in [t for n in (1, 2) for t in itertools.product(vals, repeat=n)]:
        p = w + "/lim.prof"
        rc, o, e, ev = run_prog(w + "/lim", VPREC + " --prec-output-file=" + p, w + "/nolog", list(t), {"VFC_BACKENDS_LOGGER": "False", "LD_LIBRARY_PATH": prefix + "/lib"})
        res.states += 1
        res.traces += 1
        msg = None
        if rc:
            msg = "status %s: %s" % (rc, e[-200:])
        else:
            prof, bad = read_profile(p)
            ent = [v for k, v in prof.items() if name in k]
            fin = [float(x) for x in t if math.isfinite(float(x))]
            lo, hi = (clamp(math.floor(min(fin))), clamp(math.ceil(max(fin)))) if fin else (2 ** 31 - 1, -2 ** 31)
            if bad or len(ent) != 1:
                msg = "profile: %s" % (bad or sorted(prof))
            elif len(ent[0][1]) != 1 or ent[0][1][0][0] != arg or (int(ent[0][1][0][4]), int(ent[0][1][0][5])) != (lo, hi):
                msg = "input %s, expected %s with bounds %s %s" % (ent[0][1], arg, lo, hi)
            else:   # the profile can be read back
                rc, o2, e, ev = run_prog(w + "/lim", VPREC + " --instrument=all --prec-input-file=" + p, w + "/nolog", list(t), {"VFC_BACKENDS_LOGGER": "False", "LD_LIBRARY_PATH": prefix + "/lib"})
                if rc or o2 != o:
                    msg = "read back: status %s, %r instead of %r %s" % (rc, o2, o, e[-200:])
        if msg:
            res.violation("function of %d characters called with %s: %s" % (len(name), t, msg))


# name in the identifier, expression, precision of the result
LIBS = [("sqrt", "sqrt(X)", 1), ("sin", "sin(X)", 1), ("fabs", "fabs(-X)", 1), ("floorf", "floorf(F)", 0), ("powf", "powf(F, F)", 0),
        ("fma", "fma(X, X, X)", 1), ("copysign", "copysign(X, -X)", 1), ("fabsf", "fabsf(-F)", 0), ("sqrtf", "sqrtf(F)", 0), ("exp", "exp(X)", 1),
        ("trunc", "trunc(X)", 1), ("atan2", "atan2(X, X)", 1)]


def libcalls(res, prefix, w, st, conf, tier):
    """every subset of calls of library functions and of the intrinsics the compiler makes of them"""
    src = "#include <math.h>\n#include <stdio.h>\n#include <stdlib.h>\nstatic volatile double X = 2.75; static volatile float F = 1.75f;\n"
    src += "int main(int c, char **v) { for (int k = 1; k < c; k++) { long m = strtol(v[k], 0, 16); puts(v[k]);\n"
    for i, (n, e, t) in enumerate(LIBS):
        src += 'if (m >> %d & 1) { volatile %s r =\n%s; printf("%%a\\n", (double)r); }\n' % (i, "double" if t else "float", e)
    src += "} return 0; }\n"
    with open(w + "/lib.c", "w") as f:
        f.write(src)
    rc, o, e = sh([CLANG, conf[0], "-ffp-contract=off", "-w", "lib.c", "-o", "libn", "-lm"], cwd=w)
    if rc:
        raise common.HarnessError(e)
    if not compile_or_violation(prefix, list(conf) + ["--inst-func", "-ffp-contract=off", "-w", "lib.c", "-o", "lib", "-lm"], w, res, "program calling library functions"):
        return
    line = {i: 7 + 2 * i for i in range(len(LIBS))}
    masks = ["%x" % m for m in range(1 << len(LIBS))]
    batches = [masks[i::16] for i in range(16)]

    def one(j):
        n, b = j
        rc0, o0, e0 = sh([w + "/libn"] + b)
        rc, o, e, ev = run_prog(w + "/lib", "libinterflop_ieee.so;" + st["A"], "%s/liblog.%d" % (w, n), b, {"VFC_BACKENDS_LOGGER": "False", "LD_LIBRARY_PATH": prefix + "/lib"})
        if (rc, o) != (rc0, o0):
            return "status %s instead of %s, output %r instead of %r; %s" % (rc, rc0, o[:200], o0[:200], e[-200:]), 0, {}
        want = [("enter" if k == 0 else "exit", i) for m in b for i in range(len(LIBS)) if int(m, 16) >> i & 1 for k in (0, 1)]
        ids, got = {}, []
        for x in ev:
            if x[1] not in ("enter", "exit"):
                continue
            q = parse_id(x[3])
            # calls of functions that take no floating point value (puts, strtol) or print them are not looked at
            if q is None or q[1] != "main" or q[2] in ("printf", "puts", "strtol", "putchar"):
                continue
            i = next((i for i in line if q[3] == str(line[i]) and LIBS[i][0].rstrip("f") in q[2]), None) if q else None
            if i is None:
                return "event %s of %s is no call of the program" % (x[1], x[3]), 0, {}
            if (x[4], x[5]) == ("0", "0"):
                return "%s is reported neither as a library nor as an intrinsic function" % x[3], 0, {}
            t = "1" if LIBS[i][2] else "0"
            a = [y.split(":") for y in x[9:]]
            if x[1] == "exit" and [y[0] for y in a] != [t] or any(y[0] != t for y in a):
                return "%s of %s has arguments %s" % (x[1], x[3], x[9:]), 0, {}
            got.append((x[1], i))
            ids.setdefault(i, set()).add(x[3])
        if got != want:
            k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
            d = lambda l: ["%s of %s" % (a, LIBS[i][0]) for a, i in l[k:k + 1]] or "nothing"
            return "event %d of the calls %s is %s instead of %s" % (k, [e for n, e, t in LIBS], d(got), d(want)), 0, {}
        return None, len(got), ids
    allids = {}
    for b, (m, n, ids) in zip(batches, common.pmap(one, list(enumerate(batches)))):
        res.states += len(b)
        res.traces += len(b)
        res.transitions += n
        res.nontrivial += len(b)
        for i, v in ids.items():
            allids.setdefault(i, set()).update(v)
        if m:
            res.violation("%s, library calls: %s" % (" ".join(conf), m))
    bad = {LIBS[i][0]: sorted(v) for i, v in allids.items() if len(v) != 1}
    if bad:
        res.violation("%s, library calls: identifiers change between runs: %s" % (" ".join(conf), bad))
    res.count("library call subsets", len(masks))


def run(prefix, tier, res):
    confs = [("-O0",), ("-O2",)] if tier == "quick" else [("-O0",), ("-O1",), ("-O2",), ("-O3",), ("-Os",)]
    with common.Scratch() as d:
        d = os.path.realpath(d)
        st = stub(prefix, d, "AB")
        for n, conf in enumerate(confs):
            w = "%s/c%d" % (d, n)
            os.mkdir(w)
            sites = build(prefix, w, conf, res)
            if not sites:
                continue
            ids = {}
            trees(res, prefix, w, st, sites, conf, tier, ids)
            libcalls(res, prefix, w, st, conf, tier)
            if not res.viols:
                profiles(res, prefix, w, sites, conf, tier, ids)
        limits(res, prefix, d)
        whole(res, prefix, d, st, tier)
    res.bounds = ("all call trees of up to %s calls over 6 kinds of calls (same-line sites, arrays, functions without floats, library callbacks) at %s; all subsets of 12 library/intrinsic calls; "
                  "profiles of all trees of up to %d calls; 6 whole programs at O0-O3" % ("3-4" if tier == "quick" else "4-5", [c[0] for c in confs], 2 if tier == "quick" else 3))
    res.sample({"script": "fgh)))", "events": "enter main, enter f, enter g, enter h, exit h, exit g, exit f, exit main"})
