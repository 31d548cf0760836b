"""The PRISM pass: all operations, types, lane counts and small expressions x modes, dispatchs, architectures and sets of
library functions.  The PRISM library is a recorder that gives every result a tag."""
import itertools, os, shlex, struct
import common
import build
from common import sh
from checks import C12, _wrap
from checks._wrap import CLANG

OPT = common.LLVM + "/bin/opt"
LANES = [1, 2, 4, 8, 16, 32, 64]
ODD = [3, 5, 128]
TY = {"f32": ("float", 4), "f64": ("double", 8)}
OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
MODES = {"sr": "stochastic-rounding", "ud": "up-down"}
ARCH = {"base": [], "avx2": ["-mavx2", "-mfma"], "avx512": ["-march=skylake-avx512"], "avx512f": ["-mavx512f"], "avx": ["-mavx"]}
BITS = {"base": 128, "avx": 256, "avx2": 256, "avx512": 512, "avx512f": 512}

REC = r"""
#include <stdio.h>
#include <string.h>
static int k;
int prism_count(void) { return k; }
void prism_rec(const char *name, int n, int bytes, const void *a, const void *b, const void *c, void *r) {
  const void *o[3] = {a, b, c};
  printf("E %s %d", name, n);
  for (int i = 0; i < 3 && o[i]; i++) {
    printf(" ");
    for (int j = 0; j < n; j++) {
      unsigned long long u = 0;
      memcpy(&u, (const char *)o[i] + j * bytes, bytes);
      printf("%s%llx", j ? "," : "", u);
    }
  }
  printf("\n");
  for (int j = 0; j < n; j++) {
    float f = 1001 + 128 * k + j; double d = f;
    memcpy((char *)r + j * bytes, bytes == 4 ? (void *)&f : (void *)&d, bytes);
  }
  k++;
}
"""


def library(d, name, arch, static, missing=()):
    """a recording PRISM library: IR file and object; returns the functions it has {(op, type, lanes): passing}"""
    funs, text = {}, ['extern "C" void prism_rec(const char *, int, int, const void *, const void *, const void *, void *);']
    disp = "static" if static else "dynamic"
    for t, (ct, sz) in TY.items():
        for n in LANES[1:]:
            text.append("typedef %s v%s_%d __attribute__((ext_vector_type(%d)));" % (ct, t, n, n))
    for m in MODES:
        text.append("namespace prism { namespace %s {" % m)
        for op in list(OPS) + ["fma"]:
            ar = 3 if op == "fma" else 2
            ref = lambda p: ", ".join(p + x for x in "abc"[:ar]) + ("" if ar == 3 else ", 0")
            for t, (ct, sz) in TY.items():
                for n in LANES:
                    if (op, t, n) in missing or (op, None, None) in missing or (None, t, n) in missing:
                        continue
                    fixed = static and n * sz * 8 <= BITS[arch]
                    how = "scalar" if n == 1 else "fixed" if fixed else "variable"
                    funs[op, t, n] = how
                    rec = 'prism_rec("%s %s %s %s%s", %d, %d, ' % (m, disp, how, op, t, n, sz)
                    if n == 1:
                        ns, ret, body = "scalar { namespace %s_dispatch" % disp, ct, "%s r; %s%s, &r); return r;" % (ct, rec, ref("&"))
                        par = ", ".join(ct + " " + x for x in "abc"[:ar])
                        end = "} }"
                    elif how == "fixed":
                        v = "v%s_%d" % (t, n)
                        ns, ret, body = "vector { namespace %s_dispatch { namespace fixed" % disp, v, "%s r; %s%s, &r); return r;" % (v, rec, ref("&"))
                        par = ", ".join(v + " " + x for x in "abc"[:ar])
                        end = "} } }"
                    else:
                        ns, ret, body = "vector { namespace %s_dispatch { namespace variable" % disp, "void", "%s t[%d]; __builtin_memset(r, 0, sizeof t); %s%s, t); __builtin_memcpy(r, t, sizeof t);" % (ct, n, rec, ref(""))
                        par = ", ".join("const %s *%s" % (ct, x) for x in "abc"[:ar]) + ", %s *r" % ct
                        end = "} } }"
                    text.append("namespace %s { %s %s%s%s(%s) { %s } %s" % (ns, ret, op, t, "" if n == 1 else "x%d" % n, par, body, end))
        text.append("} }")
    src = os.path.join(d, name + ".cpp")
    with open(src, "w") as f:
        f.write("\n".join(text) + "\n")
    for fl, out in ((["-S", "-emit-llvm"], ".ll"), (["-c"], ".o")):
        rc, o, e = sh([CLANG + "++", "-O1", "-fPIC", "-w"] + ARCH[arch] + fl + [src, "-o", os.path.join(d, name + out)])
        if rc:
            raise common.HarnessError("stand-in library: " + e[-800:])
    return funs


# ------------------------------------------------------------------ kernels
class K:
    """one function: C body, type and lanes of the result, and the same computation on recorded operations"""
    def __init__(self, body, t, n, sim, uses, args="abcdef", spec=False, o0=False):
        # spec: an optimizer may execute operations of the branch not taken; o0: it may change the number of lanes
        self.body, self.t, self.n, self.sim, self.uses, self.args, self.spec, self.o0 = body, t, n, sim, uses, args, spec, o0 or n in (3, 5)


def trees(n, first=0):
    if n == 0:
        yield first
        return
    for l in range(n):
        for op in OPS:
            for x in trees(l, first):
                for y in trees(n - 1 - l, first + l + 1):
                    yield (op, x, y)


def ctext(t):
    return "abcdef"[t] if isinstance(t, int) else "(%s %s %s)" % (ctext(t[1]), OPS[t[0]], ctext(t[2]))


def simtree(t):
    def go(s, v):
        return v[t] if isinstance(t, int) else s.op(t[0], simtree(t[1])(s, v), simtree(t[2])(s, v))
    return go


def optree(t):
    return set() if isinstance(t, int) else {t[0]} | optree(t[1]) | optree(t[2])


def kernels(tier):
    ks = []
    T = lambda t, n: ("v%s_%d" % (t, n)) if n > 1 else TY[t][0]
    for t in TY:
        for n in LANES + ODD:
            u = lambda *ops: {(o, t, n) for o in ops}
            for o, c in OPS.items():
                ks.append(K("return a %s b;" % c, t, n, lambda s, v, o=o: s.op(o, v[0], v[1]), u(o)))
                ks.append(K("return b %s a;" % c, t, n, lambda s, v, o=o: s.op(o, v[1], v[0]), u(o)))
                ks.append(K("return a %s a;" % c, t, n, lambda s, v, o=o: s.op(o, v[0], v[0]), u(o)))
                ks.append(K("return a %s (%s)5.5;" % (c, T(t, n)), t, n, lambda s, v, o=o: s.op(o, v[0], s.const(v[0], 5.5)), u(o)))
                ks.append(K("return (%s)5.5 %s a;" % (T(t, n), c), t, n, lambda s, v, o=o: s.op(o, s.const(v[0], 5.5), v[0]), u(o)))
            fma = "__builtin_elementwise_fma" if n > 1 else "__builtin_fma" + ("f" if t == "f32" else "")
            for p in itertools.permutations(range(3)):
                ks.append(K("return %s(%s);" % (fma, ", ".join("abc"[i] for i in p)), t, n, lambda s, v, p=p: s.op("fma", *[v[i] for i in p]), u("fma")))
            ks.append(K("return %s(a * b, c - d, e / f);" % fma, t, n, lambda s, v: s.op("fma", s.op("mul", v[0], v[1]), s.op("sub", v[2], v[3]), s.op("div", v[4], v[5])), u("fma", "mul", "sub", "div")))
            ks.append(K("return -a;", t, n, lambda s, v: -v[0], set()))
            ks.append(K("%s s = a; for (int i = 0; i < 3; i++) s = s * b + c; return s;" % T(t, n), t, n,
                        lambda s, v: s.op("add", s.op("mul", s.op("add", s.op("mul", s.op("add", s.op("mul", v[0], v[1]), v[2]), v[1]), v[2]), v[1]), v[2]), u("mul", "add")))
            ks.append(K("%s s = a; for (int i = 0; i < 4; i++) if (i & yes) s = s - b; else s = c / s; return s;" % T(t, n), t, n,
                        lambda s, v: s.op("sub", s.op("div", v[2], s.op("sub", s.op("div", v[2], v[0]), v[1])), v[1]), u("sub", "div"), spec=True))
            ks.append(K("%s x = a + b, y = a - b, z = a * b, w = a / b; return x / w - z * y;" % T(t, n), t, n,
                        lambda s, v: s.quad(v), u("add", "sub", "mul", "div")))
            # a recursive function: every call has operations pending
            ks.append(K("%s x = a - b; if (depth-- > 0) x = @(x, b, c, d, e, f) * x; return x + c;" % T(t, n), t, n, lambda s, v: s.rec(2, v), u("sub", "mul", "add")))
            if n in ((1, 2, 4, 8) if tier == "quick" else LANES[:-1]):
                for tr in trees(2):
                    ks.append(K("return %s;" % ctext(tr), t, n, simtree(tr), u(*optree(tr))))
            if (t, n) in ((("f32", 2), ("f64", 8)) if tier == "quick" else [(t, n) for t in TY for n in (1, 2, 4, 8)]):
                for tr in trees(3):
                    ks.append(K("return %s;" % ctext(tr), t, n, simtree(tr), u(*optree(tr))))
            # both types in one function
            if n > 1:
                o2, t2 = TY[{"f32": "f64", "f64": "f32"}[t]][0], {"f32": "f64", "f64": "f32"}[t]
                V2 = "v%s_%d" % (t2, n)
                ks.append(K("%s x = __builtin_convertvector(a + b, %s); return __builtin_convertvector((x - __builtin_convertvector(c, %s)) / x, %s) * b;" % (V2, V2, V2, T(t, n)), t, n,
                            lambda s, v, t2=t2: s.two(v, t2), u("add", "mul") | {("sub", t2, n), ("div", t2, n)}))
                ks.append(K("%s s = a[0] + b[1]; return c * d - s;" % TY[t][0], t, n,
                            lambda s, v: s.op("sub", s.op("mul", v[2], v[3]), s.const(v[0], s.op("add", v[0].part(0), v[1].part(1))[0])), u("mul", "sub") | {("add", t, 1)}))
        # vectors of several sizes in one function, in every order
        for n in LANES[2:]:
            for big_first in (0, 1):
                h = n // 2
                V, H = T(t, n), T(t, h)
                lo = lambda x, h=h: "__builtin_shufflevector(%s, %s, %s)" % (x, x, ", ".join(str(i) for i in range(h)))
                two = "__builtin_shufflevector(x, x, %s)" % ", ".join(str(i % h) for i in range(n))
                if big_first:
                    body = "%s y = a * b; %s x = %s - %s; return y / (%s + d);" % (V, H, lo("y"), lo("c"), two)
                else:
                    body = "%s x = %s - %s; %s y = %s / b; return y * (c + d);" % (H, lo("a"), lo("b"), V, two)
                ks.append(K(body, t, n, lambda s, v, b=big_first: s.sizes(v, b), {(o, t, n) for o in OPS} | {("sub", t, h)}, o0=True))
    # formats that PRISM does not have
    ks.append(K("return (double)((long double)a * b + (long double)c);", "f64", 1, lambda s, v: Vec("f64", [v[0][0] * v[1][0] + v[2][0]]), set()))
    return ks


def write_kernels(d, ks):
    h = ["#include <math.h>", "extern volatile int yes; extern int depth;"]
    for t, (ct, sz) in TY.items():
        for n in LANES[1:] + ODD:
            h.append("typedef %s v%s_%d __attribute__((ext_vector_type(%d)));" % (ct, t, n, n))
    k, m = list(h), ["#include <stdio.h>", "#include <string.h>"]
    m.append("volatile int yes = 1; int depth; int prism_count(void);")
    tab = []
    for i, x in enumerate(ks):
        T = ("v%s_%d" % (x.t, x.n)) if x.n > 1 else TY[x.t][0]
        name = "k%d" % i
        if "@" in x.body:
            # vectors by pointer: the calling convention of wide vectors is not the subject
            k.append("void r%d(const %s *A, const %s *B, const %s *C, %s *O);" % (i, T, T, T, T))
            k.append("void r%d(const %s *A, const %s *B, const %s *C, %s *O) { %s a = *A, b = *B, c = *C; %s x = a - b; if (depth-- > 0) { %s y; r%d(&x, &b, &c, &y); x = y * x; } *O = x + c; }" % (i, T, T, T, T, T, T, T, i))
            k.append("void k%d(const %s *p, %s *o) { depth = 2; r%d(p, p + 1, p + 2, o); }" % (i, T, T, i))
        else:
            k.append("static inline __attribute__((always_inline)) %s f%d(%s) { %s }" % (T, i, ", ".join(T + " " + c for c in x.args), x.body))
            k.append("void k%d(const %s *p, %s *o) { *o = f%d(%s); }" % (i, T, T, i, ", ".join("p[%d]" % j for j in range(len(x.args)))))
        m.append("void k%d(const void *, void *);" % i)
        tab.append("{k%d, %d, %d, %d}" % (i, x.n, TY[x.t][1], storage(x.n)))
    m.append(r"""
static struct { void (*f)(const void *, void *); int n, sz, st; } tab[] = {%s};
static char in[6 * 1024 + 64] __attribute__((aligned(1024))), out[1024] __attribute__((aligned(1024)));
int main(void) {
  for (unsigned i = 0; i < sizeof tab / sizeof *tab; i++) {
    for (int l = 0; l < 6; l++)
      for (int j = 0; j < tab[i].n; j++) {
        float f = 3 + 130 * l + j; double d = f;
        memcpy(in + (l * tab[i].st + j) * tab[i].sz, tab[i].sz == 4 ? (void *)&f : (void *)&d, tab[i].sz);
      }
    memset(out, 0xAA, sizeof out);
    printf("K %%u %%d\n", i, prism_count());
    tab[i].f(in, out);
    printf("R ");
    for (int j = 0; j < tab[i].n; j++) {
      unsigned long long u = 0;
      memcpy(&u, out + j * tab[i].sz, tab[i].sz);
      printf("%%s%%llx", j ? "," : "", u);
    }
    printf("\n");
  }
  printf("END\n");
  return 0;
}
""" % ",\n".join(tab))
    with open(os.path.join(d, "k.c"), "w") as f:
        f.write("\n".join(k) + "\n")
    with open(os.path.join(d, "m.c"), "w") as f:
        f.write("\n".join(m) + "\n")


def storage(n):
    s = 1
    while s < n:
        s *= 2
    return s


def rnd(t, v):
    return struct.unpack("<f", struct.pack("<f", v))[0] if t == "f32" else v


class Vec(tuple):
    """a vector of floats or doubles"""
    def __new__(cls, t, v):
        x = super().__new__(cls, (rnd(t, float(z)) for z in v))
        x.t = t
        return x

    def __neg__(self):
        return Vec(self.t, [-z for z in self])

    def part(self, i):
        return Vec(self.t, [self[i]])


def bits(x):
    return tuple(struct.unpack("<I", struct.pack("<f", v))[0] if x.t == "f32" else struct.unpack("<Q", struct.pack("<d", v))[0] for v in x)


class Wrong(Exception):
    pass


class Sim:
    """computes a kernel with the recorded results of the operations that the library must or may do"""
    def __init__(self, events, base, status, ctx, commut):
        self.ev, self.base, self.status, self.ctx, self.commut = events, base, status, ctx, commut
        self.used = set()

    def const(self, like, v):
        return Vec(like.t, [v] * len(like))

    def conv(self, x, t):
        return Vec(t, x)

    def native(self, op, x):
        # in double: sums, products and fma of these values are exact before the final rounding, quotients are innocuous
        f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "fma": lambda a, b, c: a * b + c}[op]
        return Vec(x[0].t, [f(*z) for z in zip(*x)])

    def op(self, op, *x):
        t = x[0].t
        n = len(x[0])
        how, must = self.status(op, t, n)
        if how:
            want = (self.ctx + " " + how + " " + op + t, n)
            w = [bits(v) for v in x]
            alt = [(want[0], w)]
            if self.commut and op in ("add", "mul"):
                alt.append((want[0], w[::-1]))
            if self.commut and op == "fma":
                alt.append((want[0], [w[1], w[0], w[2]]))
            if self.commut and op == "sub":     # the compiler may write a - 5.5 as a + -5.5
                alt += [(want[0].replace("sub", "add"), z) for z in ([w[0], bits(-x[1])], [bits(-x[1]), w[0]])]
            hits = [i for i, e in enumerate(self.ev) if e[1] == n and (e[0], list(e[2])) in alt]
            if hits:
                i = next((h for h in hits if h not in self.used), None)
                if i is None:
                    i = hits[-1]
                    if not self.commut:
                        raise Wrong("%s%sx%d is executed %d times only" % (op, t, n, len(hits)))
                self.used.add(i)
                k = self.base + i
                return Vec(t, [1001 + 128 * k + j for j in range(n)])
            if must:
                raise Wrong("no call of %s for %d lanes with operands %s" % (want[0], n, [list(map(float, v)) for v in x]))
        return self.native(op, x)

    def two(self, v, t2):
        x = self.conv(self.op("add", v[0], v[1]), t2)
        return self.op("mul", self.conv(self.op("div", self.op("sub", x, self.conv(v[2], t2)), x), "f32" if t2 == "f64" else "f64"), v[1])

    def sizes(self, v, big_first):
        n = len(v[0])
        half = lambda x: Vec(x.t, x[:n // 2])
        twice = lambda x: Vec(x.t, tuple(x) * 2)
        if big_first:
            y = self.op("mul", v[0], v[1])
            x = self.op("sub", half(y), half(v[2]))
            return self.op("div", y, self.op("add", twice(x), v[3]))
        x = self.op("sub", half(v[0]), half(v[1]))
        y = self.op("div", twice(x), v[1])
        return self.op("mul", y, self.op("add", v[2], v[3]))

    def quad(self, v):
        x, y, z, w = [self.op(o, v[0], v[1]) for o in ("add", "sub", "mul", "div")]
        return self.op("sub", self.op("div", x, w), self.op("mul", z, y))

    def rec(self, depth, v):
        x = self.op("sub", v[0], v[1])
        if depth > 0:
            y = self.rec(depth - 1, [x] + list(v[1:]))
            x = self.op("mul", y, x)
        return self.op("add", x, v[2])


def judge(ks, out, status, ctx, commut, what, res):
    lines = out.split("\n")
    if "END" not in lines:
        res.violation("%s: the program does not end: %s" % (what, lines[-3:]))
        return
    cur, ev, base, seen = None, [], 0, 0
    for l in lines:
        f = l.split(" ")
        if f[0] == "K":
            cur, ev, base = int(f[1]), [], int(f[2])
        elif f[0] == "E":
            ev.append((" ".join(f[1:5]), int(f[5]), tuple(tuple(int(z, 16) for z in g.split(",")) for g in f[6:])))
        elif f[0] == "R":
            k = ks[cur]
            seen += 1
            if commut and k.o0:
                continue
            res.states += 1
            res.transitions += len(ev)
            res.nontrivial += 1 if ev else 0
            got = tuple(int(z, 16) for z in f[1].split(","))
            v = [Vec(k.t, [3 + 130 * l + j for j in range(k.n)]) for l in range(6)]
            s = Sim(ev, base, status, ctx, commut)
            try:
                want = bits(k.sim(s, v))
                extra = [e for i, e in enumerate(ev) if i not in s.used]
                if got != want:
                    raise Wrong("the result is %s instead of %s" % (["%x" % z for z in got], ["%x" % z for z in want]))
                if extra and not (k.spec and commut):
                    raise Wrong("unexpected calls %s" % extra[:3])
            except Wrong as e:
                res.violation("%s: { %s } on %s x %d: %s\ncalls: %s" % (what, k.body, TY[k.t][0], k.n, e, ev[:6]))
    if seen != len(ks):
        res.violation("%s: %d kernels executed out of %d" % (what, seen, len(ks)))


# ------------------------------------------------------------------ the passes
def passlib(d, res):
    """the pass, compiled as the build does when PRISM is enabled"""
    src = os.path.join(build.REPO, "src/libvfcinstrumentprism")
    p = os.path.join(d, "passes/src/x")
    os.makedirs(p)
    common.shutil.copyfile(os.path.join(common.HERE, "config.h"), os.path.join(d, "passes/config.h"))
    cpp = []
    for f in os.listdir(src):
        if f.endswith((".cpp", ".h", ".hpp")):
            common.shutil.copyfile(os.path.join(src, f), os.path.join(p, f))
            if f.endswith(".cpp"):
                cpp.append(os.path.join(p, f))
    so = os.path.join(d, "libvfcinstrumentprism.so")
    rc, o, e = sh(["g++", "-shared", "-fPIC", "-DHAVE_CONFIG_H", "-I" + common.LLVM + "/include", "-std=c++17", "-fno-exceptions", "-funwind-tables", "-D_GNU_SOURCE",
                   "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-O1"] + sorted(cpp) + ["-o", so], timeout=600)
    if rc:
        res.violation("the PRISM pass does not compile: %s" % (o + e)[-1500:])
        return None
    return so


MISSING = {("fma", None, None), (None, "f64", 8), ("div", "f32", 1), ("mul", "f32", 4), (None, "f32", 64)}


def can_run(arch):
    with open("/proc/cpuinfo") as f:
        fl = next((l for l in f if l.startswith("flags")), "").split()
    need = {"base": [], "avx": ["avx"], "avx2": ["avx2", "fma"], "avx512": ["avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd", "clwb", "pku"], "avx512f": ["avx512f"]}[arch]
    return all(x in fl for x in need)


def run(prefix, tier, res):
    with common.Scratch() as d:
        so = passlib(d, res)
        if not so:
            return
        with open(os.path.join(d, "rec.c"), "w") as f:
            f.write(REC)
        ks = kernels(tier)
        write_kernels(d, ks)
        for s, fl in (("rec", []), ("m", [])):
            rc, o, e = sh([CLANG, "-O1", "-w", "-c", s + ".c", "-o", s + ".o"], cwd=d)
            if rc:
                raise common.HarnessError(e[-1000:])
        archs = [a for a in ARCH if can_run(a)]
        libs = {}
        for name, arch, static, miss in [("s" + a, a, True, ()) for a in archs if a in ("base", "avx2", "avx512")] + [("d", "base", False, ()), ("sp", "base", True, MISSING), ("dp", "base", False, MISSING)]:
            libs[name] = (arch, static, library(d, name, arch, static, miss))
        olv = ["-O0", "-O2"] if tier == "quick" else ["-O0", "-O1", "-O2", "-O3"]

        def ir(j):
            a, o = j
            n = "k.%s%s" % (a, o)
            rc, so_, e = sh([CLANG, "-w", "-S", "-emit-llvm", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-mllvm", "-disable-vector-combine", o] + ARCH[a] + ["k.c", "-o", n + ".ll"], cwd=d, timeout=600)
            if rc:
                raise common.HarnessError(e[-1000:])
            # the kernels use every operation that they are meant to use
            return n
        common.pmap(ir, [(a, o) for a in archs for o in olv])
        jobs = []
        for a, o in itertools.product(archs, olv):
            for lib in libs:
                for m in MODES:
                    for strict in (False, True):
                        if o != "-O0" and strict and lib not in ("sp", "d"):
                            continue
                        if m == "ud" and o != "-O0" and tier == "quick":
                            continue
                        jobs.append((a, o, lib, m, strict))

        def one(j):
            a, o, lib, m, strict = j
            r = common.Result()
            larch, static, funs = libs[lib]
            w = os.path.join(d, "j%d" % jobs.index(j))
            os.mkdir(w)
            what = "kernels %s %s, library %s for %s, mode %s%s" % (a, o, "static" if static else "dynamic", larch + (" with missing functions" if lib in ("sp", "dp") else ""), MODES[m], ", strict ABI" if strict else "")
            sl = lib if static else "sbase"
            dl = lib if not static else "d"
            cmd = [OPT, "-S", "-load-pass-plugin", so, "-passes=vfclibinst", "-vfclibinst-mode", MODES[m], "-vfclibinst-dispatch", "static" if static else "dynamic",
                   "-vfclibinst-prism-static-ir-file", "%s/%s.ll" % (d, sl), "-vfclibinst-prism-dynamic-ir-file", "%s/%s.ll" % (d, dl), "-vfclibinst-inst-fma"] + (["-vfclibinst-strict-abi"] if strict else []) + \
                  ["%s/k.%s%s.ll" % (d, a, o), "-o", w + "/i.ll"]
            rc, so_, e = sh(cmd, timeout=600)
            r.traces += 1
            if strict and lib in ("sp", "dp"):
                r.states += 1
                if rc == 0:
                    r.violation("%s: accepted although functions are missing" % what)
                common.shutil.rmtree(w, ignore_errors=True)
                return r
            if rc:
                r.violation("%s: the pass fails: %s" % (what, e[-1200:]))
                common.shutil.rmtree(w, ignore_errors=True)
                return r
            for c in ([CLANG, "-w", "-c", "-O0" if o == "-O0" else "-O1"] + ARCH[a] + ["i.ll", "-o", "i.o"], [CLANG, "i.o", d + "/m.o", d + "/rec.o", "%s/%s.o" % (d, lib), "-lm", "-o", "p"]):
                rc, so_, e = sh(c, cwd=w, timeout=600)
                if rc:
                    r.violation("%s: the instrumented code does not compile: %s" % (what, e[-1200:]))
                    common.shutil.rmtree(w, ignore_errors=True)
                    return r
            rc, out, e = sh([w + "/p"], timeout=120)
            # the library of another architecture may be left alone, or used properly
            level = {"base": 0, "avx": 1, "avx2": 2, "avx512f": 3, "avx512": 3}
            same = level[a] >= level[larch]

            def status(op, t, n):
                how = funs.get((op, t, n))
                return how, bool(how) and same
            if rc:
                r.violation("%s: the program ends with status %s after %s" % (what, rc, out.split("\n")[-2:]))
            else:
                judge(ks, out, status, m + " " + ("static" if static else "dynamic"), o != "-O0", what, r)
            common.shutil.rmtree(w, ignore_errors=True)
            return r
        for r in common.pmap(one, jobs):
            C12.merge(res, r)
        res.count("kernels", len(ks))
        res.count("configurations", len(jobs))
        driver(prefix, tier, res, d, so)
    res.bounds = ("%d kernels (every operation on 7 lane counts and 3 unsupported ones with every order of operands, constants, loops, branches, recursion, all expressions of 2 operations on 1-8 lanes and of 3 on some) "
                  "x %d configurations (architectures %s, optimisation levels, static libraries of 3 architectures, dynamic, with missing functions, both modes, strict or not); function selection as in C12; the driver's options" % (len(ks), len(jobs), ", ".join(archs)))


def driver(prefix, tier, res, d, so):
    """the command, with the stand-in installed where PRISM is; and the selection of functions"""
    np_ = os.path.join(d, "prefix")
    for sub in ("lib", "include", "bin"):
        os.makedirs(os.path.join(np_, sub))
        for f in os.listdir(os.path.join(prefix, sub)):
            if sub != "bin":
                os.symlink(os.path.join(prefix, sub, f), os.path.join(np_, sub, f))
            else:
                with open(os.path.join(prefix, sub, f)) as h:
                    t = h.read().replace(prefix + "/", np_ + "/")
                with open(os.path.join(np_, sub, f), "w") as h:
                    h.write(t)
                os.chmod(os.path.join(np_, sub, f), 0o755)
    common.shutil.copyfile(so, os.path.join(np_, "lib/libvfcinstrumentprism.so"))
    common.shutil.copyfile(d + "/sbase.ll", np_ + "/include/prism-static.ll")
    common.shutil.copyfile(d + "/d.ll", np_ + "/include/prism-dynamic.ll")
    for name, obj in (("prism-static", "sbase"), ("prism-static-dbg", "sbase"), ("prism-dynamic", "d"), ("prism-dynamic-dbg", "d"), ("hwy", None)):
        sh(["ar", "rcs", "%s/lib/lib%s.a" % (np_, name)] + (["%s/%s.o" % (d, obj)] if obj else []))
    ks = [k for k in kernels("quick") if k.n in (1, 2, 4, 8)][::7]
    sd = os.path.join(d, "small")
    os.mkdir(sd)
    write_kernels(sd, ks)
    sh([CLANG, "-O1", "-w", "-c", "m.c", "-o", "m.o"], cwd=sd)
    spell = [("sr", "sr"), ("ud", "ud"), ("up-down", "ud"), ("stochastic-rounding", "sr")]
    jobs = []
    for (sp, m), disp, opts in itertools.product(spell, (None, "static", "dynamic"),
                                                 ([], ["--prism-backend-strict-abi"], ["--prism-backend-debug=getoperands"], ["--prism-backend-debug=abi"], ["--prism-backend-debug=targetfeatures"],
                                                  ["--verbose"], ["--save-temps"], ["--inst-fma", "-O2"])):
        jobs.append((sp, m, disp, opts))
    lanes = {(op, t, n): ("scalar" if n == 1 else "fixed" if n * TY[t][1] <= 16 else "variable") for op in list(OPS) + ["fma"] for t in TY for n in LANES}

    def one(j):
        sp, m, disp, opts = jobs[j]
        r = common.Result()
        w = os.path.join(d, "d%d" % j)
        os.mkdir(w)
        common.shutil.copyfile(sd + "/k.c", w + "/k.c")
        fl = ["--prism-backend=" + sp] + (["--prism-backend-dispatch=" + disp] if disp else []) + opts
        what = "verificarlo-c " + " ".join(fl)
        disp = disp or "dynamic"
        if j % 2:
            cmds = [fl + ["-w", "-ffp-contract=off", "-fno-slp-vectorize", "-mllvm", "-disable-vector-combine", "-c", "k.c", "-o", "k.o"], fl + ["k.o", sd + "/m.o", d + "/rec.o", "-lm", "-o", "p"]]
        else:
            cmds = [fl + ["-w", "-ffp-contract=off", "-fno-slp-vectorize", "-mllvm", "-disable-vector-combine", "k.c", sd + "/m.o", d + "/rec.o", "-lm", "-o", "p"]]
        r.traces += 1
        for c in cmds:
            rc, o, e = _wrap.vfc(np_, c, w, timeout=300)
            if rc:
                r.violation("%s fails (%s): %s" % (what, rc, (o + e)[-1200:]))
                return r
        rc, out, e = sh([w + "/p"], timeout=120)
        if rc:
            r.violation("%s: the program ends with status %s: %s" % (what, rc, out[-300:]))
            return r

        def status(op, t, n):
            how = lanes.get((op, t, n))
            if how == "fixed" and disp == "dynamic":
                how = "variable"
            return how, bool(how) and (op != "fma" or "--inst-fma" in opts)
        judge(ks, out, status, m + " " + disp, "-O2" in opts, what, r)
        common.shutil.rmtree(w, ignore_errors=True)
        return r
    for r in common.pmap(one, range(len(jobs))):
        C12.merge(res, r)
    for bad in (["--prism-backend=nonsense"], ["--prism-backend=sr", "--prism-backend-dispatch=nonsense"], ["--prism-backend=", "k.c"], ["--prism-backend=sr", "--prism-backend-debug=nonsense"],
                ["--prism-backend=sr", "--include-file", "absent"], ["--prism-backend=sr", "--exclude-file", "absent"]):
        w = os.path.join(d, "bad")
        os.makedirs(w)
        common.shutil.copyfile(sd + "/k.c", w + "/k.c")
        rc, o, e = _wrap.vfc(np_, bad + ["-w", "-c", "k.c", "-o", "k.o"], w)
        res.states += 1
        if rc == 0 or os.path.exists(w + "/k.o"):
            res.violation("verificarlo-c %s -c k.c is accepted" % bad)
        common.shutil.rmtree(w)
    # the selection of functions
    os.mkdir(d + "/s")
    C12.sources(d + "/s")
    n = C12.pass_part(np_, tier, res, os.path.realpath(d + "/s"), extra=["--prism-backend=sr"], mark="vfclibinst-mode")
    res.count("selection files", n)
    # one function: every name
    w = os.path.realpath(d + "/s")
    for fn in C12.FUNS + ["nosuch", "f", "g.", "f1|g"]:
        rc, o, e = _wrap.vfc(np_, ["-c", "-O0", "-ffp-contract=off", "--save-temps", "--prism-backend=ud", "--function", fn, "main.c"], w)
        res.states += 1
        if rc:
            res.violation("verificarlo-c --prism-backend=ud --function %r fails: %s" % (fn, (o + e)[-500:]))
            continue
        ll = sorted((os.path.join(w, f) for f in os.listdir(w) if f.startswith("main.") and f.endswith(".2.ll")), key=os.path.getmtime)
        if not ll:
            raise common.HarnessError("no intermediate file: %s" % os.listdir(w))
        with open(ll[-1]) as f:
            left = C12.bodies(f.read())
        for g in C12.FUNS:
            res.transitions += 1
            if (left.get(g) == 0) != (g == fn):
                res.violation("verificarlo-c --prism-backend=ud --function %r: %s of the operations of %s are left native" % (fn, left.get(g), g))
