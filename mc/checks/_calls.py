"""A family of programs whose call tree is chosen at run time by a script, and its reference semantics.

script = sequence of nodes, node = letter children ')' ; letters:
  f, F  two call sites of f(double) on the same source line
  g     g(float, int)
  h     h(double *, float *) on local arrays
  q     q(int), which uses no floating point itself; below it, f F g h are called through s(int)
  c     qsort with a callback that runs its children
"""
import functools, struct
from fractions import Fraction

LETTERS = "fFghqc"
K = 1.0 / 3
NAN = float("nan")


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return float("inf") if v > 0 else float("-inf")


def source():
    """(text, {(parent, letter): (callee, line)})"""
    L = []
    sites = {}
    L += ["#include <stdio.h>", "#include <stdlib.h>", "#include <string.h>", "#include <interflop/interflop.h>",
          "void interflop_call(interflop_call_id id, ...);",
          "#define NI __attribute__((noinline))",
          "static const char *volatile S;", "static volatile double GX;", "static volatile int N;", "static union { unsigned long u; double d; float f; } T[1 << 16];",
          "static const volatile double K = %s; static const volatile float KF = %s;" % (K.hex(), f32(K).hex()),
          "#define td(v) (T[N].d = (v), N++)",
          "#define tf(v) (T[N].u = 0, T[N].f = (v), N++)",
          "double f(double x); float g(float y, int k); void h(double *v, float *w); void q(int k); void s(int c); int cmp(const void *, const void *);"]

    def site(parent, letters, callees, text):
        L.append(text)
        for l, c in zip(letters, callees):
            sites[parent, l] = (c, len(L))

    def switch(parent, var, isf, one=False):
        u, c = ("f", "(float)") if isf else ("", "")
        a = var
        L.append("  switch (%s) {" % ("c" if one else "*S++"))
        site(parent, "fF", "ff", "  case 'f': %s = %sf(%s * 0.625%s); break; case 'F': %s = %sf(%s * 0.5%s); break;" % (a, c, a, u, a, c, a, u))
        if isf:
            site(parent, "g", "g", "  case 'g': %s = %s + g(%s * 0.5f, 3); break;" % (a, a, a))
        else:
            site(parent, "g", "g", "  case 'g': %s = %s + g((float)%s * 0.5f, 3); break;" % (a, a, a))
        L.append("  case 'h': { double v[3] = {%s, %s * 0.5%s, 2.0}; float w[2] = {%s%s, 1.5f};" % (a, a, u, "" if isf else "(float)", a))
        site(parent, "h", "h", "    h(v, w);")
        L.append("    %s = %sv[1] + w[1]; break; }" % (a, c) if not isf else "    %s = (float)v[1] + w[1]; break; }" % a)
        if not one:
            site(parent, "q", "q", "  case 'q': q(1); break;")
            L.append("  case 'c': { int z[2] = {2, 1};")
            site(parent, "c", ("qsort",), "    qsort(z, 2, sizeof z[0], cmp); break; }")
            L.append("  case ')': goto out;")
        L.append("  default: abort();\n  }")
        L[-1:] = L[-1].split("\n")

    def fun(parent, head, pre, var, isf, post, line1=None):
        L.append("NI " + head + " {")
        L.append("  " + pre)
        L.append("  for (;;)")
        switch(parent, var, isf)
        L.append("out:")
        L.append("  " + post + " }")
    fun("f", "double f(double x)", "td(x * K);", "x", False, "x = x + K; td(x); return x;")
    fun("g", "float g(float y, int k)", "tf(y * KF);", "y", True, "y = y + KF; tf(y); return y;")
    fun("h", "void h(double *v, float *w)", "double x = v[0]; td(x * K);", "x", False, "v[1] = x * K; w[1] = w[0] + 0.25f; td(v[1]); tf(w[1]); td(v[2]);")
    L.append("NI void s(int c) {")
    L.append("  double x = GX;")
    L.append("  td(x * K);")
    switch("s", "x", False, True)
    L.append("  GX = x; td(x + K); }")
    L.append("NI void q(int k) {")
    L.append("  for (;;) { int c = *S++; if (c == ')') return;")
    site("q", "q", "q", "    if (c == 'q') q(k + 1);")
    L.append("    else if (c == 'c') { int z[2] = {2, 1};")
    site("q", "c", ("qsort",), "      qsort(z, 2, sizeof z[0], cmp); }")
    site("q", "s", "s", "    else s(c);")
    L.append("  } }")
    fun("cmp", "int cmp(const void *a, const void *b)", "double x = GX; td(x * K);", "x", False, "GX = x; td(x + K); return 0;")
    fun("main", "int main(int n, char **av)", "double x = 0; int i = 0; N = 0; next: if (++i >= n) goto end; S = av[i]; x = 1.7; GX = 1.3; if (av[1][0] == '#') interflop_call(INTERFLOP_CUSTOM_ID, 0, \"m\", 0L); if (i == 1 && S[0] == '#') goto next; td(x * K);", "x", False, "td(x + K); goto next;")
    L[-1] = L[-1][:-2]
    L.append("end: for (i = 0; i < N; i++) printf(\"%lx\\n\", T[i].u); return 0; }")
    return "\n".join(L) + "\n", sites


# ------------------------------------------------------------------ scripts
def forests(n, letters):
    """all scripts with exactly n nodes"""
    if n == 0:
        yield ""
        return
    for k in range(1, n + 1):         # the first tree has k nodes
        for l in letters:
            for c in forests(k - 1, letters):
                for rest in forests(n - k, letters):
                    yield l + c + ")" + rest


# ------------------------------------------------------------------ semantics
@functools.lru_cache(1 << 20)
def vround(x, p, r, up=False):
    """nearest value with p fraction bits and r exponent bits, ties to even (up: half of the smallest subnormal goes up)"""
    if x != x or x in (0.0, float("inf"), float("-inf")):
        return x
    s = -1 if x < 0 else 1
    m = abs(Fraction(x))
    e = m.numerator.bit_length() - m.denominator.bit_length()
    if Fraction(2) ** e > m:
        e -= 1
    emin, emax = 2 - (1 << (r - 1)), (1 << (r - 1)) - 1
    ulp = Fraction(2) ** (max(e, emin) - p)
    k = m / ulp
    n = k.numerator // k.denominator
    rem = k - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and (n & 1 or (up and n == 0))):
        n += 1
    v = n * ulp
    if v >= Fraction(2) ** (emax + 1):
        return s * float("inf")
    return s * float(v)


FULL = (52, 11, 23, 8)


class Run:
    """entries: {site key: (ops settings, [input (p, r)], [output (p, r)])}; site key = (parent, letter) or 'main'.
    imode: none/arguments/operations/all; vmode: ieee/ib/ob/full; cli: settings of the command line."""

    def __init__(self, entries=None, imode="none", vmode="full", cli=FULL, fast=False, up=False):
        self.E, self.imode, self.vmode, self.cur = entries or {}, imode, vmode, cli
        self.T, self.ev, self.calls, self.fast, self.up = [], [], {}, fast, up
        self.rng = {}
        self.depth = 0
        self.stack = []

    # operations
    def op(self, k, a, b, single):
        p, r = self.cur[2:] if single else self.cur[:2]
        full = (p, r) == ((23, 8) if single else (52, 11))
        if self.vmode in ("full", "ib") and not full:
            a, b = vround(a, p, r, self.up), vround(b, p, r, self.up)
        v = a * b if k == "*" else a + b
        if single:
            v = f32(v)
        if self.vmode in ("full", "ob") and not full:
            v = vround(v, p, r, self.up)
        return v

    def td(self, v):
        self.T.append("%x" % struct.unpack("<Q", struct.pack("<d", v))[0])

    def tf(self, v):
        self.T.append("%x" % struct.unpack("<I", struct.pack("<f", v))[0])

    # a hooked call: args = list of (type, name, [values]); body gets the rounded values, returns (outputs)
    def call(self, key, fp, lib, args, body):
        ent = self.E.get(key)
        self.calls[key] = self.calls.get(key, 0) + 1
        self.depth += 1
        saved = self.cur
        if fp and not lib and self.imode in ("operations", "all"):
            self.cur = ent[0] if ent else FULL
        rin = fp and ent and self.imode in ("arguments", "all") and self.vmode in ("full", "ib")
        rout = fp and ent and self.imode in ("arguments", "all") and self.vmode in ("full", "ob")
        if fp:
            if not self.fast:
                self.ev.append(("enter", key, self.depth, [(t, n, list(v)) for t, n, v in args]))
            self.bound(key, "i", args, ent[1] if rin else None)
        if rin:
            args = [(t, n, [vround(x, *ent[1][i], self.up) for x in v]) for i, (t, n, v) in enumerate(args)]
        outs = body(*[v for t, n, v in args])
        if fp:
            if not self.fast:
                self.ev.append(("exit", key, self.depth, [(t, n, list(v)) for t, n, v in outs]))
            self.bound(key, "o", outs, ent[2] if rout else None)
        if rout:
            outs = [(t, n, [vround(x, *ent[2][i], self.up) for x in v]) for i, (t, n, v) in enumerate(outs)]
        self.depth -= 1
        self.cur = saved
        return [v for t, n, v in outs]

    def bound(self, key, io, args, prec):
        import math
        for i, (t, n, v) in enumerate(args):
            for x in v:
                if prec:
                    x = vround(x, *prec[i], self.up)
                if x != x or abs(x) == float("inf"):
                    continue
                k = (key, io, i)
                lo, hi = self.rng.get(k, (1 << 40, -(1 << 40)))
                self.rng[k] = (min(lo, math.floor(x)), max(hi, math.ceil(x)))

    # functions
    def step(self, parent, l, x, isf):
        m = lambda a, b: self.op("*", a, b, isf)
        if l in "fF":
            a = m(x, 0.625 if l == "f" else 0.5)
            r = self.call((parent, l), True, False, [(1, "x", [a])], self.f)[0][0]
            return f32(r) if isf else r
        if l == "g":
            a = self.op("*", x if isf else f32(x), 0.5, True)
            r = self.call((parent, l), True, False, [(0, "y", [a])], self.g)[0][0]
            return self.op("+", x, r, isf)
        if l == "h":
            v = [x, m(x, 0.5), 2.0]
            w = [x if isf else f32(x), 1.5]
            v, w = self.call((parent, l), True, False, [(4, "v", v), (3, "w", w)], self.h)
            return self.op("+", f32(v[1]), w[1], True) if isf else self.op("+", v[1], w[1], False)
        if l == "q":
            self.call((parent, l), False, False, [], self.q)
            return x
        if l == "c":
            self.call((parent, l), False, True, [], self.cmp)
            return x
        raise ValueError(l)

    def loop(self, parent, x, isf):
        while self.S[self.i] != ")":
            l = self.S[self.i]
            self.i += 1
            x = self.step(parent, l, x, isf)
        self.i += 1
        return x

    def f(self, a):
        x = a[0]
        self.td(self.op("*", x, K, False))
        x = self.loop("f", x, False)
        x = self.op("+", x, K, False)
        self.td(x)
        return [(1, "return_value", [x])]

    def g(self, a):
        x = a[0]
        self.tf(self.op("*", x, f32(K), True))
        x = self.loop("g", x, True)
        x = self.op("+", x, f32(K), True)
        self.tf(x)
        return [(0, "return_value", [x])]

    def h(self, v, w):
        v, w = list(v), list(w)
        x = v[0]
        self.td(self.op("*", x, K, False))
        x = self.loop("h", x, False)
        v[1] = self.op("*", x, K, False)
        w[1] = self.op("+", w[0], 0.25, True)
        self.td(v[1])
        self.tf(w[1])
        self.td(v[2])
        return [(4, "v", v), (3, "w", w)]

    def s(self, c):
        x = self.GX
        self.td(self.op("*", x, K, False))
        x = self.step("s", c, x, False)
        self.GX = x
        self.td(self.op("+", x, K, False))
        return []

    def q(self):
        while self.S[self.i] != ")":
            l = self.S[self.i]
            self.i += 1
            if l == "q":
                self.call(("q", "q"), False, False, [], self.q)
            elif l == "c":
                self.call(("q", "c"), False, True, [], self.cmp)
            else:
                self.call(("q", "s"), True, False, [], lambda: self.s(l))
        self.i += 1
        return []

    def cmp(self):
        x = self.GX
        self.td(self.op("*", x, K, False))
        x = self.loop("cmp", x, False)
        self.GX = x
        self.td(self.op("+", x, K, False))
        return []

    def script(self, S):
        self.S, self.i, self.GX = S + ")", 0, 1.3
        x = 1.7
        self.td(self.op("*", x, K, False))
        x = self.loop("main", x, False)
        self.td(self.op("+", x, K, False))

    def main(self, scripts):
        """the whole program"""
        def body():
            for S in scripts:
                self.script(S)
            return []
        self.call("main", True, False, [], body)
        return self
